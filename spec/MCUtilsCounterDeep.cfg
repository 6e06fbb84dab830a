SPECIFICATION Spec
CONSTANTS
  N = 5
  Part = "counter"
  Keys = {1,2,3}
INVARIANTS CounterInv QueueInv Dump
CHECK_DEADLOCK FALSE
