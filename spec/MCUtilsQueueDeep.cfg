SPECIFICATION Spec
CONSTANTS
  N = 6
  Part = "queue"
  Keys = {1,2,3}
INVARIANTS CounterInv QueueInv Dump
CHECK_DEADLOCK FALSE
