SPECIFICATION Spec
CONSTANTS
  N = 3
  Part = "logger"
  Keys = {1}
INVARIANTS CounterInv QueueInv Dump
CHECK_DEADLOCK FALSE
