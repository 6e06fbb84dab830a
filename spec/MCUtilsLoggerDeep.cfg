SPECIFICATION Spec
CONSTANTS
  N = 4
  Part = "logger"
  Keys = {1}
INVARIANTS CounterInv QueueInv Dump
CHECK_DEADLOCK FALSE
