SPECIFICATION Spec
CONSTANTS
  N = 3
  Kinds <- Quick
INVARIANTS Partition Dump
CHECK_DEADLOCK FALSE
