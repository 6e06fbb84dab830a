SPECIFICATION Spec
CONSTANTS
  N = 4
  Kinds <- Quick
INVARIANTS Partition Dump
CHECK_DEADLOCK FALSE
