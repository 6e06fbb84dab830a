SPECIFICATION Spec
CONSTANTS
  N = 5
  Kmax = 36
INVARIANTS Partition Separates Complete Finished OrderFinished Dump
CHECK_DEADLOCK FALSE
