SPECIFICATION Spec
CONSTANTS
  N = 4
  Kmax = 36
INVARIANTS Partition Separates Complete Finished OrderFinished Dump
CHECK_DEADLOCK FALSE
