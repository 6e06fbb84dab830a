SPECIFICATION Spec
CONSTANTS
  Grid = {0, 10, 30, 40}
INVARIANTS Symmetric Shares GapOrOverlap Inclusion Reading Dump
CHECK_DEADLOCK FALSE
