SPECIFICATION Spec
CONSTANTS
  Grid = {0, 10, 20, 30, 50}
INVARIANTS Symmetric Shares GapOrOverlap Inclusion Reading Dump
CHECK_DEADLOCK FALSE
