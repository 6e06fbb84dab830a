SPECIFICATION Spec
CONSTANTS
  N = 4
  Shows = {"a", "^", "-", "f", "s", "n", "c"}
INVARIANTS Conserved Dump
CHECK_DEADLOCK FALSE
