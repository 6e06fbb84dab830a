SPECIFICATION Spec
CONSTANTS
  N = 5
  Kinds <- Quick
INVARIANTS Sound Acyclic StackSound SameScan Dump
CHECK_DEADLOCK FALSE
