SPECIFICATION Spec
CONSTANTS
  N = 4
  Kinds <- Quick
INVARIANTS Sound Acyclic StackSound SameScan Dump
CHECK_DEADLOCK FALSE
