SPECIFICATION Spec
CONSTANTS N = 5
INVARIANTS Sound Contiguous Dump
CHECK_DEADLOCK FALSE
