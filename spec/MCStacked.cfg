SPECIFICATION Spec
CONSTANTS N = 4
INVARIANTS Sound Contiguous Dump
CHECK_DEADLOCK FALSE
