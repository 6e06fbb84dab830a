SPECIFICATION Spec
CONSTANTS N = 2
INVARIANT OrderFree Sound Dump
CHECK_DEADLOCK FALSE
