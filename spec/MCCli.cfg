SPECIFICATION Spec
CONSTANTS N = 1
INVARIANT OrderFree Sound Dump
CHECK_DEADLOCK FALSE
