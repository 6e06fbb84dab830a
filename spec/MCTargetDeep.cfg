SPECIFICATION Spec
CONSTANTS N = 3
INVARIANT Sound Dump
PROPERTY OnlyTarget
CHECK_DEADLOCK FALSE
