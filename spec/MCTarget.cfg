SPECIFICATION Spec
CONSTANTS N = 2
INVARIANT Sound Dump
PROPERTY OnlyTarget
CHECK_DEADLOCK FALSE
