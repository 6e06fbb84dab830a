SPECIFICATION Spec
CONSTANTS N = 3
INVARIANT Sound Dump
PROPERTY Adds
CHECK_DEADLOCK FALSE
