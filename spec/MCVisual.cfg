SPECIFICATION Spec
CONSTANTS N = 2
INVARIANT Sound Dump
PROPERTY Adds
CHECK_DEADLOCK FALSE
