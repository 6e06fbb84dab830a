SPECIFICATION Spec
CONSTANT N = 3
INVARIANT Inv
INVARIANT Shift
INVARIANT Dump
INVARIANT DumpSubrs
PROPERTY Grows
PROPERTY Quiet
CHECK_DEADLOCK FALSE
