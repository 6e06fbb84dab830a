SPECIFICATION Spec
CONSTANTS N = 2
INVARIANTS OnlySmallOnes UpIsSuper BaseBox Dump
CHECK_DEADLOCK FALSE
