SPECIFICATION Spec
CONSTANTS N = 3
INVARIANTS OnlySmallOnes UpIsSuper BaseBox Dump
CHECK_DEADLOCK FALSE
