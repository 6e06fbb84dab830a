SPECIFICATION Spec
CONSTANTS N = 3
INVARIANTS Partition Homogeneous ActiveBox SameScan Dump
CHECK_DEADLOCK FALSE
