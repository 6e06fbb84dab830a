SPECIFICATION Spec
CONSTANTS N = 4
INVARIANTS Partition Homogeneous ActiveBox SameScan Dump
CHECK_DEADLOCK FALSE
