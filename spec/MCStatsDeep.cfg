SPECIFICATION Spec
CONSTANTS N = 6
INVARIANTS CountsExact BestIsMode Sums Dump
CHECK_DEADLOCK FALSE
