SPECIFICATION Spec
CONSTANTS N = 5
INVARIANTS CountsExact BestIsMode Sums Dump
CHECK_DEADLOCK FALSE
