SPECIFICATION Spec
CONSTANTS N = 5
Texts = {"a-", "b", "-", "c--"}
INVARIANTS SameScan Complete Split Chains Dump
CHECK_DEADLOCK FALSE
