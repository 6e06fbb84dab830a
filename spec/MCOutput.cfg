SPECIFICATION Spec
CONSTANTS N = 4
Texts = {"a-", "b", "-"}
INVARIANTS SameScan Complete Split Chains Dump
CHECK_DEADLOCK FALSE
