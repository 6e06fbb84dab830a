SPECIFICATION Spec
CONSTANTS L = 6
Tokens = {"a", "ab", "ba", "aa", "ab✂", "b✂", "aba", "b", "bb"}
INVARIANTS Spelled Finished Dump
PROPERTIES Shrinks
CHECK_DEADLOCK FALSE
