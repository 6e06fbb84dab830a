SPECIFICATION Spec
CONSTANTS L = 4
Tokens = {"a", "ab", "ba", "aa", "ab✂", "b✂", "aba"}
INVARIANTS Spelled Finished Dump
PROPERTIES Shrinks
CHECK_DEADLOCK FALSE
