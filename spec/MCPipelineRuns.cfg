SPECIFICATION Spec
CONSTANTS
  N = 2
  Mode = "runs"
  Files = {"A", "B", "bad", "none"}
INVARIANTS InOrder Obeys AsPlanned Deterministic Dump
CHECK_DEADLOCK FALSE
