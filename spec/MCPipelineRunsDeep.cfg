SPECIFICATION Spec
CONSTANTS
  N = 3
  Mode = "runs"
  Files = {"A", "B", "bad", "none"}
INVARIANTS InOrder Obeys AsPlanned Deterministic Dump
CHECK_DEADLOCK FALSE
