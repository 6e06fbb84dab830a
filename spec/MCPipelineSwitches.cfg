SPECIFICATION Spec
CONSTANTS
  N = 1
  Mode = "switches"
  Files = {"A", "bad"}
INVARIANTS InOrder Obeys AsPlanned Deterministic Dump
CHECK_DEADLOCK FALSE
