SPECIFICATION Spec
CONSTANTS
  N = 3
  CombiningMap <- Map0
INVARIANTS InvNoChain InvConserved InvBox Causal Dump
CHECK_DEADLOCK FALSE
