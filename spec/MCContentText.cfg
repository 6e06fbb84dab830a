SPECIFICATION Spec
CONSTANTS
  N = 4
  Alphabet = "text"
  Box <- MBox
  Rot = 0
  CharMap <- Map0
INVARIANTS ClipsNest StackMatches Visible Partition Turned Boxes Dump
PROPERTIES Ordered
CHECK_DEADLOCK FALSE
