---------------------------- MODULE MCDiacritics ----------------------------
(* The merging of diacritical marks under every sequence of at most N glyphs: bases, marks (spacing, combining and
   ordinary characters with a combining equivalent) and near misses at all relative positions. The scanner looks one
   glyph ahead, so a glyph is processed when its successor is known. *)
EXTENDS Diacritics, Json, IOUtils

CONSTANTS N
Map0 == << <<94, 770>>, <<168, 776>>, <<180, 769>> >>

Kinds == <<
  [u |-> <<97>>,       w |-> 800, dx |-> 0],        \* a base
  [u |-> <<102, 105>>, w |-> 800, dx |-> 0],        \* a ligature
  [u |-> <<101>>,      w |-> 800, dx |-> -400],     \* a base overlapping its predecessor
  [u |-> <<168>>,      w |-> 400, dx |-> -800],     \* a mark over the predecessor
  [u |-> <<168>>,      w |-> 400, dx |-> -200],     \* between two bases: equal overlap
  [u |-> <<180>>,      w |-> 400, dx |-> -210],
  [u |-> <<94>>,       w |-> 400, dx |-> -190],
  [u |-> <<769>>,      w |-> 400, dx |-> 0],        \* over the successor only if that one steps back
  [u |-> <<776>>,      w |-> 400, dx |-> -600],     \* a combining mark
  [u |-> <<880>>,      w |-> 400, dx |-> -600],     \* just outside the ranges
  [u |-> <<711>>,      w |-> 400, dx |-> 4000],     \* a mark away from everything
  [u |-> <<97>>,       w |-> 800, dx |-> -1200],
  [u |-> <<768, 769>>, w |-> 400, dx |-> -600],     \* two code points: no mark
  [u |-> <<>>,         w |-> 800, dx |-> 0] >>

VARIABLES chars
vars == <<chars>>
Init == chars = <<>>
Feed(k) ==
  /\ Len(chars) < N
  /\ LET x == (IF chars = <<>> THEN 32000 ELSE chars[Len(chars)].b[3]) + Kinds[k].dx
     IN chars' = Append(chars, [ b |-> <<x, 32000, x + Kinds[k].w, 33000>>, u |-> Kinds[k].u ])
Next == \E k \in 1..Len(Kinds) : Feed(k)
Spec == Init /\ [][Next]_vars

S == DScan(chars)
InvNoChain == NoChain(chars, S)
InvConserved == MarksConserved(chars, S) /\ OnlyMarksMerged(chars, S)
InvBox == BoxGrows(chars, S)
\* Feeding a further glyph never changes what was decided before the last glyph.
Causal == Len(chars) > 1 =>
  LET t == DScan(SubSeq(chars, 1, Len(chars) - 1))
  IN \A i \in 1..(Len(chars) - 2) : S.md[i] = t.md[i]
Dump == Len(chars) = N => PrintT("HIST " \o ToJson(chars))
=============================================================================
