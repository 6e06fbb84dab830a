------------------------------ MODULE MCLines -------------------------------
(* Text lines of a segment under every sequence of at most N words over an alphabet of steps around the thresholds. Each
   action feeds one word, relative to the previous one: near base lines, overlaps around 40 and 80 percent, gaps around
   three average glyph widths, rotations and writing modes, parts of stacked symbols. *)
EXTENDS Lines, Json

CONSTANTS N, Kinds
AcwK == 800000               \* 5 pt
K(dx, dy, h, r, wm, st) == [ dx |-> dx, dy |-> dy, h |-> h, r |-> r, wm |-> wm, st |-> st ]
All == << K(400, 0, 1000, 0, 0, 0), K(400, 600, 1000, 0, 0, 0), K(400, 610, 1000, 0, 0, 0), K(2410, 600, 1000, 0, 0, 0),
          K(2390, 600, 1000, 0, 0, 0), K(2400, 200, 1000, 0, 0, 0), K(2410, 210, 1000, 0, 0, 0), K(400, -600, 1000, 0, 0, 0),
          K(400, 1200, 1000, 0, 0, 0), K(-1500, 1200, 1000, 0, 0, 0), K(-5000, 300, 400, 0, 0, 0), K(400, -300, 400, 0, 1, 0),
          K(400, 0, 1000, 1, 0, 0), K(400, 0, 1000, 2, 0, 0), K(-3000, 0, 1000, 2, 0, 0), K(400, 1200, 1000, 3, 0, 0),
          K(200, 1100, 600, 0, 0, 1), K(0, 0, 1000, 0, 0, 0) >>
Quick == 1..Len(All)
Few == { 1, 2, 4, 7, 9, 11, 14, 17 }

VARIABLES ws
vars == <<ws>>
Init == ws = <<>>
MkWord(k) ==
  LET p == IF ws = <<>> THEN << 32000, 32000, 32000, 33000 >> ELSE ws[Len(ws)].b
      x == p[3] + All[k].dx
      y == p[2] + All[k].dy
  IN [ b |-> << x, y, x + 1000, y + All[k].h >>, r |-> All[k].r, wm |-> All[k].wm, pg |-> 1,
       pst |-> IF All[k].st = 1 THEN Len(ws) ELSE 0, bst |-> <<>> ]
Feed(k) ==
  /\ Len(ws) < N
  /\ (All[k].st = 1 => ws # <<>>)
  /\ LET w == MkWord(k)
     IN ws' = Append(IF w.pst = 0 THEN ws ELSE [ ws EXCEPT ![w.pst].bst = <<Len(ws) + 1>> ], w)
Next == \E k \in Kinds : Feed(k)
Spec == Init /\ [][Next]_vars

Own == [ i \in 1..Len(ws) |-> i ]
Cl == Clusters(ws, Own)
Partition ==
               LET sets == [ r \in Rotations(Cl) |-> LinesOfRot(ws, AcwK, Cl, r) ]
                   all == UNION { sets[r] : r \in Rotations(Cl) }
               IN /\ \A r \in Rotations(Cl) : \A ls \in sets[r] :
                       /\ NothingToMerge(AcwK, ls)
                       /\ LinesSorted(ws, ls)
                       /\ \A i \in 1..Len(ls) : ls[i].b = UnionSeq([ j \in 1..Len(ls[i].ws) |-> ws[ls[i].ws[j]].b ])
                  /\ (\A r \in Rotations(Cl) : Cardinality(sets[r]) = 1) =>
                       LinesPartition(ws, Own, Flat(SetToSeq(all)))
Dump == Len(ws) = N => PrintT("HIST " \o ToJson(ws))
=============================================================================
