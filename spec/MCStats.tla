------------------------------ MODULE MCStats -------------------------------
(* The document statistics as running counters: each action counts one glyph (on the same or a new page). The running
   state always is a most frequent value and the exact sums of what was counted. *)
EXTENDS Statistics, Json

CONSTANTS N
Kinds == << [ s |-> 1600, f |-> "F1", w |-> 800, h |-> 1000, np |-> 0 ], [ s |-> 1600, f |-> "F2", w |-> 810, h |-> 1000, np |-> 0 ],
            [ s |-> 1440, f |-> "F1", w |-> 300, h |-> 700, np |-> 0 ], [ s |-> 3200, f |-> "F3-Bold", w |-> 0, h |-> 10, np |-> 1 ],
            [ s |-> 1440, f |-> "F2", w |-> 7000, h |-> 3330, np |-> 1 ] >>

VARIABLES seen, cs, cf, sw, sh
vars == <<seen, cs, cf, sw, sh>>
Init == seen = <<>> /\ cs = <<>> /\ cf = <<>> /\ sw = 0 /\ sh = 0
\* A counter is a sequence of <<value, count>> in the order of the first occurrence.
Inc(c, v) == LET is == { i \in 1..Len(c) : c[i][1] = v }
             IN IF is = {} THEN Append(c, <<v, 1>>) ELSE [ c EXCEPT ![CHOOSE i \in is : TRUE][2] = @ + 1 ]
Best(c) == c[CHOOSE i \in 1..Len(c) : \A j \in 1..Len(c) : c[j][2] <= c[i][2]][1]
Feed(k) ==
  /\ Len(seen) < N
  /\ seen' = Append(seen, k)
  /\ cs' = Inc(cs, Kinds[k].s) /\ cf' = Inc(cf, Kinds[k].f)
  /\ sw' = sw + Kinds[k].w /\ sh' = sh + Kinds[k].h
Next == \E k \in 1..Len(Kinds) : Feed(k)
Spec == Init /\ [][Next]_vars

Sizes == [ i \in 1..Len(seen) |-> Kinds[seen[i]].s ]
Fonts == [ i \in 1..Len(seen) |-> Kinds[seen[i]].f ]
CountsExact == /\ \A i \in 1..Len(cs) : cs[i][2] = Count(Sizes, cs[i][1])
               /\ \A i \in 1..Len(cf) : cf[i][2] = Count(Fonts, cf[i][1])
               /\ SumSeq([ i \in 1..Len(cs) |-> cs[i][2] ]) = Len(seen)
BestIsMode == seen # <<>> => IsMode(Best(cs), Sizes) /\ IsMode(Best(cf), Fonts)
Sums == sw = SumSeq([ i \in 1..Len(seen) |-> Kinds[seen[i]].w ]) /\ sh = SumSeq([ i \in 1..Len(seen) |-> Kinds[seen[i]].h ])
Dump == Len(seen) = N => PrintT("HIST " \o ToJson([ i \in 1..Len(seen) |-> Kinds[seen[i]] ]))
=============================================================================
