----------------------------- MODULE MCStacked ------------------------------
(* Stacked math symbols under every sequence of at most N words over an alphabet of bases, limits and neighbours. *)
EXTENDS Words, Json, IOUtils

CONSTANTS N
Kinds == <<
  [base |-> TRUE,  x |-> 0,    w |-> 1600, s |-> 1600],
  [base |-> TRUE,  x |-> 800,  w |-> 1600, s |-> 1430],   \* smaller by more than 1 pt than a base of 10 pt
  [base |-> TRUE,  x |-> 0,    w |-> 1600, s |-> 1440],   \* smaller by exactly 1 pt
  [base |-> FALSE, x |-> 0,    w |-> 800,  s |-> 1120],
  [base |-> FALSE, x |-> 1200, w |-> 800,  s |-> 1120],   \* half over
  [base |-> FALSE, x |-> 1210, w |-> 800,  s |-> 1120],   \* a bit less
  [base |-> FALSE, x |-> 200,  w |-> 800,  s |-> 1440],
  [base |-> FALSE, x |-> 200,  w |-> 800,  s |-> 1600],
  [base |-> FALSE, x |-> 4000, w |-> 800,  s |-> 1120],
  [base |-> FALSE, x |-> -800, w |-> 8000, s |-> 1120] >>

VARIABLES ks
vars == <<ks>>
Init == ks = <<>>
Feed(k) == Len(ks) < N /\ ks' = Append(ks, k)
Next == \E k \in 1..Len(Kinds) : Feed(k)
Spec == Init /\ [][Next]_vars

Ys(i) == 32000 + 4000 * i
Chars == [ i \in 1..Len(ks) |-> [ b |-> <<32000 + Kinds[ks[i]].x, Ys(i), 32000 + Kinds[ks[i]].x + Kinds[ks[i]].w, Ys(i) + 1000>>,
                                  t |-> IF Kinds[ks[i]].base THEN "∑" ELSE "n", n |-> "", s |-> Kinds[ks[i]].s,
                                  r |-> 0, wm |-> 0, md |-> 0 ] ]
WordsOf == [ i \in 1..Len(ks) |-> [ b |-> Chars[i].b, s |-> Chars[i].s, t |-> Chars[i].t, c |-> <<i>>, r |-> 0, wm |-> 0 ] ]
S == MScan(Chars, WordsOf)
Sound == StackSound(WordsOf, S)
\* The parts of a base are the words of an interval around it, interrupted only by ... nothing.
Contiguous == \A i \in 1..Len(ks) : \A j \in Ran(S.bst[i]) :
                \A k \in 1..Len(ks) : (k > Min2(i, j) /\ k < Max2(i, j)) => k \in Ran(S.bst[i])
Dump == Len(ks) = N => PrintT("HIST " \o ToJson(Chars))
=============================================================================
