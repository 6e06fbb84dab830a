---------------------------- MODULE MCHierarchy -----------------------------
(* The stack of parent and sibling lines under every sequence of at most N lines over steps around the thresholds. *)
EXTENDS Lines, Json

CONSTANTS N, Kinds
AcwK == 800000               \* 5 pt
K(dx, dy, r, wm) == [ dx |-> dx, dy |-> dy, r |-> r, wm |-> wm ]
All == << K(0, 1200, 0, 0), K(800, 1200, 0, 0), K(810, 1200, 0, 0), K(-800, 1200, 0, 0), K(-810, 1200, 0, 0), K(1600, 1200, 0, 0),
          K(-2400, 1200, 0, 0), K(0, 2610, 0, 0), K(0, 2620, 0, 0), K(5000, -9000, 0, 0), K(810, 1200, 1, 0),
          K(0, 1200, 0, 1), K(810, 4000, 2, 0) >>
Quick == 1..Len(All)
Few == { 1, 3, 4, 5, 6, 7, 9, 10 }

VARIABLES ls, h
vars == <<ls, h>>
Init == ls = <<>> /\ h = HInit(0)
Grow(x) == [ x EXCEPT !.par = Append(@, 0), !.psl = Append(@, 0), !.nsl = Append(@, 0) ]
Feed(k) ==
  /\ Len(ls) < N
  /\ LET p == IF ls = <<>> THEN << 32000, 32000, 36000, 33000 >> ELSE ls[Len(ls)].b
         x == p[1] + All[k].dx
         y == p[2] + All[k].dy
     IN /\ ls' = Append(ls, [ b |-> << x, y, x + 4000, y + 1000 >>, r |-> All[k].r, wm |-> All[k].wm ])
        /\ h' = HStep(ls', AcwK, Grow(h), Len(ls'))
Next == \E k \in Kinds : Feed(k)
Spec == Init /\ [][Next]_vars

Sound == HierarchySound(ls, AcwK, h)
\* Walking up the parents ends, and siblings of a line have its parent.
Acyclic == \A i \in 1..Len(ls) : h.par[i] < i
StackSound ==
  /\ \A j \in 1..(Len(h.st) - 1) : h.st[j] < h.st[j + 1]
  /\ \A j \in 2..Len(h.st) : h.par[h.st[j]] # 0
  /\ Len(h.st) > 0 => h.par[h.st[1]] = 0
SameScan == h = HScan(ls, AcwK)
Dump == Len(ls) = N => PrintT("HIST " \o ToJson(ls))
=============================================================================
