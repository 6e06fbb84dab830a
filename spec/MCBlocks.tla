------------------------------ MODULE MCBlocks ------------------------------
(* Text blocks of a segment under every sequence of at most N lines over an alphabet of lines: indentation, right margin,
   distance to the line before, font size, and beginning (plain, uppercase, item label, footnote). The two passes are
   run on what was fed so far. *)
EXTENDS Blocks

CONSTANTS N, Kinds
LI == INSTANCE Lines
Acw == 800
St == [ acwK |-> 800000, mfs |-> 1600, mfn |-> "F1", mld |-> 320, mldfs |-> <<>>, mwh |-> 1120 ]
F1 == [ k \in { "F1", "F2", "F3-Bold" } |-> [ weight |-> IF k = "F3-Bold" THEN 700 ELSE 400, italic |-> FALSE ] ]
Col == 16000       \* the left edge of the column
Wid == 32000       \* and its width

\* dx: indent, rt: missing width at the right, dy: distance to the line before, s: font size, f: font, t: first word
K(dx, rt, dy, t) == [ dx |-> dx, rt |-> rt, dy |-> dy, s |-> 1600, f |-> "F1", t |-> t ]
All == << K(0, 0, 320, "alpha"), K(0, 0, 320, "Beta"), K(0, 8000, 320, "alpha"), K(800, 0, 320, "Beta"), K(790, 0, 320, "alpha"),
          K(2400, 0, 320, "alpha"), K(2400, 0, 320, "Beta"), K(5600, 0, 320, "alpha"), K(5600, 5600, 320, "Beta"),
          K(0, 0, 320, "(1)"), K(0, 0, 320, "2."), K(0, 0, 320, "^1"), K(0, 0, 510, "alpha"), K(0, 0, 460, "alpha"),
          K(0, 0, -100, "Beta"), K(0, 4300, 320, "alpha."),
          [ K(0, 0, 320, "BOLD") EXCEPT !.f = "F3-Bold" ], [ K(800, 0, 320, "BOLD") EXCEPT !.f = "F3-Bold", !.s = 1920 ],
          K(3000, 3000, 320, "Beta"), K(0, 0, 320, "x^1") >>
Quick == 1..Len(All)

Facts(t) ==
  LET no == [ item |-> FALSE, lab |-> <<>>, pre |-> "", delim |-> FALSE, upper |-> FALSE, lower |-> FALSE, long |-> TRUE,
              formula |-> FALSE, alpha |-> TRUE, low |-> TRUE, name |-> FALSE ]
  IN CASE t = "alpha" -> [ no EXCEPT !.lower = TRUE ]
       [] t = "alpha." -> [ no EXCEPT !.lower = TRUE, !.delim = TRUE ]
       [] t = "Beta" -> [ no EXCEPT !.upper = TRUE ]
       [] t = "BOLD" -> [ no EXCEPT !.upper = TRUE, !.low = FALSE ]
       [] t \in { "(1)", "2." } -> [ no EXCEPT !.item = TRUE ]
       [] t = "^1" -> [ no EXCEPT !.item = TRUE, !.pre = "1" ]
       [] t = "x^1" -> [ no EXCEPT !.lower = TRUE, !.lab = <<"1">> ]

\* The values that are derived from the fed lines are kept in variables, so that TLC evaluates them once per state.
VARIABLES ks, raw, ctx, pres, fin
vars == << ks, raw, ctx, pres, fin >>

\* The lines that were fed: line i has the words 2i-1 and 2i.
Height1(k) == IF All[k].s = 1600 THEN 1120 ELSE 1340
RawLine(n, prev, x) ==
  LET k == All[x]
      top == IF prev = <<>> THEN 40000 ELSE LY(prev[Len(prev)]) + k.dy
  IN [ b |-> << Col + k.dx, top, Col + Wid - k.rt, top + Height1(x) >>, r |-> 0, wm |-> 0, s |-> k.s, ms |-> k.s, f |-> k.f,
       sg |-> 1, w |-> << 2 * n - 1, 2 * n >>, pg |-> 1, pl |-> n - 1 ]
WordAt(l, j) == [ b |-> IF j % 2 = 1 THEN << l.b[1], l.b[2], l.b[1] + 2400, l.b[4] >> ELSE << l.b[1] + 2800, l.b[2], l.b[3], l.b[4] >>,
                  f |-> l.f, s |-> l.s ]
MkCtx(q, rs) ==
  LET h == LI!HScan(rs, St.acwK)
      b == UnionSeq([ i \in 1..Len(rs) |-> rs[i].b ])
  IN [ acwK |-> St.acwK, X |-> [ i \in 1..Len(q) |-> Facts(All[q[i]].t) ],
       Ls |-> [ i \in 1..Len(q) |-> rs[i] @@ [ par |-> h.par[i], psl |-> h.psl[i], nsl |-> h.nsl[i] ] ],
       Ws |-> [ j \in 1..(2 * Len(q)) |-> WordAt(rs[(j + 1) \div 2], j) ],
       segs |-> << [ b |-> b, tb |-> << b[1], b[2], CHOOSE x \in LI!TrimRights([ b |-> b ], rs) : TRUE, b[4] >> ] >> ]

Dec(rs, i) == Prelim(St, <<>>, rs[i], IF i = 1 THEN NoLine ELSE rs[i - 1], IF i <= 2 THEN NoLine ELSE rs[i - 2])
AddPre(gs, d, i) == IF gs = <<>> \/ d # "cont" THEN Append(gs, <<i>>) ELSE [ gs EXCEPT ![Len(gs)] = Append(@, i) ]
Machine(c, gs) ==
  LET prevIn == [ i \in 1..Len(c.Ls) |-> IF \E g \in Ran(gs) : g[1] = i THEN 0 ELSE i - 1 ]
  IN FoldLeft(LAMBDA s, B : BBlock(c, F1, St, prevIn, s, B), BInit, MkBlocks(c, gs))

Init == ks = <<>> /\ raw = <<>> /\ ctx = <<>> /\ pres = <<>> /\ fin = BInit
Feed(k) ==
  /\ Len(ks) < N
  /\ ks' = Append(ks, k)
  /\ raw' = Append(raw, RawLine(Len(ks'), raw, k))
  /\ pres' = AddPre(pres, Dec(raw', Len(ks')), Len(ks'))
  /\ ctx' = MkCtx(ks', raw')
  /\ fin' = Machine(ctx', pres')
Next == \E k \in Kinds : Feed(k)
Spec == Init /\ [][Next]_vars

Partition == ks # <<>> =>
  LET bs == MkBlocks(ctx, fin.done)
  IN /\ BlocksPartition(fin.done, pres)
     /\ Len(fin.rules) = Len(ks)
     /\ \A g \in 1..Len(bs) :
          \* margins, centering and hanging indents are consistent with the box
          /\ \A i \in 1..Len(bs[g].l) : bs[g].lm[i] >= 0
          /\ bs[g].hi \in { 0 } \cup Ran(bs[g].lm)
          /\ (bs[g].hi # 0 => GeW(St.acwK, bs[g].hi, 1))
          /\ (Len(bs[g].l) = 1 => ~bs[g].cen /\ bs[g].hi = 0)
          /\ bs[g].cen => \A i \in 2..Len(bs[g].l) : CenteredPair(St.acwK, ctx.Ls[bs[g].l[i - 1]], ctx.Ls[bs[g].l[i]])
     \* a line that starts a block by no rule is never the start of a block, and vice versa
     /\ LET firsts == { fin.done[g][1] : g \in 1..Len(fin.done) }
        IN \A i \in 1..Len(ks) : (i \in firsts) = Starts(fin.rules[i])
Dump == Len(ks) = N => PrintT("HIST " \o ToJson([ i \in 1..N |-> [ b |-> raw[i].b, k |-> All[ks[i]] ] ]))
=============================================================================
