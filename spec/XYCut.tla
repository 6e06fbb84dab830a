------------------------------- MODULE XYCut --------------------------------
(* The recursive XY-cut, and its two users: the segmentation of pages and the reading order of text blocks.

   An element is a record [ e = <<kind, id>>, b, r, wm, rk, role ]. A cut has a position in the sorted elements (the number
   of elements before it), the element before it (with the largest right resp. lower edge), the element after it and the
   elements it runs through. Which candidates are chosen is up to a mode; ctx holds what the modes need to know. *)
EXTENDS Base

SortX(els) == SortSeq(els, LAMBDA a, c : LX(a) < LX(c))
SortY(els) == SortSeq(els, LAMBDA a, c : UY(a) < UY(c))

-----------------------------------------------------------------------------
(* Candidates *)
\* The at most k elements with the largest right edges, from right to left.
Insert(q, e, k) ==
  LET n == Cardinality({ i \in 1..Len(q) : RX(q[i]) >= RX(e) })
      all == SubSeq(q, 1, n) \o <<e>> \o SubSeq(q, n + 1, Len(q))
  IN SubSeq(all, 1, Min2(k, Len(all)))

XStep(S, box, minGap, maxOv, s, pos) ==
  LET el == S[pos + 1]
      js == { j \in 1..Len(s.q) : HGap(s.q[j], el) >= minGap }
      j == CHOOSE x \in js : \A y \in js : x <= y
      gap == HGap(s.q[j], el)
      x == RX(s.q[j]) + gap \div 2
  IN [ q |-> Insert(s.q, el, maxOv + 1),
       cands |-> IF js = {} THEN s.cands
                 ELSE Append(s.cands, [ dir |-> "x", pos |-> pos, eb |-> s.q[j], ea |-> el, b |-> << x, box[2], x, box[4] >>,
                                        gw |-> gap, gh |-> box[4] - box[2], ov |-> SubSeq(s.q, 1, j - 1) ]) ]
XCands(S, minGap, maxOv) ==
  LET box == UnionSeq([ i \in 1..Len(S) |-> S[i].b ])
  IN FoldLeft(LAMBDA s, pos : XStep(S, box, minGap, maxOv, s, pos), [ q |-> <<S[1]>>, cands |-> <<>> ],
              [ i \in 1..(Len(S) - 1) |-> i ]).cands

YStep(S, box, minGap, s, pos) ==
  LET el == S[pos + 1]
      gap == VGap(s.low, el)
      y == LY(s.low) + gap \div 2
  IN [ low |-> IF LY(el) > LY(s.low) THEN el ELSE s.low,
       cands |-> IF gap < minGap THEN s.cands
                 ELSE Append(s.cands, [ dir |-> "y", pos |-> pos, eb |-> s.low, ea |-> el, b |-> << box[1], y, box[3], y >>,
                                        gw |-> box[3] - box[1], gh |-> gap, ov |-> <<>> ]) ]
YCands(S, minGap) ==
  LET box == UnionSeq([ i \in 1..Len(S) |-> S[i].b ])
  IN FoldLeft(LAMBDA s, pos : YStep(S, box, minGap, s, pos), [ low |-> S[1], cands |-> <<>> ],
              [ i \in 1..(Len(S) - 1) |-> i ]).cands

\* The groups into which the sorted elements are divided by cuts at the given positions.
Split(S, ps) ==
  LET q == <<0>> \o ps \o <<Len(S)>>
  IN Force([ i \in 1..(Len(q) - 1) |-> SubSeq(S, q[i] + 1, q[i + 1]) ])

-----------------------------------------------------------------------------
(* Choosing x-cuts. The result is the sequence of the names of the rules; a cut is chosen iff its rule starts with "+". *)
IsWord(el) == el.e[1] = "w"
IsBlock(el) == el.e[1] = "b"
IsNonText(el) == el.e[1] \in { "f", "s" }
Picked(rule) == SubSeq(rule, 1, 1) = "+"

\* Page segmentation: a candidate is dismissed by the first rule that applies.
PageXRule(ctx, S, prevChosen, c) ==
  LET left == IF prevChosen = <<>> THEN S[1] ELSE prevChosen[1].ea
      margin(v) == v * 1000 < 5 * ctx.achK
      slim(v) == v * 1000 < 10 * ctx.acwK
  IN IF c.ov # <<>> /\ Len(S) < ctx.ovn THEN "overlap: few elements"
     ELSE IF \E o \in Ran(c.ov) : margin(UY(o) - c.b[2]) THEN "overlap: at the top"
     ELSE IF \E o \in Ran(c.ov) : margin(c.b[4] - LY(o)) THEN "overlap: at the bottom"
     ELSE IF c.gw * 1000 < 2 * ctx.acwK /\ c.gh * 1000 < 6 * ctx.achK THEN "small gap"
     ELSE IF /\ IsWord(c.eb)
             /\ \E i \in (c.pos + 1)..Len(S) : IsWord(S[i]) /\ S[i].rk = c.eb.rk + 1 /\ RatioGe(MaxYOverlap(c.eb, S[i]), 1000)
          THEN "contiguous words"
     ELSE IF slim(RX(c.eb) - LX(left)) THEN "slim left group"
     ELSE IF slim(RX(S[Len(S)]) - LX(c.ea)) THEN "slim right group"
     ELSE IF c.ov # <<>> THEN "+x, overlapping" ELSE "+x"

\* Reading order: cuts next to rotated text or next to a long vertical line through the middle of the page.
PrimXRule(ctx, c) ==
  LET turned(el) == IsBlock(el) /\ (el.wm # 0 \/ el.r # 0)
      line(el) == /\ IsNonText(el) /\ Height(el) * 1000 > 10 * ctx.achK
                  /\ 2 * UY(el) < ctx.box[2] + ctx.box[4] /\ 2 * LY(el) > ctx.box[2] + ctx.box[4]
  IN IF turned(c.eb) \/ turned(c.ea) THEN "+rotated" ELSE IF line(c.eb) \/ line(c.ea) THEN "+line" ELSE "no primary x-cut"

RuleX(ctx, mode, S, cands) ==
  CASE mode = "page" ->
         FoldLeft(LAMBDA s, c : LET r == PageXRule(ctx, S, s.prev, c)
                                IN [ prev |-> IF Picked(r) THEN <<c>> ELSE s.prev, rules |-> Append(s.rules, r) ],
                  [ prev |-> <<>>, rules |-> <<>> ], cands).rules
    [] mode = "primary" -> [ i \in 1..Len(cands) |-> PrimXRule(ctx, cands[i]) ]
    [] mode \in { "all", "order" } -> [ i \in 1..Len(cands) |-> "+all" ]
    [] mode = "odd" -> [ i \in 1..Len(cands) |-> IF i % 2 = 1 THEN "+odd" ELSE "even" ]
    [] OTHER -> [ i \in 1..Len(cands) |-> "none" ]

\* The result of an x-cut resp. y-cut: the candidates with ch, the groups, and whether there is a chosen cut.
Result(S, cands, rules) ==
  LET chosen == SelectSeq([ i \in 1..Len(cands) |-> i ], LAMBDA i : Picked(rules[i]))
  IN [ ok |-> chosen # <<>>, groups |-> Split(S, [ k \in 1..Len(chosen) |-> cands[chosen[k]].pos ]),
       cuts |-> Force([ i \in 1..Len(cands) |-> cands[i] @@ [ ch |-> Picked(rules[i]), rule |-> rules[i] ] ]) ]
XCut(ctx, mode, els, minGap, maxOv) ==
  IF els = <<>> THEN [ ok |-> FALSE, groups |-> <<>>, cuts |-> <<>> ]
  ELSE LET S == SortX(els)  c == XCands(S, minGap, maxOv)  r == Force(RuleX(ctx, mode, S, c)) IN Result(S, c, r)
XOk(ctx, mode, els, minGap, maxOv) ==
  IF els = <<>> THEN FALSE
  ELSE LET S == SortX(els)  c == XCands(S, minGap, maxOv)  r == RuleX(ctx, mode, S, c)
       IN \E i \in 1..Len(r) : Picked(r[i])

-----------------------------------------------------------------------------
(* Choosing y-cuts. *)
Part(S, a, z) == SubSeq(S, a + 1, z)

\* Page segmentation: pairs of cuts (the top and the bottom of the elements included) between which the elements can be
\* divided by x-cuts; the partner of a cut is the last one that can be reached without a gap.
RECURSIVE Reach(_, _, _, _, _, _)
Reach(ctx, S, ps, i, j, best) ==
  IF j > Len(ps) \/ ~XOk(ctx, "page", Part(S, ps[i], ps[j]), ctx.minX, ctx.maxOv) THEN best
  ELSE Reach(ctx, S, ps, i, j + 1, j)
RECURSIVE PagePairs(_, _, _, _, _)
PagePairs(ctx, S, ps, i, acc) ==
  IF i > Len(ps) THEN acc
  ELSE LET j == Reach(ctx, S, ps, i, i + 1, 0)
       IN IF j = 0 THEN PagePairs(ctx, S, ps, i + 1, acc) ELSE PagePairs(ctx, S, ps, j + 1, acc \cup { i, j })
PageYRules(ctx, S, cands) ==
  IF cands = <<>> THEN <<>>
  ELSE LET ps == <<0>> \o [ i \in 1..Len(cands) |-> cands[i].pos ] \o <<Len(S)>>
           chosen == PagePairs(ctx, S, ps, 1, {})
       IN [ i \in 1..Len(cands) |-> IF (i + 1) \in chosen THEN "+y" ELSE "no columns between y-cuts" ]

\* Reading order, primary y-cuts: next to title, authors and marginals, or next to a long horizontal line through the
\* middle of the page.
PrimYRule(ctx, c) ==
  LET is(el, role) == IsBlock(el) /\ el.role = role
      line(el) == /\ IsNonText(el) /\ Width(el) * 1000 > 10 * ctx.acwK
                  /\ 2 * LX(el) < ctx.box[1] + ctx.box[3] /\ 2 * RX(el) > ctx.box[1] + ctx.box[3]
  IN IF is(c.eb, 6) # is(c.ea, 6) THEN "+title" ELSE IF is(c.eb, 7) # is(c.ea, 7) THEN "+authors"
     ELSE IF is(c.eb, 2) # is(c.ea, 2) THEN "+marginal" ELSE IF line(c.eb) \/ line(c.ea) THEN "+line" ELSE "no primary y-cut"

\* Reading order, other y-cuts.
OrderPairs(ctx, S, cands, first, last) ==
  LET RECURSIVE P(_, _)
      P(i, acc) ==
        IF i >= last THEN acc
        ELSE LET js == { j \in i..last : XOk(ctx, "all", Part(S, cands[i].pos, cands[j].pos), 0, 0) }
             IN IF js = {} THEN P(i + 1, acc)
                ELSE LET j == CHOOSE x \in js : \A y \in js : y <= x IN P(j + 1, acc \cup { i, j })
  IN P(first, {})
OrderYRules(ctx, S, cands) ==
  IF cands = <<>> THEN <<>>
  ELSE LET n == Len(cands)
           below == { i \in 1..n : XOk(ctx, "all", Part(S, cands[i].pos, Len(S)), 0, 0) }
           bottom == IF below = {} THEN {} ELSE { CHOOSE i \in below : \A k \in below : i <= k }
           last == IF below = {} THEN n ELSE CHOOSE i \in bottom : TRUE
           above == { i \in 1..last : XOk(ctx, "all", Part(S, 0, cands[i].pos), 0, 0) }
           top == IF above = {} THEN {} ELSE { CHOOSE i \in above : \A k \in above : k <= i }
           first == IF above = {} THEN 1 ELSE CHOOSE i \in top : TRUE
           pairs == OrderPairs(ctx, S, cands, first, last)
       IN [ i \in 1..n |-> IF i \in bottom THEN "+below" ELSE IF i \in top THEN "+above" ELSE IF i \in pairs THEN "+between"
                           ELSE "no columns" ]

RuleY(ctx, mode, S, cands) ==
  CASE mode = "page" -> PageYRules(ctx, S, cands)
    [] mode = "primary" -> [ i \in 1..Len(cands) |-> PrimYRule(ctx, cands[i]) ]
    [] mode = "order" -> OrderYRules(ctx, S, cands)
    [] mode = "all" -> [ i \in 1..Len(cands) |-> "+all" ]
    [] mode = "odd" -> [ i \in 1..Len(cands) |-> IF i % 2 = 1 THEN "+odd" ELSE "even" ]
    [] OTHER -> [ i \in 1..Len(cands) |-> "none" ]
YCut(ctx, mode, els, minGap) ==
  IF els = <<>> THEN [ ok |-> FALSE, groups |-> <<>>, cuts |-> <<>> ]
  ELSE LET S == SortY(els)  c == YCands(S, minGap)  r == Force(RuleY(ctx, mode, S, c)) IN Result(S, c, r)

-----------------------------------------------------------------------------
(* The recursion. ctx has minX, minY and maxOv; mx and my are the modes. *)
None == [ groups |-> <<>>, cuts |-> <<>> ]
\* The results for the groups one after the other.
ForEach(gs, f(_)) == FoldLeft(LAMBDA acc, g : LET r == f(g) IN [ groups |-> acc.groups \o r.groups, cuts |-> acc.cuts \o r.cuts ],
                              None, gs)
RECURSIVE XYCut(_, _, _, _)
XYCut(ctx, mx, my, els) ==
  IF els = <<>> THEN None
  ELSE LET x == XCut(ctx, mx, els, ctx.minX, ctx.maxOv)
           yPart(g) ==
             LET y == YCut(ctx, my, g, ctx.minY)
                 sub == ForEach(y.groups, LAMBDA h : XYCut(ctx, mx, my, h))
             IN IF ~y.ok THEN [ groups |-> <<g>>, cuts |-> y.cuts ] ELSE [ groups |-> sub.groups, cuts |-> y.cuts \o sub.cuts ]
           rest == IF ~x.ok THEN yPart(els) ELSE ForEach(x.groups, yPart)
       IN [ groups |-> rest.groups, cuts |-> x.cuts \o rest.cuts ]

\* The reading order of a page.
Order(ctx, els) ==
  LET px == XCut(ctx, "primary", els, 0, 0)
      per(g) == LET py == YCut(ctx, "primary", g, 0)
                    sub == ForEach(py.groups, LAMBDA h : XYCut(ctx, "order", "order", h))
                IN [ groups |-> sub.groups, cuts |-> py.cuts \o sub.cuts ]
      all == ForEach(px.groups, per)
  IN [ groups |-> Force([ i \in 1..Len(all.groups) |-> SortY(all.groups[i]) ]), cuts |-> px.cuts \o all.cuts ]

-----------------------------------------------------------------------------
(* Properties *)
Ids(g) == [ i \in 1..Len(g) |-> g[i].e ]
\* Every element is in exactly one group.
IsPartition(els, groups) == IsPerm(Flat([ i \in 1..Len(groups) |-> Ids(groups[i]) ]), Ids(els)) /\ \A g \in Ran(groups) : g # <<>>
\* The elements can be divided by a vertical line, with a gap of the given size around it.
Divisible(els, gap, lo(_), hi(_)) ==
  \E i \in 1..Len(els) : LET A == { j \in 1..Len(els) : hi(els[j]) + gap <= lo(els[i]) }
                        IN A # {} /\ \A j \in (1..Len(els)) \ A : lo(els[j]) >= lo(els[i])
\* A cut separates: what is before it ends before it (but for the elements it runs through), what is after it starts after it.
CutSeparates(S, c) ==
  IF c.dir = "x" THEN /\ \A i \in 1..c.pos : RX(S[i]) <= RX(c.eb) \/ S[i].e \in { o.e : o \in Ran(c.ov) }
                      /\ \A i \in (c.pos + 1)..Len(S) : LX(S[i]) >= LX(c.ea)
                      /\ RX(c.eb) <= c.b[1] /\ c.b[1] <= LX(c.ea)
  ELSE /\ \A i \in 1..c.pos : LY(S[i]) <= LY(c.eb)
       /\ \A i \in (c.pos + 1)..Len(S) : UY(S[i]) >= UY(c.ea)
       /\ LY(c.eb) <= c.b[2] /\ c.b[2] <= UY(c.ea)

-----------------------------------------------------------------------------
(* Conformance *)
Obj(D, ref) == CASE ref[1] = "w" -> D.words[ref[2]] [] ref[1] = "f" -> D.figs[ref[2]] [] ref[1] = "s" -> D.shapes[ref[2]]
                 [] ref[1] = "g" -> D.graphics[ref[2]] [] ref[1] = "b" -> D.blocks[ref[2]]
El(D, ref, role) == LET o == Obj(D, ref) IN [ e |-> ref, b |-> o.b, r |-> o.r, wm |-> o.wm, rk |-> o.rk, pg |-> o.pg, role |-> role ]
Refs(kind, ids) == [ i \in 1..Len(ids) |-> <<kind, ids[i]>> ]
Els(D, refs) == [ i \in 1..Len(refs) |-> El(D, refs[i], 0) ]

CutMatches(o, c, pg) ==
  /\ o.dir = c.dir /\ o.pos = c.pos /\ o.ch = c.ch /\ o.b = c.b /\ o.gw = c.gw /\ o.gh = c.gh /\ o.pg = pg
  /\ o.eb = c.eb.e /\ o.ea = c.ea.e /\ o.ov = Ids(c.ov)
CutsOk(what, E, ids, cuts, pg) ==
  /\ Cover([ i \in 1..Len(cuts) |-> cuts[i].rule ])
  /\ ChkV(what \o ": number of cut candidates", Len(ids) = Len(cuts), <<pg, Len(ids), Len(cuts)>>)
  /\ \A i \in 1..Len(cuts) : ChkV(what \o ": cut candidate", CutMatches(E.cuts[ids[i]], cuts[i], pg), <<pg, i, cuts[i]>>)
GroupsOk(what, obs, groups) ==
  /\ ChkV(what \o ": number of groups", Len(obs) = Len(groups), <<Len(obs), Len(groups)>>)
  /\ \A i \in 1..Len(groups) : ChkV(what \o ": group", obs[i] = Ids(groups[i]), <<i, obs[i], Ids(groups[i])>>)

\* Direct calls: x-cut, y-cut, or the recursion, on the words, figures and shapes of every page.
RawPost(D, R) ==
  LET ctx == [ minX |-> R.minx, minY |-> R.miny, maxOv |-> R.maxov ]
  IN /\ Len(R.res) = Len(D.pages)
     /\ \A p \in 1..Len(D.pages) :
          LET P == D.pages[p]
              o == R.res[p]
              els == Els(D, Refs("w", P.w) \o Refs("f", P.fg) \o Refs("s", P.sh))
              r == CASE R.fn = "x" -> XCut(ctx, R.mx, els, R.minx, R.maxov) [] R.fn = "y" -> YCut(ctx, R.my, els, R.miny)
                     [] OTHER -> XYCut(ctx, R.mx, R.my, els)
          IN /\ GroupsOk("xy-cut", o.groups, r.groups)
             /\ ChkV("xy-cut: result", R.fn \in { "x", "y" } => o.ok = r.ok, R.fn)
             /\ ChkV("xy-cut: number of cut candidates", Len(o.cuts) = Len(r.cuts), <<p, Len(o.cuts), Len(r.cuts)>>)
             /\ \A i \in 1..Len(r.cuts) : ChkV("xy-cut: cut candidate", CutMatches(o.cuts[i], r.cuts[i], P.num), <<p, i, r.cuts[i]>>)

SegsPost(D, E, ovn) ==
  /\ Chk("segments: the elements stay", D.words = E.words /\ D.figs = E.figs /\ D.shapes = E.shapes /\ D.graphics = E.graphics)
  /\ \A p \in 1..Len(D.pages) :
       LET P == D.pages[p]
           els == Els(D, Refs("w", P.w) \o Refs("f", P.fg) \o Refs("g", P.gr) \o Refs("s", P.sh))
           ctx == [ minX |-> 2 * D.st.mwd, minY |-> 2 * Pt, maxOv |-> 1, acwK |-> D.st.acwK, achK |-> D.st.achK, ovn |-> ovn ]
           r == XYCut(ctx, "page", "page", els)
           sg == E.pages[p].sg
       IN /\ CutsOk("segments", E, E.pages[p].bc, r.cuts, P.num)
          /\ GroupsOk("segments", [ i \in 1..Len(sg) |-> E.segs[sg[i]].e ], r.groups)
          /\ \A i \in 1..Len(sg) :
               LET g == r.groups[i]
               IN ChkV("segments: box and page", E.segs[sg[i]].b = UnionSeq([ k \in 1..Len(g) |-> g[k].b ]) /\ E.segs[sg[i]].pg = P.num,
                       <<p, i>>)

\* roles: the predicted roles, block by block.
OrderPost(D, E) ==
  /\ Chk("order: the blocks stay", Len(D.blocks) = Len(E.blocks) /\
         \A i \in 1..Len(D.blocks) : D.blocks[i].b = E.blocks[i].b /\ D.blocks[i].l = E.blocks[i].l /\ D.blocks[i].t = E.blocks[i].t)
  /\ \A p \in 1..Len(D.pages) :
       LET P == D.pages[p]
           refs == Refs("b", P.bl) \o Refs("f", P.fg) \o Refs("s", P.sh)
           els == [ i \in 1..Len(refs) |-> El(D, refs[i], IF refs[i][1] = "b" THEN E.blocks[refs[i][2]].role ELSE 0) ]
           ctx == [ minX |-> 0, minY |-> 0, maxOv |-> 0, acwK |-> D.st.acwK, achK |-> D.st.achK,
                    box |-> IF els = <<>> THEN <<0, 0, 0, 0>> ELSE UnionSeq([ i \in 1..Len(els) |-> els[i].b ]) ]
           r == Order(ctx, els)
           flat == Flat([ i \in 1..Len(r.groups) |-> Ids(r.groups[i]) ])
           exp == SelectSeq(flat, LAMBDA e : e[1] = "b")
       IN /\ CutsOk("order", E, E.pages[p].rc, r.cuts, P.num)
          /\ ChkV("order: blocks of the page", Refs("b", E.pages[p].bl) = exp, <<p, exp, E.pages[p].bl>>)
=============================================================================
