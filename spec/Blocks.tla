------------------------------- MODULE Blocks -------------------------------
(* Splitting the lines of each segment into text blocks.

   Pass 1 makes preliminary blocks per segment from the geometry of consecutive lines. Pass 2 scans the lines of the
   preliminary blocks and makes the final blocks of the page from centering, enumeration items and footnotes, emphasis,
   hanging indentation and indentation. The scan is a machine: its state is the sequence of finished blocks, the open
   block, and the footnote labels seen so far; each step consumes one line.

   Lexical facts about a line are given: X[l] is a record of
     item  starts with an item label           lab   footnote labels occurring inside of it
     pre   leading superscripted characters    delim ends with a sentence delimiter
     upper starts with an uppercase letter     lower starts with a lowercase letter
     long  at least three bytes                formula contains a formula character
     alpha contains a letter                   low   contains a lowercase letter
     name  first word is a name prefix *)
EXTENDS Base

FsTol == Pt
NoLabels == { "(no labels)" }

-----------------------------------------------------------------------------
(* Attributes of a block with the lines ls (a sequence of line ids). Ls is the table of lines. *)
BBox(Ls, ls) == UnionSeq([ i \in 1..Len(ls) |-> Ls[ls[i]].b ])
TrimBox(box, st) == << Max2(box[1], st[1]), Max2(box[2], st[2]), Min2(box[3], st[3]), Min2(box[4], st[4]) >>

LeftOff(a, c) == LX(a) - LX(c)
RightOff(a, c) == RX(a) - RX(c)
\* Comparisons of a length v with k average glyph widths.
GtW(acwK, v, k) == v * 1000 > k * acwK
GeW(acwK, v, k) == v * 1000 >= k * acwK
InTol(acwK, v) == ~GtW(acwK, -v, 1) /\ ~GtW(acwK, v, 6)

CenteredPair(acwK, a, c) == /\ ~RatioLt(MaxXOverlap(a, c), 9900)
                            /\ ~GtW(acwK, Abs(Abs(LeftOff(a, c)) - Abs(RightOff(a, c))), 2)
LargeOff(acwK, X, Ls, p, l) == /\ ~X[p].formula /\ ~X[l].formula
                               /\ \/ GtW(acwK, Abs(LeftOff(Ls[p], Ls[l])), 2)
                                  \/ GtW(acwK, Abs(RightOff(Ls[p], Ls[l])), 2)
Centered(acwK, X, Ls, ls) ==
  LET large == { i \in 2..Len(ls) : LargeOff(acwK, X, Ls, ls[i - 1], ls[i]) }
  IN /\ \A i \in 2..Len(ls) : CenteredPair(acwK, Ls[ls[i - 1]], Ls[ls[i]])
     /\ large # {}
     /\ (Len(ls) - 1) - Cardinality(large) <= 5

\* The right edge from which the right margins of a block are measured; ptr is the right edge of the trim box of the
\* block before it (or a negative number without one).
MarginRight(acwK, box, tb, sbox, n, hasPrev, ptr) ==
  IF n = 2 /\ GtW(acwK, Abs((box[1] - sbox[1]) - (sbox[3] - box[3])), 1) /\ hasPrev THEN Max2(tb[3], ptr) ELSE tb[3]

FirstWordWidth(Ws, line) == Width(Ws[line.w[1]])
\* Is there space for the first word of the line at the end of the line before, whose right margin is rm?
Capacity(acwK, Ws, rm, line) == line.w # <<>> /\ GtW(acwK, rm - FirstWordWidth(Ws, line), 2)

\* The hanging indent: 0 if there is none. lm, rm: the margins of the lines.
Hanging(acwK, X, Ls, Ws, ls, lm, rm) ==
  LET n == Len(ls)
      all == 1..n
      large == SelectSeq([ i \in all |-> i ], LAMBDA i : GeW(acwK, lm[i], 1))
      vals == [ k \in 1..Len(large) |-> lm[large[k]] ]
      m == IF vals = <<>> THEN 0 ELSE CHOOSE v \in Ran(vals) : IsMode(v, vals)
      counts == { i \in all : X[ls[i]].long /\ ~(~GtW(acwK, Abs(lm[i] - rm[i]), 1) /\ GtW(acwK, lm[i], 1)) }
      nonInd == { i \in counts : ~GtW(acwK, Abs(lm[i]), 1) }
      ind == { i \in counts : ~GtW(acwK, Abs(lm[i] - m), 1) }
      lowInd == { i \in ind : X[ls[i]].lower }
      lowNonInd == { i \in nonInd : X[ls[i]].lower /\ ~X[ls[i]].name }
      firstInd == 1 \in ind
      firstCap == 2 \in counts /\ Capacity(acwK, Ws, rm[1], Ls[ls[2]])
      othersInd == \A i \in counts \ {1} : i \in ind
  IN IF 2 * Count(vals, m) <= Len(vals) THEN 0
     ELSE IF ind = {} \/ lowNonInd # {} THEN 0
     ELSE IF \/ ~firstInd /\ ~firstCap /\ othersInd
             \/ Cardinality(nonInd) >= 10
             \/ Cardinality({ i \in all : X[ls[i]].long }) >= 4 /\ lowInd # {}
          THEN m ELSE 0

\* C is the context: [ acwK, X, Ls, Ws, segs ].
MkBlock(C, ls, hasPrev, ptr) ==
  LET seg == C.segs[C.Ls[ls[1]].sg]
      box == BBox(C.Ls, ls)
      tb == TrimBox(box, seg.tb)
      right == MarginRight(C.acwK, box, tb, seg.b, Len(ls), hasPrev, ptr)
      lm == [ i \in 1..Len(ls) |-> LX(C.Ls[ls[i]]) - tb[1] ]
      rm == [ i \in 1..Len(ls) |-> right - RX(C.Ls[ls[i]]) ]
  IN [ l |-> ls, b |-> box, tb |-> tb, lm |-> lm, rm |-> rm,
       cen |-> Centered(C.acwK, C.X, C.Ls, ls), hi |-> Hanging(C.acwK, C.X, C.Ls, C.Ws, ls, lm, rm) ]

\* The blocks of a list of groups, in order (each one refers to the one before it).
MkBlocks(C, groups) ==
  FoldLeft(LAMBDA bs, g : Append(bs, MkBlock(C, g, bs # <<>>, IF bs = <<>> THEN 0 ELSE bs[Len(bs)].tb[3])), <<>>, groups)

-----------------------------------------------------------------------------
(* Emphasis. F is the function from the names of fonts to [ weight, italic ]. *)
Emphasized(st, F, font, size, alpha, low) ==
  /\ st.mfn \in DOMAIN F /\ font \in DOMAIN F
  /\ \/ size > st.mfs + FsTol
     \/ size >= st.mfs - FsTol /\ (F[font].weight > F[st.mfn].weight + 100 \/ F[font].italic)
     \/ alpha /\ ~low

-----------------------------------------------------------------------------
(* Pass 1: does a line start a preliminary block? "either": a distance equals the threshold, and whether it exceeds it is
   up to rounding. *)
Overlap1(s1, e1, s2, e2) == LET o == Max2(0, Min2(e1, e2) - Max2(s1, s2)) IN IF o = 0 THEN <<0, 1>> ELSE <<o, e1 - s1>>
OnFigure(line, fig) == /\ RatioGe(Overlap1(LX(line), RX(line), LX(fig), RX(fig)), 5000)
                       /\ RatioGe(Overlap1(UY(line), LY(line), UY(fig), LY(fig)), 5000)
\* The first figure below the line, 0 if there is none.
FigureOf(line, figs) == LET is == { i \in 1..Len(figs) : OnFigure(line, figs[i]) }
                        IN IF is = {} THEN 0 ELSE CHOOSE i \in is : \A j \in is : i <= j

ExpectedDist(st, s) ==
  LET is == { i \in 1..Len(st.mldfs) : st.mldfs[i][1] = s }
  IN Max2(0, Max2(st.mld, IF is = {} THEN 0 ELSE st.mldfs[CHOOSE i \in is : TRUE][2]))

\* line, the line before it (or NoLine) and the one before that.
NoLine == [ none |-> TRUE ]
Prelim(st, figs, line, prev, pprev) ==
  LET dist == RoundTenth(VGap(prev, line))
      exp == ExpectedDist(st, line.s)
      pdist == RoundTenth(VGap(pprev, prev))
      over == 10 * (dist - exp) - Max2(1600, exp)
      grow == 2 * (dist - pdist) - st.mwh
  IN IF prev = NoLine THEN "start"
     ELSE IF FigureOf(prev, figs) # 0 /\ FigureOf(prev, figs) = FigureOf(line, figs) THEN "cont"
     ELSE IF prev.r # line.r \/ prev.wm # line.wm THEN "start"
     ELSE IF Abs(prev.s - line.s) > FsTol /\ Abs(prev.ms - line.ms) > FsTol THEN "start"
     ELSE IF dist <= 0 THEN "cont"
     ELSE IF over > 0 THEN "start"
     ELSE IF over = 0 THEN "either"
     ELSE IF pprev = NoLine THEN "cont"
     ELSE IF grow > 0 THEN "start"
     ELSE IF grow = 0 THEN "either" ELSE "cont"

-----------------------------------------------------------------------------
(* Pass 2 *)
\* Is the line the first one of an item? pv: the line before it (0 if none); labs: the footnote labels, or NoLabels.
HasFootnote(X, l, labs) == IF labs = NoLabels THEN X[l].pre # "" ELSE X[l].pre \in labs
SibItem(C, l, sib) ==
  /\ sib # 0 /\ C.Ls[sib].w # <<>> /\ C.X[sib].item
  /\ C.Ws[C.Ls[sib].w[1]].f = C.Ws[C.Ls[l].w[1]].f
  /\ Abs(C.Ws[C.Ls[sib].w[1]].s - C.Ws[C.Ls[l].w[1]].s) <= FsTol
FirstOfItem(C, l, pv, labs) ==
  LET foot == HasFootnote(C.X, l, labs)
  IN /\ C.Ls[l].w # <<>>
     /\ C.X[l].item \/ foot
     /\ ~(/\ pv # 0 /\ ~C.X[pv].item
          /\ C.Ls[pv].f = C.Ls[l].f /\ Abs(C.Ls[pv].s - C.Ls[l].s) <= FsTol
          /\ VGap(C.Ls[pv], C.Ls[l]) <= 0
          /\ ~C.X[pv].delim
          /\ ~GtW(C.acwK, Abs(LeftOff(C.Ls[pv], C.Ls[l])), 1))
     /\ SibItem(C, l, C.Ls[l].psl) \/ SibItem(C, l, C.Ls[l].nsl) \/ foot

\* One of the parents is the first line of an item. Pv: the function giving the line before each line at this moment.
RECURSIVE ContOfItem(_, _, _, _)
ContOfItem(C, l, Pv(_), labs) ==
  LET p == C.Ls[l].par
  IN p # 0 /\ (FirstOfItem(C, p, Pv(p), labs) \/ ContOfItem(C, p, Pv, labs))

\* The rules. B: the preliminary block with margins, i: position of the line in it (the one before it exists).
Rule(C, F, st, B, i, Pv(_), labs) ==
  LET acwK == C.acwK
      l == B.l[i]
      p == B.l[i - 1]
      line == C.Ls[l]
      prev == C.Ls[p]
      first == FirstOfItem(C, l, Pv(l), labs)
      cont == ContOfItem(C, l, Pv, labs)
      pfirst == FirstOfItem(C, p, Pv(p), labs)
      pcont == ContOfItem(C, p, Pv, labs)
      off == LeftOff(prev, line)
      cap == Capacity(acwK, C.Ws, B.rm[i - 1], line)
      lm == B.lm[i]
      plm == B.lm[i - 1]
      em(k) == Emphasized(st, F, C.Ls[k].f, C.Ls[k].s, C.X[k].alpha, C.X[k].low)
      more(m) == GtW(acwK, m - B.hi, 1)
      less(m) == GtW(acwK, B.hi - m, 1)
      ind(m) == GeW(acwK, m, 1) /\ ~GtW(acwK, m, 6)
  IN IF B.cen THEN (IF FirstOfItem(C, l, Pv(l), NoLabels) THEN "start: item in centered text" ELSE "cont: centered")
     ELSE IF first THEN "start: item"
     ELSE IF cont
          THEN IF cap THEN "start: continuation of an item after a line with capacity"
               ELSE IF pfirst THEN "cont: second line of an item"
               ELSE IF pcont /\ ~InTol(acwK, off) THEN "start: indented continuation"
               ELSE "cont: continuation of an item"
     ELSE IF (pfirst \/ pcont) /\ cap THEN "start: after an item with capacity"
     ELSE IF (pfirst \/ pcont) /\ ~C.X[p].delim /\ ~C.X[l].upper THEN "cont: sentence of an item"
     ELSE IF em(p) /\ em(l) /\ prev.f = line.f /\ Abs(prev.s - line.s) <= FsTol THEN "cont: emphasized"
     ELSE IF B.hi > 0
          THEN IF less(lm) THEN "start: not indented"
               ELSE IF ~more(lm)
                    THEN IF more(plm) THEN (IF InTol(acwK, off) THEN "cont: hanging" ELSE "start: hanging")
                         ELSE IF cap THEN "start: hanging, capacity" ELSE "cont: hanging indent"
               ELSE IF more(plm) /\ InTol(acwK, off) THEN "cont: both more indented" ELSE "start: more indented"
     ELSE IF GtW(acwK, lm, 6) \/ GtW(acwK, plm, 6)
          THEN (IF ~GtW(acwK, Abs(off), 1) THEN "cont: far indented" ELSE "start: far indented")
     ELSE IF ind(lm) THEN "start: indented"
     ELSE IF cap THEN "start: capacity"
     ELSE "cont: default"
Starts(r) == SubSeq(r, 1, 5) = "start"

\* The machine. done: the final groups; open: the open group; labs: footnote labels; rules: the rule of each line.
BInit == [ done |-> <<>>, open |-> <<>>, labs |-> {}, rules |-> <<>> ]
\* The line before line l while s is the state: the final one if its block is finished.
PvIn(s, prelimPrev, l) ==
  LET gs == { g \in 1..Len(s.done) : l \in Ran(s.done[g]) }
  IN IF gs = {} THEN prelimPrev[l]
     ELSE LET g == s.done[CHOOSE x \in gs : TRUE]  k == PosOf(g, l) IN IF k = 1 THEN 0 ELSE g[k - 1]
BStep(C, F, st, prelimPrev, s, B, i) ==
  LET labs == s.labs \cup Ran(C.X[B.l[i]].lab)
      pv(x) == PvIn(s, prelimPrev, x)
      r == IF i = 1 THEN "start: preliminary block" ELSE Rule(C, F, st, B, i, pv, labs)
  IN IF Starts(r) /\ s.open # <<>>
     THEN [ done |-> Append(s.done, s.open), open |-> <<B.l[i]>>, labs |-> labs, rules |-> Append(s.rules, r) ]
     ELSE [ s EXCEPT !.open = Append(@, B.l[i]), !.labs = labs, !.rules = Append(@, r) ]
\* At the end of a preliminary block the open block is finished.
BClose(s) == IF s.open = <<>> THEN s ELSE [ s EXCEPT !.done = Append(@, s.open), !.open = <<>> ]
BBlock(C, F, st, prelimPrev, s, B) ==
  BClose(FoldLeft(LAMBDA x, i : BStep(C, F, st, prelimPrev, x, B, i), s, [ i \in 1..Len(B.l) |-> i ]))

\* The final blocks partition the lines in order and respect the preliminary ones.
BlocksPartition(done, prelims) ==
  /\ Flat(done) = Flat([ i \in 1..Len(prelims) |-> prelims[i] ])
  /\ \A g \in 1..Len(done) : done[g] # <<>> /\ \E p \in 1..Len(prelims) : Ran(done[g]) \subseteq Ran(prelims[p])

-----------------------------------------------------------------------------
(* Conformance *)
Context(D, aux) == [ acwK |-> D.st.acwK, X |-> aux.lines, Ls |-> D.lines, Ws |-> D.words, segs |-> D.segs ]
FontFun(D) == [ k \in { D.fonts[i].name : i \in 1..Len(D.fonts) } |->
                LET i == CHOOSE i \in 1..Len(D.fonts) : D.fonts[i].name = k
                IN [ weight |-> D.fonts[i].weight, italic |-> D.fonts[i].italic ] ]
SegIds(D) == Flat([ p \in 1..Len(D.pages) |-> D.pages[p].sg ])
Groups(E, ids) == [ i \in 1..Len(ids) |-> E.blocks[ids[i]].l ]
PageFigs(D, pg) == LET f == D.pages[pg].fg IN [ i \in 1..Len(f) |-> D.figs[f[i]] ]

PrelimPost(D, E) ==
  \A k \in 1..Len(SegIds(D)) :
    LET s == SegIds(D)[k]
        ls == D.segs[s].l
        gs == Groups(E, E.segs[s].bl)
        starts == { g[1] : g \in Ran(gs) }
        ln(i) == IF i = 0 THEN NoLine ELSE D.lines[i]
    IN /\ ChkV("blocks: the preliminary blocks hold the lines of the segment", Flat(gs) = ls /\ \A g \in Ran(gs) : g # <<>>, s)
       /\ \A i \in 1..Len(ls) :
            LET l == ls[i]
                p == D.lines[l].pl
                d == Prelim(D.st, PageFigs(D, D.lines[l].pg), D.lines[l], ln(p), IF p = 0 THEN NoLine ELSE ln(D.lines[p].pl))
            IN i > 1 => ChkV("blocks: start of a preliminary block",
                             d = "either" \/ (d = "start") = (l \in starts), <<s, i, d>>)

\* The expected final state of the machine, for the observed preliminary blocks.
FinalState(D, E, C, F, segsOfPage, s0, prelimPrev) ==
  FoldLeft(LAMBDA s, seg :
             FoldLeft(LAMBDA x, B : BBlock(C, F, D.st, prelimPrev, x, B), s, MkBlocks(C, Groups(E, E.segs[seg].bl))),
           s0, segsOfPage)

\* Pass 2 page by page; the labels and finished blocks are carried over. Result: per page the groups.
PagesScan(D, E, C) ==
  LET F == FontFun(D)
      all == [ k \in 1..Len(SegIds(D)) |-> Groups(E, E.segs[SegIds(D)[k]].bl) ]
      pairs == Flat([ k \in 1..Len(all) |-> Flat([ g \in 1..Len(all[k]) |->
                 [ i \in 1..Len(all[k][g]) |-> << all[k][g][i], IF i = 1 THEN 0 ELSE all[k][g][i - 1] >> ] ]) ])
      prelimPrev == [ l \in { pairs[i][1] : i \in 1..Len(pairs) } |-> pairs[CHOOSE i \in 1..Len(pairs) : pairs[i][1] = l][2] ]
  IN FoldLeft(LAMBDA acc, p :
                LET s == FinalState(D, E, C, F, D.pages[p].sg, acc.s, prelimPrev)
                IN [ s |-> s, pages |-> Append(acc.pages, SubSeq(s.done, Len(acc.s.done) + 1, Len(s.done))) ],
              [ s |-> BInit, pages |-> <<>> ], [ p \in 1..Len(D.pages) |-> p ])

FinalPost(D, E, aux) ==
  LET C == Context(D, aux)
      r == PagesScan(D, E, C)
      order == Flat(Flat(r.pages))
      ruleOf(l) == r.s.rules[PosOf(order, l)]
  IN /\ Cover(r.s.rules)
     /\ Chk("blocks: lines and words stay",
            /\ Len(D.lines) = Len(E.lines) /\ Len(D.words) = Len(E.words)
            /\ \A i \in 1..Len(D.lines) : D.lines[i].b = E.lines[i].b /\ D.lines[i].w = E.lines[i].w /\ D.lines[i].t = E.lines[i].t)
     /\ \A p \in 1..Len(D.pages) :
          LET obs == Groups(E, E.pages[p].bl)
              bad == { i \in 1..Min2(Len(obs), Len(r.pages[p])) : obs[i] # r.pages[p][i] }
              i == CHOOSE i \in bad : \A j \in bad : i <= j
          IN ChkV("blocks: the blocks of the page", obs = r.pages[p],
                  <<p, IF bad = {} THEN <<Len(obs), Len(r.pages[p])>>
                       ELSE <<i, obs[i], r.pages[p][i], [ k \in 1..Len(r.pages[p][i]) |-> ruleOf(r.pages[p][i][k]) ],
                              IF i < Len(r.pages[p]) THEN ruleOf(r.pages[p][i + 1][1]) ELSE "">> >>)

AttrPost(D, E, aux) ==
  LET C == Context(D, aux)
      F == FontFun(D)
      one(id, exp, rk, pb, nb, what) ==
        LET o == E.blocks[id]
            ls == o.l
            n == Len(ls)
        IN /\ ChkV("block attributes: box", o.b = exp.b, <<what, id, exp.b>>)
           /\ ChkV("block attributes: trim box", o.tb = exp.tb, <<what, id, exp.tb>>)
           /\ ChkV("block attributes: text", o.t = JoinWith([ i \in 1..n |->
                      JoinWith([ k \in 1..Len(D.lines[ls[i]].w) |-> D.words[D.lines[ls[i]].w[k]].t ], " ") ], " "), <<what, id>>)
           /\ ChkV("block attributes: font", IsMode(o.f, [ i \in 1..n |-> D.lines[ls[i]].f ])
                                            /\ IsMode(o.s, [ i \in 1..n |-> D.lines[ls[i]].s ]), <<what, id>>)
           /\ ChkV("block attributes: rotation, writing mode, page, segment",
                   LET l == D.lines[ls[1]] IN o.r = l.r /\ o.wm = l.wm /\ o.pg = l.pg /\ o.sg = l.sg, <<what, id>>)
           /\ ChkV("block attributes: centered", o.cen = exp.cen, <<what, id, exp.cen>>)
           /\ ChkV("block attributes: hanging indent", o.hi = exp.hi, <<what, id, exp.hi>>)
           /\ ChkV("block attributes: emphasized",
                   o.em = Emphasized(D.st, F, o.f, o.s, \E i \in 1..n : C.X[ls[i]].alpha, \E i \in 1..n : C.X[ls[i]].low), <<what, id>>)
           /\ ChkV("block attributes: rank", o.rk = rk, <<what, id>>)
           /\ ChkV("block attributes: previous and next block", o.pb = pb /\ o.nb = nb, <<what, id, pb, nb>>)
      list(ids, what) ==
        LET n == Len(ids)
            exps == MkBlocks(C, Groups(E, ids))
        IN \A i \in 1..n : one(ids[i], exps[i], i - 1, IF i = 1 THEN 0 ELSE ids[i - 1], IF i = n THEN 0 ELSE ids[i + 1], what)
  IN \A p \in 1..Len(D.pages) :
       LET ids == E.pages[p].bl
           exps == MkBlocks(C, Groups(E, ids))
       IN /\ list(ids, "block of page")
          /\ \A g \in 1..Len(ids) : LET ls == E.blocks[ids[g]].l  n == Len(ls) IN \A i \in 1..n :
               LET o == E.lines[ls[i]]
               IN /\ ChkV("block attributes: margins of its lines", o.lm = exps[g].lm[i] /\ o.rm = exps[g].rm[i], <<p, g, i, exps[g].rm[i]>>)
                  /\ ChkV("block attributes: links of its lines",
                          /\ o.blk = ids[g]
                          /\ o.pl = (IF i = 1 THEN 0 ELSE ls[i - 1]) /\ o.nl = (IF i = n THEN 0 ELSE ls[i + 1]), <<p, g, i>>)

BlocksPost(D, E, aux) == PrelimPost(D, E) /\ FinalPost(D, E, aux)
=============================================================================
