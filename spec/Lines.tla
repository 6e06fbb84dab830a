------------------------------- MODULE Lines --------------------------------
(* Composing text lines from the words of a segment, the trim box of a segment, the hierarchy of the lines of a page, and
   the sub- and superscripts.

   1. Cluster: the words of a segment that are not part of a stacked math symbol are grouped by rotation and base line
      edge; the (nested) parts of a stacked symbol go with their base.
   2. Merge: the lines of one rotation, from top to bottom, are merged with their predecessor where they overlap
      vertically, in rounds, until a round changes nothing.
   3. Link: previous and next line within a rotation.
   4. Hierarchy: parent and sibling lines by indentation, with a stack. *)
EXTENDS Base

MergeNear == 4000          \* 0.4: needed overlap if the lines are closer than 3 average glyph widths
MergeFar == 8000           \* 0.8: otherwise
MaxLineDist == 10 * Pt
DistTol == Tenth           \* 0.1 pt
ScriptFsTol == 144         \* 0.9 pt
BaseTol == Tenth           \* 0.1 pt

(* --- Clusters. A cluster is [ r, y, ws ], ws being a sequence of word ids. W is the table of words. *)
RECURSIVE PartsFrom(_, _, _)
\* The parts of a base, breadth first: the queue q, from position j.
PartsFrom(W, q, j) == IF j > Len(q) THEN q ELSE PartsFrom(W, q \o W[q[j]].bst, j + 1)
Parts(W, w) == PartsFrom(W, W[w].bst, 1)

CStep(W, cl, w) ==
  IF W[w].pst # 0 THEN cl
  ELSE LET ws == <<w>> \o Parts(W, w)
           is == { i \in 1..Len(cl) : cl[i].r = W[w].r /\ cl[i].y = RotB(W[w]) }
       IN IF is = {} THEN Append(cl, [ r |-> W[w].r, y |-> RotB(W[w]), ws |-> ws ])
          ELSE [ cl EXCEPT ![CHOOSE i \in is : TRUE].ws = @ \o ws ]
Clusters(W, own) == FoldLeft(LAMBDA cl, w : CStep(W, cl, w), <<>>, own)

(* --- Lines *)
InReadingDir(r) == r \in {0, 1}
SortWords(W, ws, r) ==
  SortSeq(ws, LAMBDA v, w : IF InReadingDir(r) THEN RotL(W[v]) < RotL(W[w]) ELSE RotL(W[v]) > RotL(W[w]))
\* The first one of the given words decides about the rotation and writing mode of the line.
MkLine(W, ws) ==
  LET f == W[ws[1]]
  IN [ ws |-> SortWords(W, ws, f.r), b |-> UnionSeq([ i \in 1..Len(ws) |-> W[ws[i]].b ]),
       r |-> f.r, wm |-> f.wm, pg |-> f.pg ]

Merges(acwK, p, c) ==
  LET t == IF HGap(p, c) * 1000 < 3 * acwK THEN MergeNear ELSE MergeFar
  IN RatioGe(MaxYOverlap(p, c), t)

Round(W, acwK, ls) ==
  FoldLeft(LAMBDA out, l :
             IF out # <<>> /\ Merges(acwK, out[Len(out)], l)
             THEN [ out EXCEPT ![Len(out)] = MkLine(W, @.ws \o l.ws) ]
             ELSE Append(out, l), <<>>, ls)
RECURSIVE Fix(_, _, _)
Fix(W, acwK, ls) == LET n == Round(W, acwK, ls) IN IF Len(n) = Len(ls) THEN ls ELSE Fix(W, acwK, n)

\* From top to bottom, by the boxes of the lines. The order of lines with the same bottom edge is free.
RECURSIVE Sorted(_, _)
Sorted(ls, up) ==
  IF ls = <<>> THEN { <<>> }
  ELSE LET ms == { i \in 1..Len(ls) : \A j \in 1..Len(ls) : IF up THEN RotB(ls[i]) <= RotB(ls[j]) ELSE RotB(ls[i]) >= RotB(ls[j]) }
       IN UNION { { <<ls[i]>> \o t : t \in Sorted(RemoveAt(ls, i), up) } : i \in ms }
LinesOfRot(W, acwK, cl, r) ==
  LET cs == SelectSeq(cl, LAMBDA k : k.r = r)
  IN { Fix(W, acwK, ls) : ls \in Sorted([ i \in 1..Len(cs) |-> MkLine(W, cs[i].ws) ], InReadingDir(r)) }

Rotations(cl) == { cl[i].r : i \in 1..Len(cl) }

\* What holds for every set of words: nothing is lost and nothing is doubled.
LinesPartition(W, own, ls) ==
  LET all == Flat([ i \in 1..Len(ls) |-> ls[i].ws ])
      kept == SelectSeq(own, LAMBDA w : W[w].pst = 0)
      want == kept \o Flat([ i \in 1..Len(kept) |-> Parts(W, kept[i]) ])
  IN IsPerm(all, want)
LinesSorted(W, ls) ==
  \A k \in 1..Len(ls) : \A i \in 1..(Len(ls[k].ws) - 1) :
     LET a == RotL(W[ls[k].ws[i]])  c == RotL(W[ls[k].ws[i + 1]])
     IN IF InReadingDir(ls[k].r) THEN a <= c ELSE a >= c
\* After the last round no two consecutive lines are left that would be merged.
NothingToMerge(acwK, ls) == \A i \in 1..(Len(ls) - 1) : ~Merges(acwK, ls[i], ls[i + 1])

(* --- Trim box: the right edge is the most frequent rounded right edge of the lines if at least half of them have it. *)
TrimRights(seg, lines) ==
  LET xs == [ i \in 1..Len(lines) |-> RoundPt(RotR(lines[i])) ]
  IN { IF 2 * Count(xs, v) >= Len(xs) THEN v ELSE seg.b[3] : v \in { v \in Ran(xs) : IsMode(v, xs) } }

(* --- Hierarchy: a scan over the lines of a page with a stack of line positions. *)
HInit(n) == [ st |-> <<>>, par |-> [ i \in 1..n |-> 0 ], psl |-> [ i \in 1..n |-> 0 ], nsl |-> [ i \in 1..n |-> 0 ] ]

RECURSIVE PopFurtherRight(_, _, _, _)
PopFurtherRight(L, acwK, st, i) ==
  IF st = <<>> THEN st
  ELSE IF (LX(L[st[Len(st)]]) - LX(L[i])) * 1000 > acwK
       THEN PopFurtherRight(L, acwK, SubSeq(st, 1, Len(st) - 1), i) ELSE st

HStep(L, acwK, h, i) ==
  LET far == /\ i > 1 /\ L[i - 1].r = L[i].r /\ L[i - 1].wm = L[i].wm
             /\ Abs(VGap(L[i - 1], L[i])) > MaxLineDist + DistTol
      st == PopFurtherRight(L, acwK, IF far THEN <<>> ELSE h.st, i)
      top == IF st = <<>> THEN 0 ELSE st[Len(st)]
      d == IF top = 0 THEN 0 ELSE LX(L[i]) - LX(L[top])
  IN IF top = 0 THEN [ h EXCEPT !.st = <<i>> ]
     ELSE IF LY(L[top]) >= LY(L[i]) - DistTol THEN [ h EXCEPT !.st = st ]
     ELSE IF Abs(d) * 1000 <= acwK
          THEN [ h EXCEPT !.st = Append(SubSeq(st, 1, Len(st) - 1), i), !.nsl[top] = i, !.psl[i] = top,
                          !.par[i] = h.par[top] ]
          ELSE [ h EXCEPT !.st = Append(st, i), !.par[i] = top ]

HScan(L, acwK) == FoldLeft(LAMBDA h, i : HStep(L, acwK, h, i), HInit(Len(L)), [ i \in 1..Len(L) |-> i ])

HierarchySound(L, acwK, h) ==
  \A i \in 1..Len(L) :
    /\ h.par[i] # 0 => /\ h.par[i] < i
                       \* siblings inherit the parent, so that only the first one is certain to be indented
                       /\ (h.psl[i] = 0 => (LX(L[i]) - LX(L[h.par[i]])) * 1000 > acwK)
                       /\ LY(L[h.par[i]]) < LY(L[i])
    /\ h.psl[i] # 0 => /\ h.psl[i] < i /\ h.nsl[h.psl[i]] = i /\ h.par[h.psl[i]] = h.par[i]
                       /\ Abs(LX(L[i]) - LX(L[h.psl[i]])) * 1000 <= acwK
    /\ h.nsl[i] # 0 => h.psl[h.nsl[i]] = i

-----------------------------------------------------------------------------
(* Conformance: text lines *)
OwnWords(D, s) == LET e == SelectSeq(D.segs[s].e, LAMBDA x : x[1] = "w") IN [ i \in 1..Len(e) |-> e[i][2] ]

\* The order of the rotations is free: the observed lines ls, from position k, are those of the rotations rs in some order.
RECURSIVE Arranged(_, _, _, _)
Arranged(E, exp, rs, ls) ==
  IF rs = {} THEN ls = <<>>
  ELSE \E r \in rs :
         /\ Len(ls) >= Len(exp[r])
         /\ \A i \in 1..Len(exp[r]) : IsPerm(E.lines[ls[i]].w, exp[r][i].ws)
         /\ Arranged(E, exp, rs \ {r}, SubSeq(ls, Len(exp[r]) + 1, Len(ls)))

\* The expected line that has the same words as the observed line l.
ExpOf(E, exp, l) ==
  LET r == CHOOSE r \in DOMAIN exp : \E i \in 1..Len(exp[r]) : Ran(exp[r][i].ws) = Ran(E.lines[l].w)
  IN <<r, CHOOSE i \in 1..Len(exp[r]) : Ran(exp[r][i].ws) = Ran(E.lines[l].w)>>
SameProps(E, exp, ls) ==
  \A k \in 1..Len(ls) : LET q == ExpOf(E, exp, ls[k])  x == exp[q[1]][q[2]]  l == E.lines[ls[k]]
                         IN l.r = x.r /\ l.wm = x.wm

LinesOfSeg(D, E, s, p, cl, exp) ==
  LET W == D.words
      ls == E.segs[s].l
  IN \A k \in 1..Len(ls) :
          LET l == E.lines[ls[k]]
              q == ExpOf(E, exp, ls[k])
              x == exp[q[1]][q[2]]
              n == Len(l.w)
              cs == Flat([ i \in 1..n |-> W[l.w[i]].c ])
          IN /\ ChkV("lines: order of the words",
                     \A i \in 1..(n - 1) : IF InReadingDir(x.r) THEN RotL(W[l.w[i]]) <= RotL(W[l.w[i + 1]])
                                           ELSE RotL(W[l.w[i]]) >= RotL(W[l.w[i + 1]]), <<p, s, k, l.w, x>>)
             /\ ChkV("lines: text", l.t = JoinWith([ i \in 1..n |-> W[l.w[i]].t ], " "), <<p, s, k>>)
             /\ ChkV("lines: box", l.b = x.b, <<p, s, k, x.b>>)
             /\ ChkV("lines: rotation, writing mode and page", l.r = x.r /\ l.wm = x.wm /\ l.pg = x.pg, <<p, s, k>>)
             /\ (cs # <<>> =>
                  /\ ChkV("lines: font name", IsMode(l.f, [ i \in 1..Len(cs) |-> D.chars[cs[i]].f ]), <<p, s, k>>)
                  /\ ChkV("lines: font size", IsMode(l.s, [ i \in 1..Len(cs) |-> D.chars[cs[i]].s ]), <<p, s, k>>)
                  /\ ChkV("lines: largest font size", l.ms = MaxSeq([ i \in 1..Len(cs) |-> D.chars[cs[i]].s ]), <<p, s, k>>)
                  /\ ChkV("lines: base line", IsMode(l.bs, [ i \in 1..Len(cs) |-> D.chars[cs[i]].bs ]), <<p, s, k>>))
             /\ ChkV("lines: segment", l.sg = s, <<p, s, k>>)
             /\ ChkV("lines: back reference of the words", \A i \in 1..n : E.words[l.w[i]].ln = ls[k], <<p, s, k>>)
             /\ LET first == q[2] = 1  last == q[2] = Len(exp[q[1]])
                IN ChkV("lines: previous and next line",
                        l.pl = (IF first THEN 0 ELSE ls[k - 1]) /\ l.nl = (IF last THEN 0 ELSE ls[k + 1]), <<p, s, k, l.pl, l.nl>>)

LinesSeg(D, E, s, p) ==
  LET cl == Clusters(D.words, OwnWords(D, s))
      all == [ r \in Rotations(cl) |-> LinesOfRot(D.words, D.st.acwK, cl, r) ]
      some == [ r \in Rotations(cl) |-> CHOOSE x \in all[r] : TRUE ]
      \* Where ties leave several results, the one that fits the observed lines.
      exps == IF \A r \in Rotations(cl) : Cardinality(all[r]) = 1 THEN { some }
              ELSE { e \in [ Rotations(cl) -> UNION { all[r] : r \in Rotations(cl) } ] : \A r \in Rotations(cl) : e[r] \in all[r] }
      fits == { e \in exps : Arranged(E, e, Rotations(cl), E.segs[s].l) }
      sure == { e \in fits : SameProps(E, e, E.segs[s].l) }
  IN /\ ChkV("lines: the lines of the segment", fits # {}, <<p, s, some>>)
     /\ LinesOfSeg(D, E, s, p, cl, CHOOSE e \in (IF sure # {} THEN sure ELSE fits) : TRUE)


LinesPost(D, E) ==
  LET all == Flat([ p \in 1..Len(D.pages) |-> Flat([ i \in 1..Len(D.pages[p].sg) |-> E.segs[D.pages[p].sg[i]].l ]) ])
  IN /\ Chk("lines: words, glyphs and segments stay",
            /\ Len(D.words) = Len(E.words) /\ Len(D.segs) = Len(E.segs)
            /\ \A i \in 1..Len(D.words) : D.words[i].b = E.words[i].b /\ D.words[i].t = E.words[i].t /\ D.words[i].c = E.words[i].c
            /\ \A i \in 1..Len(D.segs) : D.segs[i].b = E.segs[i].b /\ D.segs[i].e = E.segs[i].e)
     /\ \A p \in 1..Len(D.pages) : \A i \in 1..Len(D.pages[p].sg) : LinesSeg(D, E, D.pages[p].sg[i], p)
     /\ Chk("lines: ranks", \A k \in 1..Len(all) : E.lines[all[k]].rk = k - 1)
     /\ Chk("lines: no word is on two lines", NoDup(Flat([ k \in 1..Len(all) |-> E.lines[all[k]].w ])))

TrimPost(D, E) ==
  \A p \in 1..Len(D.pages) : \A i \in 1..Len(D.pages[p].sg) :
    LET s == D.pages[p].sg[i]
        ls == [ k \in 1..Len(E.segs[s].l) |-> E.lines[E.segs[s].l[k]] ]
    IN IF OwnWords(D, s) = <<>> THEN Chk("trim box: untouched without words", E.segs[s].tb = D.segs[s].tb)
       ELSE IF ls = <<>> THEN ChkV("trim box", E.segs[s].tb = D.segs[s].b, <<p, s>>)
       ELSE ChkV("trim box", /\ E.segs[s].tb[1] = D.segs[s].b[1] /\ E.segs[s].tb[2] = D.segs[s].b[2]
                             /\ E.segs[s].tb[4] = D.segs[s].b[4] /\ E.segs[s].tb[3] \in TrimRights(D.segs[s], ls),
                 <<p, s, TrimRights(D.segs[s], ls)>>)

HierarchyPost(D, E) ==
  \A p \in 1..Len(E.pages) :
    LET ids == Flat([ i \in 1..Len(E.pages[p].sg) |-> E.segs[E.pages[p].sg[i]].l ])
        L == [ k \in 1..Len(ids) |-> E.lines[ids[k]] ]
        h == HScan(L, D.st.acwK)
        id(k) == IF k = 0 THEN 0 ELSE ids[k]
    IN \A k \in 1..Len(ids) :
         /\ ChkV("hierarchy: parent line", L[k].par = id(h.par[k]), <<p, k, h.par[k]>>)
         /\ ChkV("hierarchy: previous sibling line", L[k].psl = id(h.psl[k]), <<p, k, h.psl[k]>>)
         /\ ChkV("hierarchy: next sibling line", L[k].nsl = id(h.nsl[k]), <<p, k, h.nsl[k]>>)

-----------------------------------------------------------------------------
(* Conformance: sub- and superscripts *)
Script(st, line, c) ==
  IF c.s >= st.mfs - ScriptFsTol THEN "none"
  ELSE IF c.bs < line.bs - BaseTol THEN "sup"
  ELSE IF c.bs > line.bs + BaseTol THEN "sub"
  ELSE "none"

\* The box around the boxes bs; none if there is no box.
ScriptsPost(D, E) ==
  LET lines == Flat([ p \in 1..Len(D.pages) |-> Flat([ i \in 1..Len(D.pages[p].sg) |-> D.segs[D.pages[p].sg[i]].l ]) ])
      charsOf(l) == Flat([ i \in 1..Len(D.lines[l].w) |-> D.words[D.lines[l].w[i]].c ])
      seen == Ran(Flat([ k \in 1..Len(lines) |-> charsOf(lines[k]) ]))
  IN /\ \A k \in 1..Len(lines) :
          LET l == lines[k]
              cs == charsOf(l)
              sc(i) == Script(D.st, D.lines[l], D.chars[cs[i]])
              plain == SelectSeq(cs, LAMBDA c : Script(D.st, D.lines[l], D.chars[c]) = "none")
          IN /\ \A i \in 1..Len(cs) :
                  /\ ChkV("scripts: superscript", E.chars[cs[i]].sup = (sc(i) = "sup"), <<l, cs[i]>>)
                  /\ ChkV("scripts: subscript", E.chars[cs[i]].sub = (sc(i) = "sub"), <<l, cs[i]>>)
             /\ (plain # <<>> => ChkV("scripts: base box of the line",
                     E.lines[l].bb = UnionSeq([ i \in 1..Len(plain) |-> D.chars[plain[i]].b ]), <<l, plain>>))
             /\ (plain = <<>> => ChkV("scripts: no base box without base glyphs", E.lines[l].bb = D.lines[l].bb, l))
             /\ ChkV("scripts: nothing else", E.lines[l].b = D.lines[l].b /\ E.lines[l].w = D.lines[l].w
                     /\ E.lines[l].bs = D.lines[l].bs /\ E.lines[l].t = D.lines[l].t, l)
     /\ Chk("scripts: glyphs outside of lines", \A c \in (1..Len(D.chars)) \ seen :
              E.chars[c].sup = D.chars[c].sup /\ E.chars[c].sub = D.chars[c].sub)
=============================================================================
