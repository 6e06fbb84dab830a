------------------------------- MODULE Visual -------------------------------
(* The visualization: a copy of a PDF file to which annotations are added, one group per chosen kind of elements.

   The coordinates of elements are relative to the upper left corner of the page as it is displayed; those of annotations
   are coordinates of the file (the media box m = <<x1, y1, x2, y2>>, y upwards), before the page is rotated by rot.
   An annotation is a record: st (square, circle, line, text), r (rectangle), c (color of the stroke), f (color of the
   inside), v (the end points of a line), t (text). *)
EXTENDS Base

RoleNames == << "paragraph", "reference", "marginal", "footnote", "heading", "formula", "title", "author-info", "abstract", "date",
                "caption", "table", "other", "toc" >>
Red == <<100, 0, 0>>
Blue == <<0, 0, 100>>
LightBlue == <<50, 50, 100>>
Grey == <<70, 70, 70>>

\* The displayed position (x, y) in the file, and the file's position on the display.
InFile(m, rot, x, y) == CASE rot = 0 -> << m[1] + x, m[4] - y >>
                          [] rot = 90 -> << m[1] + y, m[2] + x >>
                          [] rot = 180 -> << m[3] - x, m[2] + y >>
                          [] rot = 270 -> << m[3] - y, m[4] - x >>
OnDisplay(m, rot, x, y) == CASE rot = 0 -> << x - m[1], m[4] - y >>
                             [] rot = 90 -> << y - m[2], x - m[1] >>
                             [] rot = 180 -> << m[3] - x, y - m[2] >>
                             [] rot = 270 -> << m[4] - y, m[3] - x >>
Normal(p, q) == << Min2(p[1], q[1]), Min2(p[2], q[2]), Max2(p[1], q[1]), Max2(p[2], q[2]) >>
RectInFile(g, b) == Normal(InFile(g.m, g.rot, b[1], b[2]), InFile(g.m, g.rot, b[3], b[4]))
\* Flat boxes are made visible.
Visible(r) == << r[1], r[2], IF r[3] - r[1] < Pt THEN r[3] + Pt ELSE r[3], IF r[4] - r[2] < Pt THEN r[4] + Pt ELSE r[4] >>

Square(g, b, c) == [ st |-> "square", r |-> Visible(RectInFile(g, b)), c |-> c, f |-> <<>>, v |-> <<>>, t |-> "" ]
Disc(st, p, rad, c) == [ st |-> st, r |-> << p[1] - rad, p[2] - rad, p[1] + rad, p[2] + rad >>, c |-> c, f |-> c, v |-> <<>>, t |-> "" ]
Text(r, t) == [ st |-> "text", r |-> r, c |-> <<>>, f |-> <<>>, v |-> <<>>, t |-> t ]
Segment(p, q, c) == [ st |-> "line", r |-> Normal(p, q), c |-> c, f |-> <<>>, v |-> p \o q, t |-> "" ]
Number(p, rad, n) == Text(<< p[1] - rad, p[2] - rad, p[1] + rad, p[2] + (3 * rad) \div 5 >>, ToString(n))

Radius == 5 * Pt
Boxes(g, xs, c) == Map(xs, LAMBDA x : Square(g, x.b, c))
Mid(g, b) == InFile(g.m, g.rot, (b[1] + b[3]) \div 2, (b[2] + b[4]) \div 2)
Role(g, x) == LET p == InFile(g.m, g.rot, x.b[1], x.b[2]) IN Text(<< p[1], p[2], p[1] + 100 * Pt, p[2] + 7 * Pt >>, RoleNames[x.role + 1])
Circle(g, x, n) == LET p == Mid(g, x.b) IN << Disc("circle", p, Radius, Blue), Number(p, Radius, n) >>
\* The order of the blocks: a line between each block and the next, and their numbers, if there are several.
ReadingOrder(g, bs) ==
  Boxes(g, bs, Blue) \o Map(bs, LAMBDA x : Role(g, x))
  \o Flat([ i \in 1..(Len(bs) - 1) |-> << Segment(Mid(g, bs[i].b), Mid(g, bs[i + 1].b), LightBlue) >> ])
  \o (IF Len(bs) < 2 THEN <<>> ELSE Flat([ i \in 1..Len(bs) |-> Circle(g, bs[i], i) ]))
\* A cut: a line with its id; a chosen one with its number at its start. The id is some text of three characters.
AnyId == "***"
Cut(g, c, n) ==
  LET p == InFile(g.m, g.rot, c.b[1], c.b[2])
      q == InFile(g.m, g.rot, c.b[3], c.b[4])
      x == IF c.dir = "x" THEN q[1] - 10 * Pt ELSE q[1] - 20 * Pt
      y == IF c.dir = "x" THEN q[2] - 10 * Pt ELSE q[2]
  IN << Segment(p, q, IF c.ch THEN Blue ELSE Grey) >>
     \o (IF c.ch THEN << Disc("square", p, Radius, LightBlue), Number(p, Radius, n) >> ELSE <<>>)
     \o << Text(<< x, y, x + 20 * Pt, y + 10 * Pt >>, AnyId) >>
Cuts(g, cs) == Flat([ i \in 1..Len(cs) |-> Cut(g, cs[i], Cardinality({ k \in 1..i : cs[k].ch })) ])

Pick(table, ids) == Map(ids, LAMBDA i : table[i])
\* What is drawn for a kind of elements on page n of the document D (g: the page in the file).
Drawn(D, n, g, kind) ==
  LET P == D.pages[n]
      figs == Pick(D.figs, P.fg) IN
  CASE kind = "characters" -> Boxes(g, Pick(D.chars, P.c), Blue)
    [] kind = "figures" -> Boxes(g, figs, Blue)
    [] kind = "shapes" -> Boxes(g, Pick(D.shapes, P.sh), Blue)
    [] kind = "graphics" -> Boxes(g, Pick(D.graphics, P.gr), Blue)
    [] kind = "words" -> Boxes(g, Pick(D.words, P.w), Blue)
    [] kind = "text-lines" -> Boxes(g, Pick(D.lines, Flat(Map(P.sg, LAMBDA s : D.segs[s].l))), Blue)
    [] kind = "text-blocks" -> Boxes(g, Pick(D.blocks, P.bl), Red) \o Map(Pick(D.blocks, P.bl), LAMBDA x : Role(g, x))
    [] kind = "segments" -> Boxes(g, Pick(D.segs, P.sg), Blue) \o Flat([ i \in 1..Len(P.sg) |-> Boxes(g, Pick(D.blocks, D.segs[P.sg[i]].bl), Red) ])
    [] kind = "reading-order" -> ReadingOrder(g, Pick(D.blocks, P.bl))
    [] kind = "segment-cuts" -> Cuts(g, Pick(D.cuts, P.bc))
    [] kind = "reading-order-cuts" -> Cuts(g, Pick(D.cuts, P.rc))
Order == << "characters", "figures", "shapes", "graphics", "words", "text-lines", "text-blocks", "segments", "reading-order", "segment-cuts",
            "reading-order-cuts" >>
AllDrawn(D, n, g, kinds) == Flat(Map(Filter(Order, LAMBDA k : k \in kinds), LAMBDA k : Drawn(D, n, g, k)))

-----------------------------------------------------------------------------
(* Comparing with the annotations of a file: numbers are written with a limited number of digits. *)
Close(p, q) == Len(p) = Len(q) /\ \A i \in 1..Len(p) : Abs(p[i] - q[i]) <= 2
SameText(e, o) == IF e = AnyId THEN Len(o) = 3 ELSE e = o
Same(e, o) == e.st = o.st /\ Close(e.r, o.r) /\ e.c = o.c /\ e.f = o.f /\ Close(e.v, o.v) /\ SameText(e.t, o.t)
Alike(e, f) == e.st = f.st /\ Close(e.r, f.r) /\ e.c = f.c /\ e.f = f.f /\ Close(e.v, f.v) /\ e.t = f.t

BagOk(n, kinds, want, got) ==
  /\ \A i \in 1..Len(want) :
       ChkV("visualization: annotation",
            Cardinality({ k \in 1..Len(got) : Same(want[i], got[k]) }) >= Cardinality({ k \in 1..Len(want) : Alike(want[i], want[k]) }),
            <<n, kinds, want[i]>>)
  /\ \A k \in 1..Len(got) :
       ChkV("visualization: unexpected annotation", \E i \in 1..Len(want) : Same(want[i], got[k]), <<n, kinds, got[k]>>)
PageOk(D, n, g, o, kinds) ==
  LET want == Force(g.an \o AllDrawn(D, n, g, kinds))
      got == o.an
  IN /\ ChkV("visualization: page", o.m = g.m /\ o.rot = g.rot /\ o.c = g.c, <<n, o.m, o.rot>>)
     /\ ChkV("visualization: number of annotations", Len(got) = Len(want), <<n, kinds, Len(got), Len(want)>>)
     \* The order does not matter; the usual one is compared first because it is faster.
     /\ \/ \A i \in 1..Len(want) : Same(want[i], got[i])
        \/ BagOk(n, kinds, want, got)

\* D: the document the program has drawn, before and file: the pages of the PDF file and of the visualization.
VisualOk(D, before, file, kinds) ==
  /\ ChkV("visualization: readable", before.ok /\ file.ok, <<before.ok, file.ok>>)
  /\ ChkV("visualization: pages", Len(file.pages) = Len(before.pages) /\ Len(file.pages) = Len(D.pages), <<Len(file.pages), Len(D.pages)>>)
  /\ \A n \in 1..Len(D.pages) : PageOk(D, n, before.pages[n], file.pages[n], kinds)
=============================================================================
