------------------------------ MODULE Content -------------------------------
(* The content streams of PDF pages: the graphics and text state, the operators that change it, and the glyphs, shapes
   and images they show; and what reading a PDF has to extract from them.

   Here lengths are integers in 1/1000 pt, matrices <<a, b, c, d, e, f>> have integers a..d and lengths e, f, font sizes
   are in 1/100 pt, glyph widths in 1/1000 em and colors in 1/1000. A point (x, y) of a space with the matrix m is
   (x a + y c + e, x b + y d + f). *)
EXTENDS Base

TP == INSTANCE Type1

CONSTANT CharMap     \* glyph name -> <<code point, text>>

Apply(m, p) == << p[1] * m[1] + p[2] * m[3] + m[5], p[1] * m[2] + p[2] * m[4] + m[6] >>
\* First m, then n.
Mul(m, n) == << m[1] * n[1] + m[2] * n[3], m[1] * n[2] + m[2] * n[4], m[3] * n[1] + m[4] * n[3], m[3] * n[2] + m[4] * n[4] >>
             \o Apply(n, << m[5], m[6] >>)
BoxOf(ps) == FoldLeft(LAMBDA b, p : Union(b, p \o p), ps[1] \o ps[1], ps)
Meet(b, c) == << Max2(b[1], c[1]), Max2(b[2], c[2]), Min2(b[3], c[3]), Min2(b[4], c[4]) >>
Corners(b) == << <<b[1], b[2]>>, <<b[3], b[2]>>, <<b[3], b[4]>>, <<b[1], b[4]>> >>

\* The space of a page: (0, 0) is its upper left corner, y grows downwards, and the page is turned clockwise by rot.
PageCtm(box, rot) ==
  LET k == [ i \in 1..4 |-> box[i] * 1000 ]
  IN CASE rot = 0 -> << 1, 0, 0, -1, -k[1], k[4] >>
       [] rot = 90 -> << 0, 1, 1, 0, -k[2], -k[1] >>
       [] rot = 180 -> << -1, 0, 0, 1, k[3], -k[2] >>
       [] rot = 270 -> << 0, -1, -1, 0, k[4], k[3] >>
PageClip(box, rot) == BoxOf([ i \in 1..4 |-> Apply(PageCtm(box, rot), Corners([ j \in 1..4 |-> box[j] * 1000 ])[i]) ])

GState0(box, rot) ==
  [ ctm |-> PageCtm(box, rot), clip |-> PageClip(box, rot), f |-> 0, z |-> 0, tc |-> 0, tw |-> 0, tz |-> 100, tl |-> 0,
    ts |-> 0, rgb |-> <<0, 0, 0>>, ca |-> 1000, tm |-> <<1, 0, 0, 1, 0, 0>>, line |-> <<0, 0>>, cur |-> <<0, 0>> ]

(* The state of the interpreter: the graphics state, the stack of saved ones, the current path (its points, and a moved
   to point that nothing was drawn from yet), whether the path is to clip, what was shown, and the fonts it was shown with. *)
Start(box, rot, out) ==
  [ g |-> GState0(box, rot), stack |-> <<>>, path |-> <<>>, mv |-> <<>>, w |-> FALSE, out |-> out, used |-> <<>> ]

MoveLine(g, p) == [ g EXCEPT !.line = p, !.cur = Apply(g.tm, p) ]

-----------------------------------------------------------------------------
(* Showing a glyph *)
White == (9..13) \cup { 32, 160 }
Unicodes(it) == IF Len(it.u) = 1 /\ it.n # "" /\ it.n \in DOMAIN CharMap THEN << CharMap[it.n][1] >> ELSE it.u
TextOf(it) == IF Len(it.u) = 1 /\ it.n # "" /\ it.n \in DOMAIN CharMap THEN CharMap[it.n][2] ELSE it.t
IsWhite(it) == TextOf(it) # "" /\ \A i \in 1..Len(Unicodes(it)) : Unicodes(it)[i] \in White

Advance(g, it) == (((it.w * g.z) \div 100) * g.tz) \div 100

\* The rotation of text with the matrix (a, b, c, d) of the page, y downwards: 0 upright, 1 turned clockwise, ...
Rotation(a, b, c, d) ==
  IF Abs(a * d) > Abs(b * c) THEN (IF a > 0 \/ d < 0 THEN 0 ELSE 2) ELSE (IF c > 0 THEN 1 ELSE 3)

Sign(x) == IF x < 0 THEN -1 ELSE IF x > 0 THEN 1 ELSE 0

(* The box and the base line. Boxes of horizontal text reach from 0.95 font sizes above the base line to 0.35 below, and
   from the origin of the glyph to that of the next one; boxes of vertical text are squares. *)
GlyphBox(rot, wm, o, n, z) ==
  LET a == (19 * z) \div 2   d == (7 * z) \div 2   q == 10 * z
  IN IF wm = 1
     THEN CASE rot = 0 -> << o[1] - q, o[2] - q, o[1], o[2] >>
            [] rot = 1 -> << o[1], o[2] - q, o[1] + q, o[2] >>
            [] rot = 2 -> << o[1], o[2], o[1] + q, o[2] + q >>
            [] rot = 3 -> << o[1] - q, o[2], o[1], o[2] + q >>
     ELSE CASE rot = 0 -> << o[1], o[2] - a, n[1], o[2] + d >>
            [] rot = 1 -> << o[1] - d, o[2], o[1] + a, n[2] >>
            [] rot = 2 -> << n[1], o[2] - d, o[1], o[2] + a >>
            [] rot = 3 -> << o[1] - a, n[2], o[1] + d, o[2] >>
GlyphBase(rot, wm, o) == IF wm = 1 THEN 0 ELSE IF rot \in {0, 2} THEN o[2] ELSE o[1]

\* A glyph whose outline in the embedded font program (corner to corner) is higher or lower than the box of the font by more
\* than 0.1 pt (upright text; the lengths of the program are exact in 1/1000 pt here).
OutlineBox(f, it, rot, m, z, b) ==
  IF "t1" \notin DOMAIN f \/ rot # 0 THEN <<>>
  ELSE LET gs == Filter(f.t1.glyphs, LAMBDA x : x.n = it.n)
       IN IF gs = <<>> THEN <<>>
          ELSE LET o == TP!GlyphBBox(gs[Len(gs)].p, f.t1.subrs)
                   fm == f.t1.fm
                   U(v, w) == (((v * fm[1] + w * fm[3]) \div 100) * (z \div 100)) \div 10
                   V(v, w) == (((v * fm[2] + w * fm[4]) \div 100) * (z \div 100)) \div 10
                   e == BoxOf(<< << m[5] + U(o[1], o[2]), m[6] - V(o[1], o[2]) >>, << m[5] + U(o[3], o[4]), m[6] - V(o[3], o[4]) >> >>)
               IN IF e[2] < b[2] - 101 \/ e[4] > b[4] + 101 THEN << e >>
                  ELSE IF e[2] <= b[2] - 99 \/ e[4] >= b[4] + 99 THEN << b, e >> ELSE <<>>

Glyph(S, it, fonts) ==
  LET g == S.g
      f == fonts[g.f]
      m == Mul([ g.tm EXCEPT ![5] = g.cur[1], ![6] = g.cur[2] ], g.ctm)
      sx == Sign(g.z) * f.sx
      sy == Sign(g.z) * f.sy
      rot == (Rotation(m[1] * sx, m[2] * sx, m[3] * sy, m[4] * sy) + f.wm) % 4
      o == Apply(m, << 0, g.ts >>)
      n == Apply(m, << Advance(g, it), 0 >>)
      z == Abs(g.z) * (Abs(m[3]) + Abs(m[4]))
      b == GlyphBox(rot, f.wm, o, n, z)
      ob == OutlineBox(f, it, rot, << m[1], m[2], m[3], m[4], o[1], o[2] >>, z, b)
  IN [ k |-> "char", clip |-> g.clip, b |-> IF Len(ob) = 1 THEN ob[1] ELSE b, r |-> rot,
       bs |-> IF Len(ob) = 1 THEN ob[1][4] ELSE GlyphBase(rot, f.wm, o), alt |-> IF Len(ob) = 2 THEN ob[2] ELSE <<>>,
       wm |-> f.wm, z |-> z, f |-> g.f, t |-> TextOf(it), u |-> Unicodes(it), n |-> IF f.b8 THEN it.n ELSE "",
       rgb |-> g.rgb, ca |-> g.ca ]

ShowItem(S, it, fonts) ==
  LET g == S.g
      adv == IF it.k = "adj"
             THEN IF fonts[g.f].wm = 1 THEN << 0, -((it.v * g.z) \div 100) >> ELSE << -((((it.v * g.z) \div 100) * g.tz) \div 100), 0 >>
             ELSE IF fonts[g.f].wm = 1 THEN << 0, -10 * g.z + g.tc + it.sp * g.tw >>
             ELSE << Advance(g, it) + ((g.tc + it.sp * g.tw) * g.tz) \div 100, 0 >>
      moved == [ S EXCEPT !.g.cur = << g.cur[1] + adv[1] * g.tm[1] + adv[2] * g.tm[3],
                                       g.cur[2] + adv[1] * g.tm[2] + adv[2] * g.tm[4] >> ]
  IN IF it.k = "adj" \/ IsWhite(it) THEN moved ELSE [ moved EXCEPT !.out = Append(@, Glyph(S, it, fonts)) ]

-----------------------------------------------------------------------------
(* Painting a path and an image *)

\* A painted path is represented by the box of its points that lie inside the clip box (by more than 0.1 pt).
Inside(p, c) == p[1] > c[1] + 100 /\ p[2] > c[2] + 100 /\ p[1] < c[3] - 100 /\ p[2] < c[4] - 100
PathPoints(S) == Map(S.path, LAMBDA p : Apply(S.g.ctm, p))
PaintPath(S, n) ==
  LET ps == Filter(PathPoints(S), LAMBDA p : Inside(p, S.g.clip))
  IN IF ps = <<>> THEN S
     ELSE [ S EXCEPT !.out = @ \o [ i \in 1..n |-> [ k |-> "shape", clip |-> S.g.clip, b |-> BoxOf(ps) ] ] ]
EndPath(S) ==
  LET T == IF S.w /\ S.path # <<>> THEN [ S EXCEPT !.g.clip = Meet(@, BoxOf(PathPoints(S))) ] ELSE S
  IN [ T EXCEPT !.path = <<>>, !.mv = <<>>, !.w = FALSE ]

PaintImage(S) ==
  LET b == BoxOf(Map(Corners(<<0, 0, 1000, 1000>>), LAMBDA p : Apply(S.g.ctm, p)))
      v == Meet(b, S.g.clip)
  IN IF v[3] <= v[1] + 100 \/ v[4] <= v[2] + 100 THEN S
     ELSE [ S EXCEPT !.out = Append(@, [ k |-> "graphic", clip |-> S.g.clip, b |-> v ]) ]

Draw(S, ps) == [ S EXCEPT !.path = @ \o S.mv \o ps, !.mv = <<>> ]

-----------------------------------------------------------------------------
Step(S, op, fonts) ==
  LET o == op.o IN
  CASE o \in {"q"} -> [ S EXCEPT !.stack = Append(@, S.g) ]
    [] o \in {"Q", "endform"} -> [ S EXCEPT !.g = S.stack[Len(S.stack)], !.stack = SubSeq(@, 1, Len(@) - 1) ]
    [] o = "cm" -> [ S EXCEPT !.g.ctm = Mul(op.m, @) ]
    [] o = "form" ->
         LET T == [ S EXCEPT !.stack = Append(@, S.g), !.g.ctm = Mul(op.m, @), !.path = <<>>, !.mv = <<>> ]
         IN [ T EXCEPT !.g.clip = Meet(@, BoxOf(Map(Corners(op.b), LAMBDA p : Apply(T.g.ctm, p)))) ]
    [] o = "m" -> [ S EXCEPT !.mv = << op.p >> ]
    [] o = "l" -> Draw(S, << op.p >>)
    [] o = "c" -> Draw(S, op.ps)
    [] o = "re" -> [ S EXCEPT !.mv = <<>>, !.path = @ \o Corners(<< op.p[1], op.p[2], op.p[1] + op.w, op.p[2] + op.h >>) ]
    [] o = "h" -> Draw(S, <<>>)
    [] o = "close" -> IF S.path = <<>> THEN S ELSE Draw(S, <<>>)
    [] o = "W" -> [ S EXCEPT !.w = TRUE ]
    [] o = "paint" -> EndPath(PaintPath(S, op.n))
    [] o = "img" -> PaintImage(S)
    [] o = "RG" -> [ S EXCEPT !.g.rgb = op.c ]
    [] o = "CA" -> [ S EXCEPT !.g.ca = op.v ]
    [] o = "BT" -> [ S EXCEPT !.g = MoveLine([ @ EXCEPT !.tm = <<1, 0, 0, 1, 0, 0>> ], <<0, 0>>) ]
    [] o = "Tf" -> [ S EXCEPT !.g.f = op.f, !.g.z = op.z ]
    [] o = "par" -> (CASE op.k = "Tc" -> [ S EXCEPT !.g.tc = op.v ]
                      [] op.k = "Tw" -> [ S EXCEPT !.g.tw = op.v ]
                      [] op.k = "TL" -> [ S EXCEPT !.g.tl = op.v ]
                      [] op.k = "Ts" -> [ S EXCEPT !.g.ts = op.v ]
                      [] op.k = "Tz" -> [ S EXCEPT !.g.tz = op.v ])
    [] o = "Td" -> [ S EXCEPT !.g = MoveLine(@, << @.line[1] + op.p[1], @.line[2] + op.p[2] >>) ]
    [] o = "Tm" -> [ S EXCEPT !.g = MoveLine([ @ EXCEPT !.tm = op.m ], <<0, 0>>) ]
    [] o = "Tstar" -> [ S EXCEPT !.g = MoveLine(@, << @.line[1], @.line[2] - @.tl >>) ]
    [] o = "show" -> [ FoldLeft(LAMBDA T, it : ShowItem(T, it, fonts), S, op.g) EXCEPT !.used = Append(@, S.g.f) ]
    [] OTHER -> S

\* Everything the pages show, in order; an element knows its page. And the fonts in the order of their uses.
Run(pages, fonts) ==
  FoldLeft(LAMBDA acc, i :
             LET p == pages[i]
                 S == FoldLeft(LAMBDA T, op : Step(T, op, fonts), Start(p.box, p.rot, <<>>), p.ops)
             IN << acc[1] \o Map(S.out, LAMBDA x : [ el |-> x, pg |-> i ]), acc[2] \o S.used >>,
           << <<>>, <<>> >>, [ i \in 1..Len(pages) |-> i ])
Shown(pages, fonts) == Run(pages, fonts)[1]

-----------------------------------------------------------------------------
(* What was extracted. The observed lengths are in u (1/160 pt), rounded to tenths of a point. *)
Near(u, x) == Abs(u * 25 - x * 4) <= 201
NearBox(bu, bx) == \A i \in 1..4 : Near(bu[i], bx[i])

\* Two clip boxes count as one if their edges differ by no more than 0.1 pt.
SameClip(c1, c2) == \A i \in 1..4 : Abs(c1[i] - c2[i]) <= 100

GlyphOk(c, e, pg, fonts, D) ==
  /\ ~(e.alt # <<>> /\ NearBox(c.b, e.alt) /\ Near(c.bs, e.alt[4])) =>
       /\ ChkV("glyph: box", NearBox(c.b, e.b), <<c.b, e.b>>)
       /\ ChkV("glyph: base line", Near(c.bs, e.bs), <<c.bs, e.bs>>)
  /\ ChkV("glyph: rotation", c.r = e.r, <<c.r, e.r>>)
  /\ ChkV("glyph: writing mode", c.wm = e.wm, <<c.wm, e.wm>>)
  /\ ChkV("glyph: font size", Abs(c.s * 10 - e.z * 16) <= 81, <<c.s, e.z>>)
  /\ ChkV("glyph: text", c.t = e.t /\ c.u = e.u, <<c.t, c.u, e.t, e.u>>)
  /\ ChkV("glyph: name", c.n = e.n, <<c.n, e.n>>)
  /\ ChkV("glyph: font", fonts[e.f].name = "" \/ c.f = fonts[e.f].name, <<c.f, fonts[e.f].name>>)
  /\ ChkV("glyph: color", \A i \in 1..3 : Abs(c.c3[i] - e.rgb[i]) <= 3, <<c.c3, e.rgb>>)
  /\ ChkV("glyph: opacity", Abs(c.op - e.ca) <= 1, <<c.op, e.ca>>)
  /\ ChkV("glyph: page", c.pg = pg, <<c.pg, pg>>)

\* The elements of a page (or figure) of one kind are those shown with that page (and clip box), in order.
Ranked(x) == Force([ i \in 1..Len(x) |-> [ el |-> x[i].el, pg |-> x[i].pg, rk |-> i - 1 ] ])
ListOk(what, ids, tab, exp, Ok(_, _)) ==
  /\ ChkV(what \o ": number", Len(ids) = Len(exp), <<Len(ids), Len(exp)>>)
  /\ \A i \in 1..Len(ids) :
       LET o == tab[ids[i]] IN
       /\ ChkV(what \o ": rank", o.rk = exp[i].rk, <<o.rk, exp[i].rk>>)
       /\ ChkV(what \o ": page", o.pg = exp[i].pg, <<o.pg, exp[i].pg>>)
       /\ Ok(o, exp[i].el)

BoxOk(o, e) == ChkV("box", NearBox(o.b, e.b), <<o.b, e.b>>)

\* The clip boxes other than that of the page, in the order of their first elements.
FigClips(exp, pc) ==
  FoldLeft(LAMBDA acc, x : IF SameClip(x.el.clip, pc) \/ \E i \in 1..Len(acc) : SameClip(acc[i], x.el.clip) THEN acc
                           ELSE Append(acc, x.el.clip), <<>>, exp)

ParsePages(R, D, glyphs, others) ==
  LET fonts == R.fonts
      exp == Ranked(Shown(R.pages, fonts))
      G(o, e) == ~glyphs \/ GlyphOk(o, e, o.pg, fonts, D)
      B(o, e) == ~others \/ BoxOk(o, e)
      Part(what, c, ids, tab, k, Ok(_, _)) == ListOk(what, ids, tab, Filter(c, LAMBDA x : x.el.k = k), Ok)
  IN /\ ChkV("pages", [ i \in 1..Len(D.pages) |-> D.pages[i].num ] = [ i \in 1..Len(R.pages) |-> i ], Len(D.pages))
     /\ \A i \in 1..Len(R.pages) :
          LET P == D.pages[i]
              pc == PageClip(R.pages[i].box, R.pages[i].rot)
              here == Filter(exp, LAMBDA x : x.pg = i)
              own == Filter(here, LAMBDA x : SameClip(x.el.clip, pc))
              clips == FigClips(here, pc)
          IN /\ ChkV("page: clip box", NearBox(P.clip, pc), <<P.clip, pc>>)
             /\ Part("page glyphs", own, P.c, D.chars, "char", G)
             /\ Part("page shapes", own, P.sh, D.shapes, "shape", B)
             /\ Part("page graphics", own, P.gr, D.graphics, "graphic", B)
             /\ ChkV("figures: number", Len(P.fg) = Len(clips), <<Len(P.fg), Len(clips)>>)
             /\ \A j \in 1..Len(clips) :
                  LET F == D.figs[P.fg[j]]
                      mine == Filter(here, LAMBDA x : SameClip(x.el.clip, clips[j]))
                      bs == Map(F.c, LAMBDA x : D.chars[x].b) \o Map(F.sh, LAMBDA x : D.shapes[x].b)
                            \o Map(F.gr, LAMBDA x : D.graphics[x].b)
                  IN /\ ChkV("figure: clip box", NearBox(F.clip, clips[j]), <<F.clip, clips[j]>>)
                     /\ ChkV("figure: page", F.pg = i, F.pg)
                     /\ Part("figure glyphs", mine, F.c, D.chars, "char", G)
                     /\ Part("figure shapes", mine, F.sh, D.shapes, "shape", B)
                     /\ Part("figure graphics", mine, F.gr, D.graphics, "graphic", B)
                     /\ others => ChkV("figure: box", bs # <<>> /\ F.b = UnionSeq(bs), <<F.b, bs>>)

\* Fonts without a name get one that is theirs alone; the others have the name the file gives them.
FontNames(R, D) ==
  LET fonts == R.fonts
      exp == Ranked(Shown(R.pages, fonts))
      at(rk) == CHOOSE i \in 1..Len(D.chars) : D.chars[i].rk = rk
      gs == Filter(exp, LAMBDA x : x.el.k = "char")
      uses == { << x.el.f, D.chars[at(x.rk)].f >> : x \in Ran(gs) }
  IN /\ ChkV("font names", \A p \in uses : \A q \in uses :
               /\ p[1] = q[1] => p[2] = q[2]
               /\ p[2] = q[2] /\ (fonts[p[1]].name = "" \/ fonts[q[1]].name = "") => p[1] = q[1], uses)
     /\ ChkV("fonts are listed", \A p \in uses : \E i \in 1..Len(D.fonts) : D.fonts[i].key = p[2] /\ D.fonts[i].name = p[2],
             uses)

(* The font information. It is that of the first font shown with a name: the name without the prefix (in lower case), the
   same up to the first hyphen and without digits, and the weight and style by the name, the flags and the descriptor. *)
Bit(flags, k) == (flags \div k) % 2 = 1
Has(s, w) == \E i \in 1..(Len(s) - Len(w) + 1) : SubSeq(s, i, i + Len(w) - 1) = w
WeightOf(f, lower) ==
  IF Has(lower, "black") THEN 800
  ELSE IF Has(lower, "bold") \/ Bit(f.flags, 262144) THEN 700
  ELSE IF f.weight > 0 THEN f.weight ELSE 400
Norm(lower) == LET ps == { i \in 1..Len(lower) : SubSeq(lower, i, i) = "+" }
               IN IF ps = {} THEN lower ELSE SubSeq(lower, (CHOOSE i \in ps : \A j \in ps : i <= j) + 1, Len(lower))
BaseName(norm) ==
  LET hy == { i \in 1..Len(norm) : SubSeq(norm, i, i) = "-" }
      n == IF hy = {} THEN Len(norm) ELSE (CHOOSE i \in hy : \A j \in hy : i <= j) - 1
  IN FoldLeft(LAMBDA acc, i : IF SubSeq(norm, i, i) \in { "0", "1", "2", "3", "4", "5", "6", "7", "8", "9" } THEN acc
                              ELSE acc \o SubSeq(norm, i, i), "", [ i \in 1..n |-> i ])
FontInfoPost(R, D) ==
  LET fonts == R.fonts
      used == Run(R.pages, fonts)[2]
      names == { fonts[used[i]].name : i \in 1..Len(used) }
      first(n) == fonts[used[CHOOSE i \in 1..Len(used) : fonts[used[i]].name = n
                                                        /\ \A j \in 1..(i - 1) : fonts[used[j]].name # n]]
      nameless == { used[i] : i \in { j \in 1..Len(used) : fonts[used[j]].name = "" } }
  IN /\ ChkV("number of fonts", Len(D.fonts) = Cardinality(names \ {""}) + Cardinality(nameless), <<Len(D.fonts), names>>)
     /\ \A n \in names \ {""} : \E i \in 1..Len(D.fonts) :
          LET d == D.fonts[i]
              f == first(n)
          IN /\ d.key = n
             /\ ChkV("font: name", d.name = n, d)
             /\ ChkV("font: normalized name", d.norm = Norm(f.lower), <<d.norm, n>>)
             /\ ChkV("font: base name", d.basen = BaseName(Norm(f.lower)), <<d.basen, n>>)
             /\ ChkV("font: weight", d.weight = (IF "t1" \in DOMAIN f THEN TP!ProgramWeight(f.t1, WeightOf(f, f.lower))
                                                ELSE WeightOf(f, f.lower)), <<d.weight, f>>)
             /\ ChkV("font: italic", d.italic = (Bit(f.flags, 64) \/ Has(f.lower, "italic")
                                                \/ ("t1" \in DOMAIN f /\ f.t1.angle # 0)), <<d.italic, f>>)
             /\ ChkV("font: type 3", d.type3 = f.t3, <<d.type3, f>>)
     /\ Cardinality({ i \in 1..Len(D.fonts) : D.fonts[i].key = D.fonts[i].name /\ D.fonts[i].type3 }) >= Cardinality(nameless)

GlyphsPost(R, D) == Chk("read", R.rc = 0) /\ ParsePages(R, D, TRUE, FALSE) /\ FontNames(R, D)
FiguresPost(R, D) == Chk("read", R.rc = 0) /\ ParsePages(R, D, FALSE, TRUE)
=============================================================================
