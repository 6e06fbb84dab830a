----------------------------- MODULE MCContent ------------------------------
(* The interpreter of content streams under every sequence of at most N operators of an alphabet: "gfx" (the graphics
   state, clip paths, forms, painted paths, images, text in between) or "text" (the text state and the operators that
   show text). The histories are replayed on the real parser, one page each. *)
EXTENDS Content, Json

CONSTANTS N, Alphabet, Box, Rot

Map0 == [ none |-> <<0, "">> ]
MBox == <<10, 20, 610, 800>>
Fonts == << [ sx |-> 1, sy |-> 1, wm |-> 0, b8 |-> TRUE, name |-> "Fa" ], [ sx |-> 1, sy |-> 1, wm |-> 1, b8 |-> FALSE, name |-> "Fb" ] >>
It(c) == CASE c = "a" -> [ k |-> "g", w |-> 600, sp |-> 0, u |-> <<97>>, t |-> "a", n |-> "a", c |-> 97 ]
           [] c = "b" -> [ k |-> "g", w |-> 1000, sp |-> 0, u |-> <<98>>, t |-> "b", n |-> "b", c |-> 98 ]
           [] c = " " -> [ k |-> "g", w |-> 200, sp |-> 1, u |-> <<32>>, t |-> " ", n |-> "space", c |-> 32 ]
Show(cs) == << [ o |-> "show", g |-> Map(cs, LAMBDA c : IF c = "400" THEN [ k |-> "adj", v |-> 400 ] ELSE It(c)) ] >>
Tf(f, z) == << [ o |-> "Tf", f |-> f, z |-> z ] >>
Par(k, v) == << [ o |-> "par", k |-> k, v |-> v ] >>
Tm(m) == << [ o |-> "Tm", m |-> m ] >>
Td(x, y) == << [ o |-> "Td", p |-> <<x, y>> ] >>
Op(o) == << [ o |-> o ] >>
Cm(m) == << [ o |-> "cm", m |-> m ] >>
Re(x, y, w, h) == << [ o |-> "re", p |-> <<x, y>>, w |-> w, h |-> h ] >>
Paint(k, n) == << [ o |-> "paint", k |-> k, n |-> n ] >>
ClipTo(x, y, w, h) == Re(x, y, w, h) \o Op("W") \o Paint("n", 0)

TextOps ==
  << Tf(1, 2000), Tf(2, 1000), Tf(1, -1000), Par("Tc", 2000), Par("Tw", 4000), Par("Tz", 50), Par("TL", 12000), Par("Ts", 3000),
     Td(30000, 4000), Par("TL", 10000) \o Td(0, -10000), Tm(<<0, 1, -1, 0, 150000, 150000>>), Tm(<<2, 0, 0, 2, 90000, 300000>>),
     Op("Tstar"), Op("ET") \o Op("BT"), Op("ET") \o Cm(<<1, 0, 0, 1, 7000, 9000>>) \o Op("BT") \o Tf(2, 1200),
     Show(<<"a", "b">>), Show(<<"a", " ", "b">>), Show(<<"a", "400", "b">>) >>
GfxOps ==
  << Op("q"), Op("Q"), Cm(<<1, 0, 0, 1, 20000, 10000>>), Cm(<<2, 0, 0, 1, 0, 0>>), Cm(<<0, 1, -1, 0, 300000, 0>>),
     ClipTo(40000, 40000, 200000, 300000), ClipTo(100000, 20000, 80000, 100000),
     << [ o |-> "RG", c |-> <<1000, 0, 500>> ] >>,
     << [ o |-> "form", m |-> <<1, 0, 0, 1, 0, 30000>>, b |-> <<20000, 20000, 500000, 160000>> ] >>, Op("endform"),
     Re(50000, 50000, 90000, 20000) \o Paint("f", 1),
     Re(30000, 30000, 15000, 500000) \o Op("W") \o Paint("B", 2),
     << [ o |-> "m", p |-> <<110000, 60000>> ], [ o |-> "c", ps |-> << <<130000, 60000>>, <<150000, 90000>>, <<400000, 110000>> >> ] >>
       \o Paint("S", 1),
     Op("q") \o Cm(<<30, 0, 0, 20, 110000, 50000>>) \o << [ o |-> "img", kind |-> "xobj" ] >> \o Op("Q"),
     Op("BT") \o Tf(1, 1000) \o Td(120000, 70000) \o Show(<<"a">>) \o Op("ET") >>
Ops == IF Alphabet = "gfx" THEN GfxOps ELSE TextOps
First == IF Alphabet = "gfx" THEN <<>> ELSE Op("BT") \o Tf(1, 1000) \o Td(100000, 200000)
Shows == IF Alphabet = "gfx" THEN 11..15 ELSE 16..18

VARIABLES h, S, open      \* open: what q's and forms are open, innermost last
vars == <<h, S, open>>
Play(T, ops) == FoldLeft(LAMBDA acc, o : Step(acc, o, Fonts), T, ops)
Init == h = <<>> /\ S = Play(Start(Box, Rot, <<>>), First) /\ open = <<>>

\* Images that the right or left edge of the clip box cuts, and rotated ones, are a known finding.
Drawable(T) ==
  LET c == Mul(<<30, 0, 0, 20, 110000, 50000>>, T.g.ctm)
      b == BoxOf(Map(Corners(<<0, 0, 1000, 1000>>), LAMBDA p : Apply(c, p)))
      v == T.g.clip
  IN /\ c[2] = 0 /\ c[3] = 0 /\ c[1] > 0 /\ c[4] < 0
     /\ v[1] < v[3] /\ v[2] < v[4]
     /\ \/ v[1] < b[1] /\ b[3] < v[3]
        \/ b[3] < v[1] \/ b[1] > v[3] \/ b[2] > v[4] \/ b[4] < v[2]
Enabled(i) ==
  Alphabet = "gfx" =>
    /\ i = 2 => open # <<>> /\ open[Len(open)] = "q"
    /\ i = 10 => open # <<>> /\ open[Len(open)] = "form"
    /\ i = 14 => Drawable(S)
Do(i) ==
  /\ Len(h) < N
  /\ Len(h) = N - 1 => i \in Shows
  /\ Enabled(i)
  /\ S' = Play(S, Ops[i])
  /\ h' = Append(h, i)
  /\ open' = IF Alphabet # "gfx" THEN open
             ELSE CASE i = 1 -> Append(open, "q") [] i = 9 -> Append(open, "form") [] i \in {2, 10} -> SubSeq(open, 1, Len(open) - 1)
                    [] OTHER -> open
Next == \E i \in 1..Len(Ops) : Do(i)
Spec == Init /\ [][Next]_vars

Encloses(b, c) == c[1] >= c[3] \/ c[2] >= c[4] \/ (b[1] <= c[1] /\ b[2] <= c[2] /\ b[3] >= c[3] /\ b[4] >= c[4])
\* Clipping only ever reduces the clip box, and restoring brings the saved one back.
ClipsNest == LET cs == Map(S.stack, LAMBDA g : g.clip) \o << S.g.clip >>
             IN \A i \in 1..(Len(cs) - 1) : Encloses(cs[i], cs[i + 1])
StackMatches == Alphabet = "gfx" => Len(S.stack) = Len(open)
\* Whatever is extracted is visible, and belongs to the page or to exactly one figure.
Visible == \A i \in 1..Len(S.out) : LET e == S.out[i] IN
             e.k # "char" => Encloses(e.clip, e.b) /\ e.b[1] <= e.b[3] /\ e.b[2] <= e.b[4]
PC == PageClip(Box, Rot)
Partition ==
  LET exp == Ranked(Map(S.out, LAMBDA x : [ el |-> x, pg |-> 1 ]))
      fc == FigClips(exp, PC)
  IN \A i \in 1..Len(exp) : Cardinality({ j \in 0..Len(fc) : SameClip(exp[i].el.clip, IF j = 0 THEN PC ELSE fc[j]) }) = 1
\* The glyphs of a turned page are the glyphs of the page, turned.
Hist == First \o Flat(Map(h, LAMBDA i : Ops[i]))
Turn(b) == << Box[4] * 1000 - Box[2] * 1000 - b[4], b[1], Box[4] * 1000 - Box[2] * 1000 - b[2], b[3] >>
Turned ==
  Rot = 0 =>
    LET T == Play(Start(Box, 90, <<>>), Hist) IN
    /\ Len(T.out) = Len(S.out)
    /\ \A i \in 1..Len(S.out) : LET a == S.out[i]  b == T.out[i] IN
         /\ a.k = b.k
         /\ a.k = "char" => b.r = (a.r + 1) % 4 /\ b.z = a.z /\ b.t = a.t
         /\ b.b = Turn(a.b)
\* Glyphs have a proper box, of the height of their font size.
Boxes == \A i \in 1..Len(S.out) : LET e == S.out[i] IN
           e.k = "char" => e.b[1] < e.b[3] /\ e.b[2] < e.b[4] /\ e.z > 0
\* Nothing that was extracted is taken back.
Ordered == [][ SubSeq(S'.out, 1, Len(S.out)) = S.out ]_vars
Dump == Len(h) = N => PrintT("HIST " \o ToJson(Hist \o (IF Alphabet = "gfx" THEN <<>> ELSE Op("ET"))))
=============================================================================
