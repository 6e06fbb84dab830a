------------------------------- MODULE Type1 ---------------------------------
(* Type 1 font programs: the interpreter of charstrings that gives the boxes of the glyphs, and what the clear part of a
   program says about the font. A program is a sequence of tokens [o, n]: numbers ("num", n) and operators. *)
EXTENDS Base

MaxDepth == 10
\* The operand stack, the stack of the PostScript interpreter, the current point, and the box of the points (<<>>: none).
Start == [ a |-> <<>>, ps |-> <<>>, x |-> 0, y |-> 0, b |-> <<>> ]

Widen(b, x, y) == IF b = <<>> THEN << x, y, x, y >> ELSE << Min2(b[1], x), Min2(b[2], y), Max2(b[3], x), Max2(b[4], y) >>
At(S, x, y) == [ S EXCEPT !.x = x, !.y = y, !.b = Widen(@, x, y) ]
By(S, dx, dy) == At(S, S.x + dx, S.y + dy)
Curve(S, d) == By(By(By(S, d[1], d[2]), d[3], d[4]), d[5], d[6])

\* The number of operands of an operator. An operator that finds too few is ignored.
Arity(o) ==
  CASE o \in { "vmoveto", "hmoveto", "hlineto", "vlineto", "callsubr" } -> 1
    [] o \in { "hstem", "vstem", "rlineto", "rmoveto", "hsbw", "div", "callothersubr", "setcurrentpoint" } -> 2
    [] o \in { "vhcurveto", "hvcurveto", "sbw" } -> 4
    [] o = "seac" -> 5
    [] o \in { "rrcurveto", "vstem3", "hstem3" } -> 6
    [] OTHER -> 0

Quot(a, b) == LET q == Abs(a) \div Abs(b) IN IF (a < 0) = (b < 0) THEN q ELSE -q
Drop(s, n) == SubSeq(s, 1, Len(s) - n)
Top(s, n) == SubSeq(s, Len(s) - n + 1, Len(s))

\* The operators other than callsubr; T is the state without the operands d.
Apply(S, o, d, T) ==
  CASE o \in { "hsbw" } -> At(T, d[1], 0)
    [] o = "sbw" -> At(T, d[1], d[2])
    [] o = "setcurrentpoint" -> At(T, d[1], d[2])
    [] o \in { "rmoveto", "rlineto" } -> By(T, d[1], d[2])
    [] o \in { "hmoveto", "hlineto" } -> By(T, d[1], 0)
    [] o \in { "vmoveto", "vlineto" } -> By(T, 0, d[1])
    [] o = "rrcurveto" -> Curve(T, d)
    [] o = "vhcurveto" -> Curve(T, << 0, d[1], d[2], d[3], d[4], 0 >>)
    [] o = "hvcurveto" -> Curve(T, << d[1], 0, d[2], d[3], 0, d[4] >>)
    [] o = "div" -> IF d[2] = 0 THEN S ELSE [ T EXCEPT !.a = Append(@, Quot(d[1], d[2])) ]
    [] o = "pop" -> IF S.ps = <<>> THEN S ELSE [ S EXCEPT !.a = Append(@, S.ps[Len(S.ps)]), !.ps = Drop(@, 1) ]
    [] o = "callothersubr" ->
         \* d = n, the number of the procedure: 0 ends a flex (it leaves its end point), 1 starts one, 3 replaces hints (it
         \* leaves the number of the subroutine to call); others leave their operands.
         LET k == IF d[2] = 0 THEN (IF Len(T.a) >= 3 THEN 3 ELSE 0)
                  ELSE IF d[2] = 1 THEN 0
                  ELSE IF d[2] = 3 THEN Min2(1, Len(T.a))
                  ELSE Max2(0, Min2(d[1], Len(T.a)))
             args == Reverse(Top(T.a, k))
         IN [ T EXCEPT !.a = Drop(@, k), !.ps = IF d[2] = 0 /\ k = 3 THEN SubSeq(args, 1, 2) ELSE args ]
    [] OTHER -> T

RECURSIVE Exec(_, _, _, _)
\* subrs[i] is the program of subroutine i - 1.
Exec(prog, S0, subrs, depth) ==
  FoldLeft(LAMBDA S, t :
    IF t.o = "num" THEN [ S EXCEPT !.a = Append(@, t.n) ]
    ELSE LET n == Arity(t.o) IN
      IF Len(S.a) < n THEN S
      ELSE LET T == [ S EXCEPT !.a = Drop(@, n) ]
               d == Top(S.a, n)
           IN IF t.o = "callsubr"
              THEN (IF d[1] < 0 \/ d[1] >= Len(subrs) \/ depth >= MaxDepth THEN T
                    ELSE Exec(subrs[d[1] + 1], T, subrs, depth + 1))
              ELSE Apply(S, t.o, d, T), S0, prog)

\* A glyph starts with its side bearing.
Proper(prog) == \E i \in 1..Len(prog) : prog[i].o \in { "hsbw", "sbw" }
                                        /\ \A j \in 1..(i - 1) : prog[j].o = "num"
                                        /\ i > Arity(prog[i].o)
GlyphBBox(prog, subrs) == Exec(prog, Start, subrs, 0).b

-----------------------------------------------------------------------------
(* What was read from the font programs of a file. f.t1 describes the program of the font f: subrs, glyphs (n, p), fm
   (the matrix, in 1/1000000), weight (a text or ""), angle (in tenths of a degree). Several fonts with a name share the information
   of the first; the files here use each name once. *)
ProgramOk(f, o) ==
  LET t == f.t1
      g == Force(Filter(t.glyphs, LAMBDA x : Proper(x.p)))
      boxes(n) == { i \in 1..Len(o.g) : o.g[i].n = n }
  IN /\ ChkV("font matrix", \A i \in 1..6 : Abs(o.fm[i] - t.fm[i]) <= 1, <<o.fm, t.fm>>)
     /\ ChkV("glyph names", { o.g[i].n : i \in 1..Len(o.g) } = { t.glyphs[i].n : i \in 1..Len(t.glyphs) }, f.name)
     /\ \A i \in 1..Len(g) : \A j \in boxes(g[i].n) :
          ChkV("glyph box", o.g[j].b = GlyphBBox(g[i].p, t.subrs), <<g[i], o.g[j].b, GlyphBBox(g[i].p, t.subrs)>>)

ProgramsPost(R) ==
  \A i \in 1..Len(R.fonts) :
    LET f == R.fonts[i] IN
    ("t1" \in DOMAIN f /\ ~f.t1.damaged) =>
      LET os == { j \in 1..Len(R.glyphs) : R.glyphs[j].key = f.name }
      IN Chk("font is listed", Cardinality(os) = 1) /\ \A j \in os : ProgramOk(f, R.glyphs[j])

\* The clear part of a program also tells the weight and the style of the font (see FontInfoPost of Content.tla).
ProgramWeight(t, w) == CASE t.weight = "Regular" -> 400 [] t.weight = "Medium" -> 500 [] t.weight = "Bold" -> 700 [] OTHER -> w
=============================================================================
