------------------------------ MODULE MCType1 --------------------------------
(* Charstrings of at most N parts after the side bearing, for every choice of the parts: single drawing operators with
   their operands, operators that find too few operands, hints, divisions, flex, hint replacement, nested and recursive
   subroutines. The programs are replayed on the real interpreter, in font files of every form. *)
EXTENDS Type1

CONSTANT N

Num(n) == [ o |-> "num", n |-> n ]
Op(o) == [ o |-> o, n |-> 0 ]
P(ns, o) == Append(Map(ns, Num), Op(o))

Subrs == << P(<<3, 0>>, "callothersubr") \o << Op("pop"), Op("pop"), Op("setcurrentpoint"), Op("return") >>,
            P(<<0, 1>>, "callothersubr") \o << Op("return") >>,
            P(<<0, 2>>, "callothersubr") \o << Op("return") >>,
            << Op("return") >>,
            P(<<15, -7>>, "rlineto") \o << Op("return") >>,
            P(<<4>>, "callsubr") \o P(<<1, 300, 20>>, "vstem") \o P(<<4>>, "callsubr") \o << Op("return") >>,
            P(<<60>>, "hlineto") \o P(<<6>>, "callsubr") \o P(<<-500>>, "vmoveto") \o << Op("return") >> >>

Flex == P(<<1>>, "callsubr") \o P(<<50, 0>>, "rmoveto") \o P(<<2>>, "callsubr") \o P(<<-30, 10>>, "rmoveto") \o P(<<2>>, "callsubr")
        \o P(<<50, 150, -90, 0>>, "callsubr")
Heads == { P(<<-40, 600>>, "hsbw"), P(<<120, 30, 500, 0>>, "sbw") }
Parts ==
  { P(<<30, -40>>, "rmoveto"), P(<<200>>, "hmoveto"), P(<<-300>>, "vmoveto"), P(<<-110, 20>>, "rlineto"), P(<<-500>>, "hlineto"),
    P(<<700>>, "vlineto"), P(<<100, 10, -20, 400, 30, -800>>, "rrcurveto"), P(<<-90, 25, 35, -70>>, "vhcurveto"),
    P(<<80, -15, 65, 150>>, "hvcurveto"), P(<<0, 20>>, "hstem"), P(<<0, 20>>, "vstem"), P(<<0, 1, 2, 3, 4, 5>>, "hstem3"),
    P(<<0, 1, 2, 3, 4, 5>>, "vstem3"), << Op("dotsection") >>, << Op("closepath") >>, P(<<0, 100, 200, 65, 193>>, "seac"),
    P(<<-7, 2>>, "div") \o << Op("hlineto") >>, P(<<32000, 3>>, "div") \o << Op("vlineto") >>, P(<<8, 0>>, "div"),
    P(<<333, -222>>, "setcurrentpoint"), Flex, P(<<5, 1, 3>>, "callothersubr") \o << Op("pop"), Op("callsubr") >>,
    P(<<4>>, "callsubr"), P(<<5>>, "callsubr"), P(<<6>>, "callsubr"), P(<<99>>, "callsubr"), << Num(17) >>,
    << Op("rlineto") >>, << Op("vhcurveto") >>, P(<<11, 22, 33, 3, 12>>, "callothersubr") \o << Op("pop"), Op("pop") >>,
    << Op("pop") >>, P(<<2, 0>>, "callothersubr"), P(<<900, 5>>, "hsbw"), << Op("endchar") >>, << Op("div") >>,
    P(<<2000, -30000>>, "rmoveto"), P(<<-1131, 1131>>, "rlineto") }

VARIABLES head, body, S
vars == <<head, body, S>>
Init == \E h \in Heads : head = h /\ body = <<>> /\ S = Exec(h, Start, Subrs, 0)
Next == /\ Len(body) < N
        /\ \E p \in Parts : body' = Append(body, p) /\ S' = Exec(p, S, Subrs, 0)
        /\ UNCHANGED head
Spec == Init /\ [][Next]_vars

Whole == FoldLeft(LAMBDA acc, p : acc \o p, head, body)
Holds(b, x, y) == b[1] <= x /\ b[2] <= y /\ x <= b[3] /\ y <= b[4]
\* The box holds the current point; running part by part or at once is the same.
Inv == S.b # <<>> /\ Holds(S.b, S.x, S.y) /\ Proper(Whole) /\ GlyphBBox(Whole, Subrs) = S.b
Grows == [][ S'.b[1] <= S.b[1] /\ S'.b[2] <= S.b[2] /\ S'.b[3] >= S.b[3] /\ S'.b[4] >= S.b[4] ]_vars
\* A side bearing moves the glyph (if no point is absolute).
Absolute == \E i \in 1..Len(body) : \E j \in 1..Len(body[i]) :
              body[i][j].o \in { "hsbw", "setcurrentpoint" } \/ body[i] = Flex \/ (body[i][j].o = "callothersubr" /\ body[i][j - 1].n = 0)
            \/ body[i][j].o = "pop"
Shift == LET b == GlyphBBox(FoldLeft(LAMBDA acc, p : acc \o p, P(<<60, 600>>, "hsbw"), body), Subrs)
         IN Len(head) = 3 /\ ~Absolute => b = << S.b[1] + 100, S.b[2], S.b[3] + 100, S.b[4] >>
\* Hints, paths that are closed, and the end draw nothing.
Quiet == [][ (body' # body /\ body'[Len(body')] \in { P(<<0, 20>>, "hstem"), << Op("dotsection") >>, << Op("closepath") >>, << Op("endchar") >>,
                                   P(<<0, 100, 200, 65, 193>>, "seac"), P(<<99>>, "callsubr") }) => S' = S ]_vars
Dump == Len(body) = N => PrintT("HIST " \o ToJson([ p |-> Whole ]))
DumpSubrs == body = <<>> => PrintT("SUBRS " \o ToJson(Subrs))
=============================================================================
