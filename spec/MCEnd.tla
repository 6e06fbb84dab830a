------------------------------- MODULE MCEnd --------------------------------
(* The pipeline with only the contracts of its stages: glyphs are shown, each mark may be merged into a neighbour, the
   glyphs are cut into words anywhere, the words are put in any order and cut into lines and blocks anywhere, the words
   at line ends are merged as specified, and the text is printed as specified. Whatever the stages decide, every glyph
   outside of figures is printed once. The sequences of shown glyphs are printed, to be replayed as PDF files:
   a, b letters; "^" a mark on what was shown before; "-"; f a glyph in a figure; s a blank; n, c move to the next line
   resp. column. *)
EXTENDS Output

CONSTANTS N, Shows

VARIABLES g, phase, D
vars == <<g, phase, D>>

Glyphs(k) == k \in { "a", "b", "^", "-" }
Empty == [ pages |-> <<>>, blocks |-> <<>>, lines |-> <<>>, words |-> <<>>, chars |-> <<>>, hyph |-> <<>> ]
Init == g = <<>> /\ phase = "show" /\ D = Empty

Show(k) == Len(g) < N /\ phase = "show" /\ g' = Append(g, k) /\ UNCHANGED <<phase, D>>
Parse ==
  /\ phase = "show" /\ Len(g) = N
  /\ phase' = "marks"
  /\ LET s == SelectSeq(g, Glyphs)
     IN D' = [ Empty EXCEPT !.chars = [ i \in 1..Len(s) |-> [ t |-> s[i], mb |-> 0, md |-> 0, tm |-> s[i] ] ] ]
  \* What is not to be extracted is forgotten here.
  /\ g' = SelectSeq(g, Glyphs)

\* Every mark is merged into a glyph before or after it, or stays.
Marks(C) == { i \in 1..Len(C) : C[i].t = "^" }
Bases(C, i) == { 0 } \cup { j \in { i - 1, i + 1 } : j \in 1..Len(C) /\ C[j].t # "^" }
Merge ==
  /\ phase = "marks"
  /\ phase' = "words"
  /\ \E f \in [ Marks(D.chars) -> 0..Len(D.chars) ] :
       /\ \A i \in DOMAIN f : f[i] \in Bases(D.chars, i)
       /\ D' = [ D EXCEPT !.chars = [ i \in 1..Len(@) |->
                   [ @[i] EXCEPT !.md = IF i \in DOMAIN f THEN f[i] ELSE 0,
                                 !.mb = IF \E m \in DOMAIN f : f[m] = i THEN 1 ELSE 0,
                                 !.tm = FoldLeft(LAMBDA a, m : IF m \in DOMAIN f /\ f[m] = i THEN a \o "^" ELSE a, @,
                                                 [ k \in 1..Len(D.chars) |-> k ]) ] ] ]
  /\ UNCHANGED g

\* A sequence cut before the positions in K.
RECURSIVE CutAt(_, _)
CutAt(s, K) ==
  IF s = <<>> THEN <<>>
  ELSE LET ks == { k \in K : k > 1 /\ k <= Len(s) }
           e == IF ks = {} THEN Len(s) ELSE (CHOOSE k \in ks : \A j \in ks : k <= j) - 1
       IN << SubSeq(s, 1, e) >> \o CutAt(SubSeq(s, e + 1, Len(s)), { k - e : k \in K })
WordOf(C, cs) == [ c |-> cs, t |-> Concat([ i \in 1..Len(cs) |-> CharText(C[cs[i]]) ]), h1 |-> 0, h2 |-> 0 ]
Words ==
  /\ phase = "words"
  /\ phase' = "lines"
  /\ LET own == SelectSeq([ i \in 1..Len(D.chars) |-> i ], LAMBDA i : D.chars[i].md = 0)
     IN \E K \in SUBSET (2..Len(own)) :
          D' = [ D EXCEPT !.words = Map(CutAt(own, K), LAMBDA cs : WordOf(D.chars, cs)) ]
  /\ UNCHANGED g

\* Any word that is left continues the line, or starts a new line or block.
Placed == UNION { Ran(D.lines[i].w) : i \in 1..Len(D.lines) }
Place(i, k) ==
  /\ phase = "lines"
  /\ i \notin Placed
  /\ (D.lines = <<>> => k = "b")
  /\ LET n == Len(D.lines)
         nb == Len(D.blocks)
     IN D' = [ D EXCEPT !.lines = IF k = "w" THEN [ @ EXCEPT ![n].w = Append(@, i) ] ELSE Append(@, [ w |-> <<i>> ]),
                        !.blocks = CASE k = "w" -> @
                                     [] k = "l" -> [ @ EXCEPT ![nb].l = Append(@, n + 1) ]
                                     [] k = "b" -> Append(@, [ l |-> << n + 1 >>, role |-> 0, em |-> FALSE ]) ]
  /\ UNCHANGED <<g, phase>>
Lines == \E i \in 1..Len(D.words), k \in { "w", "l", "b" } : Place(i, k)

Dehyphenate ==
  /\ phase = "lines" /\ Placed = 1..Len(D.words)
  /\ phase' = "done"
  /\ LET S == HScan(D)
     IN D' = [ D EXCEPT !.pages = << [ num |-> 1, bl |-> [ i \in 1..Len(D.blocks) |-> i ] ] >>,
                        !.words = [ i \in 1..Len(@) |-> [ @[i] EXCEPT !.h1 = S.h1[i], !.h2 = S.h2[i] ] ],
                        !.hyph = Map(S.m, LAMBDA t : [ t |-> t ]) ]
  /\ UNCHANGED g

Next == (\E k \in Shows : Show(k)) \/ Parse \/ Merge \/ Words \/ Lines \/ Dehyphenate
Spec == Init /\ [][Next]_vars

Letters(t) == Force([ i \in 1..Len(t) |-> SubSeq(t, i, i) ])
Joins == Cardinality({ i \in 1..Len(D.words) : D.words[i].h1 # 0 })
Bag(s) == << Count(s, "a"), Count(s, "b"), Count(s, "^"), Count(s, "-") >>
Conserved == phase = "done" =>
  \A out \in { Letters(Txt(D, {})) } :
    /\ [ Bag(out) EXCEPT ![4] = @ + Joins ] = Bag(g)
    /\ Ran(out) \subseteq { "a", "b", "^", "-", " ", "\n" }
Dump == phase = "show" /\ Len(g) = N => PrintT("HIST " \o ToJson(g))
=============================================================================
