------------------------------ MODULE MCVisual ------------------------------
(* The kinds of elements are chosen one after the other, in any order, and drawn on pages of every rotation and position.
   A small document has every kind of element. *)
EXTENDS Visual

CONSTANTS N
VARIABLES hist, kinds, g
vars == <<hist, kinds, g>>

B == << <<160, 320, 1600, 480>>, <<160, 640, 1760, 700>>, <<1920, 320, 1960, 1280>>, <<0, 0, 3200, 0>> >>
E(i) == [ b |-> B[i], role |-> i - 1, ch |-> i % 2 = 1, dir |-> IF i = 4 THEN "y" ELSE "x", bl |-> IF i = 1 THEN <<1, 2>> ELSE <<>>, l |-> IF i = 1 THEN <<1, 2>> ELSE <<3>> ]
All == [ i \in 1..4 |-> E(i) ]
D == [ chars |-> All, figs |-> All, shapes |-> All, graphics |-> All, words |-> All, lines |-> All, blocks |-> All, segs |-> All, cuts |-> All,
       pages |-> << [ c |-> <<1, 2>>, fg |-> <<3>>, sh |-> <<4>>, gr |-> <<3>>, w |-> <<1, 2>>, tl |-> <<1, 2, 3>>, bl |-> <<1, 2, 3>>,
                      sg |-> <<1, 3>>, bc |-> <<3, 4>>, rc |-> <<1, 3, 4>> ] >> ]
Pages == [ m : { <<x, y, x + 4800, y + 3200>> : x, y \in { -8000, 0, 1120 } }, rot : {0, 90, 180, 270} ]

Init == hist = <<>> /\ kinds = {} /\ g \in { p \in Pages : TRUE }
Choose == /\ Len(hist) < N
          /\ \E k \in Ran(Order) \ kinds : kinds' = kinds \cup {k} /\ hist' = Append(hist, k)
          /\ UNCHANGED g
Spec == Init /\ [][Choose]_vars

\* The file's positions are those of the display.
Back == \A i \in 1..4 : \A c \in {<<1, 2>>, <<3, 4>>, <<1, 4>>} :
             LET q == InFile(g.m, g.rot, B[i][c[1]], B[i][c[2]])
             IN OnDisplay(g.m, g.rot, q[1], q[2]) = << B[i][c[1]], B[i][c[2]] >>
\* What is drawn lies on the page, except for labels, discs and the boxes made visible.
Shape(r) == Normal(OnDisplay(g.m, g.rot, r[1], r[2]), OnDisplay(g.m, g.rot, r[3], r[4]))
Drawing == AllDrawn(D, 1, g, kinds)
\* Every element of a chosen kind has its box on the display, and nothing else has a box of this size.
Covered == \A k \in kinds \cap {"characters", "words", "text-lines", "text-blocks", "segments", "reading-order"} :
             \A i \in Ran(CASE k = "characters" -> D.pages[1].c [] k = "words" -> D.pages[1].w [] k = "text-lines" -> D.pages[1].tl
                            [] k = "segments" -> D.pages[1].sg [] OTHER -> D.pages[1].bl) :
               \E n \in 1..Len(Drawing) : /\ Drawing[n].st = "square"
                                          /\ LET s == Shape(Drawing[n].r)
                                             IN /\ s[1] <= B[i][1] /\ s[2] <= B[i][2] /\ s[3] >= B[i][3] /\ s[4] >= B[i][4]
                                                /\ (s[3] - s[1]) - (B[i][3] - B[i][1]) <= Pt /\ (s[4] - s[2]) - (B[i][4] - B[i][2]) <= Pt
\* Choosing a kind adds annotations and changes none; the numbers of the reading order and of the chosen cuts are complete.
Adds == [][ \A a \in Ran(AllDrawn(D, 1, g, kinds)) : a \in Ran(AllDrawn(D, 1, g', kinds')) ]_vars
Numbers(ann) == SelectSeq(Map(ann, LAMBDA a : IF a.st = "text" THEN a.t ELSE ""), LAMBDA t : t \in { ToString(i) : i \in 1..9 })
Numbered == /\ "reading-order" \in kinds => Ran(Numbers(Drawn(D, 1, g, "reading-order"))) = {"1", "2", "3"}
            /\ "segment-cuts" \in kinds => Numbers(Drawn(D, 1, g, "segment-cuts")) = <<"1">>
            /\ "reading-order-cuts" \in kinds => Numbers(Drawn(D, 1, g, "reading-order-cuts")) = <<"1", "2">>
\* The sum of the kinds, whatever their order.
Sum == Len(Drawing) = FoldLeft(LAMBDA a, k : a + Len(Drawn(D, 1, g, k)), 0, hist)
Sound == Back /\ Covered /\ Numbered /\ Sum
Dump == (g.rot = 0 /\ g.m[1] = 0 /\ g.m[2] = 0) => PrintT("HIST " \o ToJson(hist))
=============================================================================
