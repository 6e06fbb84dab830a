----------------------------- MODULE MCGeometry ------------------------------
(* The geometry of two boxes, for every pair of boxes over a grid of coordinates, and every rotation: the laws the
   operators obey, and (replayed) that the real functions are these operators. *)
EXTENDS Utils

CONSTANTS Grid
Intervals == { <<s, e>> \in Grid \X Grid : s <= e }
VARIABLES a, b
vars == <<a, b>>
Box(x, y, r) == [ b |-> <<x[1] - 10, y[1] - 10, x[2] - 10, y[2] - 10>>, r |-> r ]
\* The rotation of b is one quarter more than the one of a, so that each of them is met in both places.
Init == \E x1, y1, x2, y2 \in Intervals, r \in 0..3 : a = Box(x1, y1, r) /\ b = Box(x2, y2, (r + 1) % 4)
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars

Proper(o) == LX(o) < RX(o) /\ UY(o) < LY(o)
Symmetric == /\ LX(a) # LX(b) => HGap(a, b) = HGap(b, a)
             /\ UY(a) # UY(b) => VGap(a, b) = VGap(b, a)
XO == Overlap(LX(a), RX(a), LX(b), RX(b))
YO == Overlap(UY(a), LY(a), UY(b), LY(b))
Shares == \A q \in { XO[1], XO[2], YO[1], YO[2] } : 0 <= q[1] /\ q[1] <= q[2]
\* Boxes overlap iff the gap between them is negative, and one includes the other iff its whole share is covered.
GapOrOverlap == Proper(a) /\ Proper(b) => ((HGap(a, b) < 0) = (XO[1][1] > 0)) /\ ((VGap(a, b) < 0) = (YO[1][1] > 0))
Inclusion == Proper(a) /\ Proper(b) => ((XO[1][1] = XO[1][2]) = (LX(b) <= LX(a) /\ RX(a) <= RX(b)))
\* In the rotated system, left to right is the direction of reading.
Reading == /\ a.r \in {0, 3} => (a.r = 0 => RotR(a) >= RotL(a))
           /\ Quarter(a.b, a.r) = << RotL(a), RotU(a), RotR(a), RotB(a) >>
           /\ Abs(RotR(a) - RotL(a)) = (IF a.r \in {0, 2} THEN Width(a) ELSE Height(a))
Dump == PrintT("HIST " \o ToJson(<<a, b>>))
=============================================================================
