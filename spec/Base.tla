-------------------------------- MODULE Base --------------------------------
(* Common vocabulary of the specification.

   Lengths are integers in units of 1/160 pt ("u"): a tenth of a point is 16 u, a sixteenth is 10 u. The inputs of the
   conformance runs are multiples of 1/16 pt, so that the positions, midpoints and rounded values of the real code are
   exact integers here. The code's general tolerance of 0.0001 pt is smaller than one unit: its comparisons of lengths
   are the exact comparisons of integers. Ratios are compared by cross multiplication with thresholds in 1/10000,
   where the tolerance 0.0001 is one unit of the threshold.

   A document is a record of tables (chars, words, lines, ...); an object's id is its position in its table and 0 means
   "no object". Every object of a page has b = <<leftX, upperY, rightX, lowerY>>, r (rotation, 0..3), wm (writing mode),
   pg (page number), rk (rank). *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, Functions, Json

Tenth == 16
Pt == 160

\* A named clause: when it is false, the name is printed, so that a rejected trace says which rule it broke.
Chk(name, cond) == IF cond THEN TRUE ELSE PrintT(<<"REJECT", name>>) /\ FALSE
ChkV(name, cond, v) == IF cond THEN TRUE ELSE PrintT(<<"REJECT", name, v>>) /\ FALSE

\* Reports which rules decided (for the evidence).
Cover(names) == PrintT("COVER " \o ToJson(names))

Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
Abs(x) == IF x < 0 THEN -x ELSE x

Ran(s) == { s[i] : i \in 1..Len(s) }
SumSeq(s) == FoldLeft(LAMBDA a, b : a + b, 0, s)
MaxSeq(s) == FoldLeft(LAMBDA a, b : IF b > a THEN b ELSE a, s[1], s)
MinSeq(s) == FoldLeft(LAMBDA a, b : IF b < a THEN b ELSE a, s[1], s)
Map(s, f(_)) == SubSeq([ i \in 1..Len(s) |-> f(s[i]) ], 1, Len(s))
Flat(ss) == FoldLeft(LAMBDA a, b : a \o b, <<>>, ss)
Concat(ss) == FoldLeft(LAMBDA a, b : a \o b, "", ss)
JoinWith(ss, sep) == IF ss = <<>> THEN "" ELSE FoldLeft(LAMBDA a, b : a \o sep \o b, Head(ss), Tail(ss))
\* The same sequence; TLC computes its elements once (a function under LET is evaluated anew on every application).
Force(s) == SubSeq(s, 1, Len(s))
Filter(s, P(_)) == SelectSeq(s, P)
Count(s, v) == Cardinality({ i \in 1..Len(s) : s[i] = v })
NoDup(s) == Cardinality(Ran(s)) = Len(s)
IsPerm(s, t) == Len(s) = Len(t) /\ NoDup(s) /\ Ran(s) = Ran(t)
PosOf(s, v) == CHOOSE i \in 1..Len(s) : s[i] = v

\* v is a most frequent value of s (where several values are equally frequent, any of them may be chosen).
IsMode(v, s) == v \in Ran(s) /\ LET c == Count(s, v) IN \A x \in Ran(s) : Count(s, x) <= c

-----------------------------------------------------------------------------
(* Boxes *)
LX(o) == o.b[1]
UY(o) == o.b[2]
RX(o) == o.b[3]
LY(o) == o.b[4]
Width(o) == o.b[3] - o.b[1]
Height(o) == o.b[4] - o.b[2]
Union(a, b) == << Min2(a[1], b[1]), Min2(a[2], b[2]), Max2(a[3], b[3]), Max2(a[4], b[4]) >>
UnionSeq(bs) == FoldLeft(Union, bs[1], bs)

\* The coordinates in a system in which the element does not appear rotated.
RotL(o) == CASE o.r = 0 -> o.b[1] [] o.r = 1 -> o.b[2] [] o.r = 2 -> o.b[3] [] o.r = 3 -> o.b[4]
RotU(o) == CASE o.r = 0 -> o.b[2] [] o.r = 1 -> o.b[3] [] o.r = 2 -> o.b[4] [] o.r = 3 -> o.b[1]
RotR(o) == CASE o.r = 0 -> o.b[3] [] o.r = 1 -> o.b[4] [] o.r = 2 -> o.b[1] [] o.r = 3 -> o.b[2]
RotB(o) == CASE o.r = 0 -> o.b[4] [] o.r = 1 -> o.b[1] [] o.r = 2 -> o.b[2] [] o.r = 3 -> o.b[3]

\* The gap between two elements in x- resp. y-direction; negative if they overlap.
HGap(a, c) ==
  LET l == IF LX(a) < LX(c) THEN a ELSE c
      r == IF LX(a) < LX(c) THEN c ELSE a
  IN LX(r) - RX(l)
VGap(a, c) ==
  LET u == IF UY(a) < UY(c) THEN a ELSE c
      l == IF UY(a) < UY(c) THEN c ELSE a
  IN UY(l) - LY(u)

\* The larger one of the two overlap ratios of the intervals [s1, e1] and [s2, e2], as a fraction <<num, den>>.
MaxOverlap(s1, e1, s2, e2) ==
  LET a1 == Min2(s1, e1)  b1 == Max2(s1, e1)  a2 == Min2(s2, e2)  b2 == Max2(s2, e2)
      o == Max2(0, Min2(b1, b2) - Max2(a1, a2))
      n1 == b1 - a1  n2 == b2 - a2
  IN IF o = 0 THEN <<0, 1>> ELSE <<o, Min2(n1, n2)>>
MaxXOverlap(a, c) == MaxOverlap(LX(a), RX(a), LX(c), RX(c))
MaxYOverlap(a, c) == MaxOverlap(UY(a), LY(a), UY(c), LY(c))

\* Comparisons of a ratio q = <<num, den>> with t/10000 and of two ratios, with the tolerance 1/10000.
RatioLt(q, t) == q[1] * 10000 < q[2] * (t - 1)
RatioGe(q, t) == ~RatioLt(q, t)
RatioLe(q, t) == q[1] * 10000 <= q[2] * (t + 1)
RatioIsZero(q) == q[1] * 10000 <= q[2]
RatioGt2(p, q) == p[1] * q[2] - q[1] * p[2] > (p[2] * q[2]) \div 10000

\* Rounding of lengths to whole points / to tenths of a point: half away from zero.
RoundTo(x, m) == IF x >= 0 THEN ((2 * x + m) \div (2 * m)) * m ELSE -(((2 * (-x) + m) \div (2 * m)) * m)
RoundPt(x) == RoundTo(x, Pt)
RoundTenth(x) == RoundTo(x, Tenth)

\* The characters of a sequence of words, and similar projections of a document D.
PagesOf(D) == D.pages
=============================================================================
