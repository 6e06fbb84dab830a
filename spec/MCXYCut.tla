------------------------------ MODULE MCXYCut -------------------------------
(* The XY-cut, the segmentation and the reading order for every set of at most N elements on a grid of three columns and
   three rows, where an element covers one, two or three adjacent columns and rows. *)
EXTENDS XYCut

CONSTANTS N, Kmax
Cols == << <<0, 100>>, <<120, 220>>, <<230, 330>> >>
Rows == << <<0, 100>>, <<101, 200>>, <<210, 300>> >>
Spans == << <<1, 1>>, <<2, 2>>, <<3, 3>>, <<1, 2>>, <<2, 3>>, <<1, 3>> >>
Box(k) == LET x == Spans[((k - 1) % 6) + 1]  y == Spans[((k - 1) \div 6) + 1]
          IN << 3200 + Cols[x[1]][1] * 160 + 10 * k, 3200 + Rows[y[1]][1] * 160 + 10 * ((k * 7) % 37),
                3200 + Cols[x[2]][2] * 160 + 10 * k, 3200 + Rows[y[2]][2] * 160 + 10 * ((k * 7) % 37) >>
\* Every fifth element is no text; rotation and role vary.
Kind(k) == IF k % 5 = 0 THEN "s" ELSE "w"
Elem(k) == [ e |-> << Kind(k), k >>, b |-> Box(k), r |-> IF k % 11 = 0 THEN 1 ELSE 0, wm |-> 0, rk |-> k, pg |-> 1,
             role |-> CASE k % 7 = 3 -> 6 [] k % 7 = 5 -> 2 [] OTHER -> 5 ]
AsBlock(el) == IF el.e[1] = "w" THEN [ el EXCEPT !.e[1] = "b" ] ELSE el

PageCtx == [ minX |-> 800, minY |-> 2 * Pt, maxOv |-> 1, acwK |-> 800000, achK |-> 1000000, ovn |-> 2 ]
OrderCtx(S) == [ minX |-> 0, minY |-> 0, maxOv |-> 0, acwK |-> 800000, achK |-> 1000000, box |-> UnionSeq([ i \in 1..Len(S) |-> S[i].b ]) ]
RawCtx == [ minX |-> 3 * Pt, minY |-> 2 * Pt, maxOv |-> 1 ]

VARIABLES els, sx, cx0, cx1, sy, cy, raw, page, order
vars == << els, sx, cx0, cx1, sy, cy, raw, page, order >>
Init == els = <<>> /\ sx = <<>> /\ cx0 = <<>> /\ cx1 = <<>> /\ sy = <<>> /\ cy = <<>> /\ raw = None /\ page = None /\ order = None
Feed(k) ==
  /\ Len(els) < N
  /\ els # <<>> => els[Len(els)].rk < k
  /\ els' = Append(els, Elem(k))
  /\ sx' = SortX(els') /\ sy' = SortY(els')
  /\ cx0' = XCands(sx', 0, 0) /\ cx1' = XCands(sx', 3 * Pt, 1) /\ cy' = YCands(sy', 2 * Pt)
  /\ raw' = XYCut(RawCtx, "all", "all", els')
  /\ page' = XYCut(PageCtx, "page", "page", els')
  /\ order' = Order(OrderCtx(els'), [ i \in 1..Len(els') |-> AsBlock(els'[i]) ])
Next == \E k \in 1..Kmax : Feed(k)
Spec == Init /\ [][Next]_vars

Partition == els # <<>> => IsPartition(els, raw.groups) /\ IsPartition(els, page.groups)
                           /\ IsPartition([ i \in 1..Len(els) |-> AsBlock(els[i]) ], order.groups)
Separates == /\ \A i \in 1..Len(cx0) : CutSeparates(sx, cx0[i])
             /\ \A i \in 1..Len(cx1) : CutSeparates(sx, cx1[i]) /\ Len(cx1[i].ov) <= 1
             /\ \A i \in 1..Len(cy) : CutSeparates(sy, cy[i])
\* Without overlaps there is a candidate exactly if the elements can be divided by a line.
Complete == els # <<>> => /\ (cx0 # <<>>) = Divisible(els, 0, LX, RX)
                          /\ (cy # <<>>) = Divisible(els, 2 * Pt, UY, LY)
                          /\ (cx0 # <<>> => XCands(sx, 0, 1) # <<>>)
\* If all cuts are chosen, nothing is left to cut.
Finished == \A g \in Ran(raw.groups) : XCands(SortX(g), 3 * Pt, 1) = <<>> /\ ~Divisible(g, 2 * Pt, UY, LY)
\* No group of the reading order can be divided by a vertical line; a group is ordered from top to bottom.
OrderFinished == \A g \in Ran(order.groups) : ~Divisible(g, 0, LX, RX) /\ \A i \in 2..Len(g) : UY(g[i - 1]) <= UY(g[i])
Dump == Len(els) = N => PrintT("HIST " \o ToJson([ i \in 1..N |-> els[i] ]))
=============================================================================
