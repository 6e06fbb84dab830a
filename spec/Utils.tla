-------------------------------- MODULE Utils --------------------------------
(* The utilities the stages are built of: comparisons of numbers, geometry of boxes, texts, counters, the queue of fixed
   capacity, and loggers. Lengths are in u (1/160 pt); the conformance runs use multiples of 10 u, for which the
   comparisons of the real code are exact. *)
EXTENDS Base

-----------------------------------------------------------------------------
(* Numbers. A missing tolerance is 1/10000 pt: less than one unit, that is, 0 here. *)
Tol(n, k) == IF Len(n) >= k THEN n[k] ELSE 0
Compare(fn, n) ==
  CASE fn = "equal" -> Abs(n[1] - n[2]) <= Tol(n, 3)
    [] fn = "larger" -> n[1] > n[2] + Tol(n, 3)
    [] fn = "smaller" -> n[1] < n[2] - Tol(n, 3)
    [] fn = "equalOrLarger" -> n[1] >= n[2] - Tol(n, 3)
    [] fn = "equalOrSmaller" -> n[1] <= n[2] + Tol(n, 3)
    [] fn = "between" -> n[1] >= n[2] - Tol(n, 4) /\ n[1] <= n[3] + Tol(n, 4)
Comparisons == { "equal", "larger", "smaller", "equalOrLarger", "equalOrSmaller", "between" }

\* x/160 rounded to d decimals, half away from zero, in 1/1000.
Pow10(d) == CASE d = 0 -> 1 [] d = 1 -> 10 [] d = 2 -> 100 [] d = 3 -> 1000
Rounded(x, d) == LET q == (2 * Abs(x) * Pow10(d) + 160) \div 320
                 IN (IF x < 0 THEN -1 ELSE 1) * q * (1000 \div Pow10(d))

\* The shares of two intervals that the other one covers, in fractions.
Overlap(s1, e1, s2, e2) ==
  LET a1 == Min2(s1, e1)  b1 == Max2(s1, e1)  a2 == Min2(s2, e2)  b2 == Max2(s2, e2)
      o == Max2(0, Min2(b1, b2) - Max2(a1, a2))
  IN << IF b1 = a1 THEN <<0, 1>> ELSE <<o, b1 - a1>>, IF b2 = a2 THEN <<0, 1>> ELSE <<o, b2 - a2>> >>
\* An observed ratio in 1/10000.
IsRatio(v, q) == Abs(v * q[2] - 10000 * q[1]) <= q[2]
FracLe(p, q) == p[1] * q[2] <= q[1] * p[2]
Larger2(p, q) == IF FracLe(p, q) THEN q ELSE p

-----------------------------------------------------------------------------
(* Two boxes a and b *)
Quarter(b, r) == CASE r = 0 -> b [] r = 1 -> << b[2], b[3], b[4], b[1] >>
                   [] r = 2 -> << b[3], b[4], b[1], b[2] >> [] r = 3 -> << b[4], b[1], b[2], b[3] >>
RatiosOk(v, o) == IsRatio(v[1], o[1]) /\ IsRatio(v[2], o[2]) /\ IsRatio(v[3], Larger2(o[1], o[2]))
PairOk(a, b, t, v) ==
  LET ra == << RotL(a), RotU(a), RotR(a), RotB(a) >>
      rb == << RotL(b), RotU(b), RotR(b), RotB(b) >>
  IN /\ ChkV("horizontal gap", v.hgap = HGap(a, b), <<a, b, v.hgap>>)
     /\ ChkV("vertical gap", v.vgap = VGap(a, b), <<a, b, v.vgap>>)
     /\ ChkV("overlap in x", RatiosOk(v.x, Overlap(LX(a), RX(a), LX(b), RX(b))), <<a, b, v.x>>)
     /\ ChkV("overlap in y", RatiosOk(v.y, Overlap(UY(a), LY(a), UY(b), LY(b))), <<a, b, v.y>>)
     /\ ChkV("equal edges", v.eq = [ i \in 1..4 |-> Abs(a.b[i] - b.b[i]) <= t ], <<a, b, t, v.eq>>)
     /\ ChkV("offsets", v.off = << LX(a) - LX(b), RX(a) - RX(b) >>, <<a, b, v.off>>)
     /\ ChkV("fonts", v.font = << a.f = b.f, Abs(a.s - b.s) <= t >>, <<a, b, v.font>>)
     /\ ChkV("rotated box", v.rot = ra /\ ra = Quarter(a.b, a.r), <<a, v.rot>>)
     /\ ChkV("sizes", v.size = << Width(a), Height(a), Abs(ra[3] - ra[1]), Abs(ra[4] - ra[2]) >>, <<a, v.size>>)
     /\ ChkV("comparators", v.less = << LX(a) < LX(b), RX(a) > RX(b), UY(a) < UY(b), ra[1] < rb[1], ra[1] > rb[1],
                                       ra[4] < rb[4], ra[4] > rb[4] >>, <<a, b, v.less>>)

-----------------------------------------------------------------------------
(* Texts *)
Chars(s) == Force([ i \in 1..Len(s) |-> SubSeq(s, i, i) ])
\* The non-empty parts between the delimiters.
Split(s, ds) ==
  LET r == FoldLeft(LAMBDA acc, c : IF c \in ds THEN << IF acc[2] = "" THEN acc[1] ELSE Append(acc[1], acc[2]), "" >>
                                    ELSE << acc[1], acc[2] \o c >>, << <<>>, "" >>, Chars(s))
  IN IF r[2] = "" THEN r[1] ELSE Append(r[1], r[2])
Strip(s, ws) ==
  LET in == { i \in 1..Len(s) : SubSeq(s, i, i) \notin ws }
  IN IF in = {} THEN ""
     ELSE SubSeq(s, CHOOSE i \in in : \A j \in in : i <= j, CHOOSE i \in in : \A j \in in : i >= j)
Shorten(s, n) == IF Len(s) <= n THEN s ELSE SubSeq(s, 1, n) \o "..."

(* Wrapping: a line ends at a newline, or else at the last blank that fits, or else at the end of its first word. *)
Blanks(n) == FoldLeft(LAMBDA acc, i : acc \o " ", "", [ i \in 1..n |-> i ])
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
MaxOf(S) == CHOOSE x \in S : \A y \in S : x >= y
RECURSIVE Wrap(_, _, _)
Wrap(s, room, ind) ==
  LET nl == { i \in 1..Len(s) : SubSeq(s, i, i) = "\n" }
      bl == { i \in 1..Len(s) : SubSeq(s, i, i) = " " }
      end == IF nl # {} /\ MinOf(nl) <= room + 1 THEN MinOf(nl)
             ELSE IF Len(s) <= room THEN 0
             ELSE IF \E i \in bl : i <= room + 1 THEN MaxOf({ i \in bl : i <= room + 1 })
             ELSE LET c == { i \in bl \cup nl : i > room } IN IF c = {} THEN 0 ELSE MinOf(c)
  IN IF end = 0 THEN Blanks(ind) \o s
     ELSE Blanks(ind) \o SubSeq(s, 1, end - 1) \o "\n" \o Wrap(SubSeq(s, end + 1, Len(s)), room, ind)

Nonempty(v, sep) == FoldLeft(LAMBDA acc, x : (IF acc = "" THEN x ELSE acc \o sep \o x), "", v)

TypeNames == << "pages", "blocks", "lines", "words", "characters", "figures", "shapes" >>
FormatNames == << "txt", "txt-extended", "jsonl" >>
RoleNames == << "paragraph", "reference", "marginal", "footnote", "heading", "formula", "title", "author-info", "abstract", "date",
                "caption", "table", "other", "toc" >>

CallOk(c, v) ==
  LET fn == c.fn IN
  CASE fn \in Comparisons -> ChkV(fn, v = Compare(fn, c.n), <<c, v>>)
    [] fn = "round" -> ChkV(fn, v = Rounded(c.n[1], c.d), <<c, v, Rounded(c.n[1], c.d)>>)
    [] fn = "minimum" -> ChkV(fn, v = MinSeq(c.n), <<c, v>>)
    [] fn = "maximum" -> ChkV(fn, v = MaxSeq(c.n), <<c, v>>)
    [] fn = "overlap" -> LET o == Overlap(c.n[1], c.n[2], c.n[3], c.n[4])
                         IN ChkV(fn, IsRatio(v[1], o[1]) /\ IsRatio(v[2], o[2]), <<c, v>>)
    [] fn = "pair" -> PairOk(c.a, c.b, c.tol, v)
    [] fn \in { "split", "wsplit" } -> ChkV(fn, v = Split(c.t[1], Ran(c.ds)), <<c, v>>)
    [] fn = "sentence" -> ChkV(fn, v = (c.t[1] # "" /\ SubSeq(c.t[1], Len(c.t[1]), Len(c.t[1])) \in {"?", "!", ".", ")", ";"}), <<c, v>>)
    [] fn = "upper" -> ChkV(fn, v = c.up, <<c, v>>)
    [] fn = "escape" -> ChkV(fn, c.dec = c.t[1], <<c, v>>)
    [] fn = "shorten" -> ChkV(fn, v = Shorten(c.t[1], c.d), <<c, v>>)
    [] fn = "strip" -> ChkV(fn, v = Strip(c.t[1], Ran(c.ds)), <<c, v>>)
    [] fn = "wrap" -> ChkV(fn, v = Wrap(c.t[1], c.d - c.e, c.e), <<c, v, Wrap(c.t[1], c.d - c.e, c.e)>>)
    [] fn = "join" -> ChkV(fn, v = Nonempty(c.v, c.t[1]), <<c, v>>)
    [] fn = "random" -> ChkV(fn, v.ok /\ Ran(Chars(v.seen)) = (IF c.d = 0 THEN {} ELSE Ran(Chars(c.t[2]))), <<c, v>>)
    [] fn = "names" -> ChkV(fn, /\ v.types = TypeNames /\ v.formats = FormatNames /\ v.roles = RoleNames
                                /\ v.typesStr = Nonempty(TypeNames, c.t[1]) /\ v.formatsStr = Nonempty(FormatNames, c.t[1])
                                /\ v.rolesStr = Nonempty(RoleNames, c.t[1]), v)
CallsOk(R) == \A i \in 1..Len(R.calls) : CallOk(R.calls[i], R.res[i])

-----------------------------------------------------------------------------
(* Counters: the counts of the keys, as a sequence of <<key, count>>. *)
CSet(c, k, v) == IF \E i \in 1..Len(c) : c[i][1] = k
                 THEN Map(c, LAMBDA x : IF x[1] = k THEN <<k, v>> ELSE x) ELSE Append(c, <<k, v>>)
CGet(c, k) == SumSeq(Map(c, LAMBDA x : IF x[1] = k THEN x[2] ELSE 0))
CSum(c) == SumSeq(Map(c, LAMBDA x : x[2]))
CMost(c) == IF c = <<>> THEN 0 ELSE MaxSeq(Map(c, LAMBDA x : x[2]))
CKeys(c) == { c[i][1] : i \in { j \in 1..Len(c) : c[j][2] > 0 } }
CStep(c, op) == CASE op.f = "inc" -> CSet(c, op.k, CGet(c, op.k) + 1)
                  [] op.f = "set" -> CSet(c, op.k, op.v)
                  [] OTHER -> c
\* The queries do not change a counter; without any count above 0 they fail (-1).
CResOk(kind, c, op, v) ==
  CASE op.f = "mode" -> IF CMost(c) = 0 THEN v = -1
                        ELSE /\ v[2] = CMost(c) /\ v[4] = CMost(c) /\ v[1] \in CKeys(c) /\ v[3] = v[1] /\ CGet(c, v[1]) = v[2]
    [] op.f = "sum" -> v = CSum(c)
    [] op.f = "max" -> kind # "double" \/ (IF CKeys(c) = {} THEN v = -1 ELSE v = MaxOf(CKeys(c)))
    [] OTHER -> TRUE
CounterOk(R) ==
  FoldLeft(LAMBDA acc, i : [ ok |-> acc.ok /\ ChkV("counter", CResOk(R.kind, acc.c, R.ops[i], R.res[i]), <<i, R.ops, R.res>>),
                             c |-> CStep(acc.c, R.ops[i]) ],
           [ ok |-> TRUE, c |-> <<>> ], [ i \in 1..Len(R.ops) |-> i ]).ok

-----------------------------------------------------------------------------
(* The queue: its elements in ascending order. kind "max": the top is the largest element, "min": the smallest. A push
   to a full queue removes the top before. *)
QInsert(q, x) == LET k == Cardinality({ i \in 1..Len(q) : q[i] <= x }) IN SubSeq(q, 1, k) \o <<x>> \o SubSeq(q, k + 1, Len(q))
QPop(kind, q) == IF kind = "max" THEN SubSeq(q, 1, Len(q) - 1) ELSE Tail(q)
QTop(kind, q) == IF kind = "max" THEN q[Len(q)] ELSE q[1]
QStep(kind, cap, q, op) ==
  CASE op.f = "push" -> QInsert(IF Len(q) = cap THEN QPop(kind, q) ELSE q, op.k)
    [] op.f = "pop" -> QPop(kind, q)
    [] OTHER -> q
QResOk(kind, q, q2, op, v) ==
  CASE op.f \in { "push", "pop" } -> v = Len(q2)
    [] op.f = "top" -> v = QTop(kind, q)
    [] op.f = "sort" -> v = (IF op.k = 0 THEN q ELSE Reverse(q))
QueueOk(R) ==
  FoldLeft(LAMBDA acc, i :
             LET q2 == QStep(R.kind, R.cap, acc.q, R.ops[i])
             IN [ ok |-> acc.ok /\ ChkV("queue", QResOk(R.kind, acc.q, q2, R.ops[i], R.res[i]), <<i, R.kind, R.cap, R.ops, R.res>>),
                  q |-> q2 ],
           [ ok |-> TRUE, q |-> <<>> ], [ i \in 1..Len(R.ops) |-> i ]).ok

-----------------------------------------------------------------------------
(* Loggers: the level and the page filter. *)
LogStep(g, op) == CASE op.f = "level" -> [ g EXCEPT !.level = op.k ]
                    [] op.f = "filter" -> [ g EXCEPT !.filter = op.k ]
                    [] OTHER -> g
Printed(g, op) == op.k >= g.level /\ ~(g.filter > 0 /\ op.p > 0 /\ op.p # g.filter)
LevelNames == << "TRACE:", "DEBUG:", "INFO: ", "WARN: ", "ERROR:" >>
\* v: what the message printed, taken apart: whether it is empty, its level, its text, and whether the time stamp is one.
LogResOk(g, op, v) ==
  IF op.f = "log" /\ Printed(g, op) THEN ~v.empty /\ v.level = LevelNames[op.k + 1] /\ v.text = op.m /\ v.time ELSE v.empty
LoggerOk(R) ==
  FoldLeft(LAMBDA acc, i :
             [ ok |-> acc.ok /\ ChkV("logger", LogResOk(acc.g, R.ops[i], R.aux[i]), <<i, acc.g, R.ops, R.res>>),
               g |-> LogStep(acc.g, R.ops[i]) ],
           [ ok |-> TRUE, g |-> [ level |-> R.level, filter |-> R.filter ] ], [ i \in 1..Len(R.ops) |-> i ]).ok
=============================================================================
