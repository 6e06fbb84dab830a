------------------------------- MODULE Roles --------------------------------
(* Semantic roles: the features given to the model, and the choice of a role from its output.

   The byte pair encoder is a step relation on the tokens of one word. V is the vocabulary: a record from tokens to
   their numbers; the symbols for padding, unknown characters and word ends get the three numbers after them. *)
EXTENDS Base

InV(V, t) == t \in DOMAIN V
NV(V) == Cardinality(DOMAIN V)
PadId(V) == NV(V)
UnknownId(V) == NV(V) + 1
DelimId(V) == NV(V) + 2
Meta == << "⊛", "⌾", "✂" >>
Known(V, t) == InV(V, t) \/ t \in Ran(Meta)
IdOf(V, t) == IF t = Meta[1] THEN PadId(V) ELSE IF t = Meta[2] THEN UnknownId(V) ELSE IF t = Meta[3] THEN DelimId(V)
              ELSE IF InV(V, t) THEN V[t] ELSE UnknownId(V)

\* One round: the first adjacent pair that forms a token of the vocabulary is merged wherever it occurs, from left to right.
Mergeable(V, ts) == { i \in 1..Len(ts) - 1 : Known(V, ts[i] \o ts[i + 1]) }
Done(V, ts) == Len(ts) < 2 \/ Mergeable(V, ts) = {}
MergeAll(ts, t) ==
  LET Step(s, i) ==
        IF s.skip THEN [s EXCEPT !.skip = FALSE]
        ELSE IF i < Len(ts) /\ ts[i] \o ts[i + 1] = t THEN [ out |-> Append(s.out, t), skip |-> TRUE ]
        ELSE [s EXCEPT !.out = Append(@, ts[i])]
  IN FoldLeft(Step, [ out |-> <<>>, skip |-> FALSE ], [ i \in 1..Len(ts) |-> i ]).out
Round(V, ts) ==
  LET i == CHOOSE i \in Mergeable(V, ts) : \A j \in Mergeable(V, ts) : i <= j
  IN MergeAll(ts, ts[i] \o ts[i + 1])
RECURSIVE Rounds(_, _)
Rounds(V, ts) == IF Done(V, ts) THEN ts ELSE Rounds(V, Round(V, ts))
Ids(V, ts) == Force([ i \in 1..Len(ts) |-> IdOf(V, ts[i]) ])
EncodeWord(V, chars) == Ids(V, Rounds(V, Append(chars, Meta[3])))

\* A text is given as its characters (each as a string) and their code points.
IsSpace(u) == u = 32 \/ u \in 9..13
WordsOf(chars, us) ==
  LET Step(s, i) == IF IsSpace(us[i]) THEN (IF s.cur = <<>> THEN s ELSE [ ws |-> Append(s.ws, s.cur), cur |-> <<>> ])
                    ELSE [s EXCEPT !.cur = Append(@, chars[i])]
      e == FoldLeft(Step, [ ws |-> <<>>, cur |-> <<>> ], [ i \in 1..Len(us) |-> i ])
  IN IF e.cur = <<>> THEN e.ws ELSE Append(e.ws, e.cur)
Fit(V, ids, n) == IF Len(ids) >= n THEN SubSeq(ids, 1, n) ELSE ids \o [ i \in 1..(n - Len(ids)) |-> PadId(V) ]
EncodeText(V, chars, us, n) ==
  LET ws == WordsOf(chars, us)
  IN Fit(V, FoldLeft(LAMBDA a, w : IF Len(a) >= n THEN a ELSE a \o EncodeWord(V, w), <<>>, ws), n)

-----------------------------------------------------------------------------
Digit(u) == u \in 48..57
Upper(u) == u \in 65..90
Punct(u) == u \in 33..47 \/ u \in 58..64 \/ u \in 91..96 \/ u \in 123..126
NonAscii(u) == u > 127
Share(us, P(_)) == << Cardinality({ i \in 1..Len(us) : P(us[i]) }), Cardinality({ i \in 1..Len(us) : ~IsSpace(us[i]) }) >>
Yes(c) == << IF c THEN 1 ELSE 0, 1 >>

BlocksInOrder(D) == Flat([ p \in 1..Len(D.pages) |-> [ i \in 1..Len(D.pages[p].bl) |-> <<p, D.pages[p].bl[i]>> ] ])

FeatureNames == << "page number", "left", "lower", "right", "upper", "font size", "bold", "italic", "contains @", "first is digit",
                   "digits", "non-ASCII", "punctuation", "capitalised words", "upper case letters" >>
\* The features of a block as fractions; us: code points of the block's text, wus: those of the words of its lines.
Features(D, p, b, fs, us, wus) ==
  LET B == D.blocks[b]
      pg == D.pages[p]
      w == pg.clip[3] - pg.clip[1]
      h == pg.clip[4] - pg.clip[2]
      f == D.fonts[CHOOSE i \in 1..Len(D.fonts) : D.fonts[i].key = B.f]
      mn == MinSeq(fs)
      mx == MaxSeq(fs)
  IN << <<B.pg - 1, Len(D.pages) - 1>>, <<B.b[1], w>>, <<h - B.b[4], h>>, <<B.b[3], w>>, <<h - B.b[2], h>>, <<B.s - mn, mx - mn>>,
        Yes(f.weight > 500), Yes(f.italic), Yes(64 \in Ran(us)), Yes(us # <<>> /\ Digit(us[1])),
        Share(us, Digit), Share(us, NonAscii), Share(us, Punct),
        << Cardinality({ i \in 1..Len(wus) : wus[i] # <<>> /\ Upper(wus[i][1]) }), Len(wus) >>, Share(us, Upper) >>
\* v, in 1/10000, is the fraction q (0 if there is nothing to divide by).
IsFraction(v, q) == IF q[2] <= 0 THEN v = 0 ELSE Abs(v * q[2] - q[1] * 10000) <= q[2]

\* The role with the highest score, the first one on a tie; role 0 if no score is positive.
ArgMax(ps) ==
  FoldLeft(LAMBDA s, i : IF ps[i] > s[1] THEN <<ps[i], i - 1>> ELSE s, <<0, 0>>, [ i \in 1..Len(ps) |-> i ])[2]

PredictPost(Pre, ev) ==
  LET D == Pre
      Post == ev.doc
      bs == BlocksInOrder(D)
      V == ev.aux.vocab
      fs == [ i \in 1..Len(bs) |-> D.blocks[bs[i][2]].s ]
      Row(seq, i, n) == SubSeq(seq, (i - 1) * n + 1, i * n)
  IN /\ ChkV("one row of features per block", ev.ldims = <<Len(bs), 15>> /\ ev.wdims = <<Len(bs), 100>>, <<ev.ldims, ev.wdims>>)
     /\ \A i \in 1..Len(bs) :
          LET b == bs[i][2]
              x == ev.aux.blocks[b]
              q == Features(D, bs[i][1], b, fs, x.u, x.w)
              r == Row(ev.layout, i, 15)
          IN /\ \A k \in 1..15 : ChkV("layout feature", IsFraction(r[k], q[k]), <<i, FeatureNames[k], r[k], q[k]>>)
             /\ LET e == EncodeText(V, x.c, x.u, 100)
                IN ChkV("text features", Row(ev.words, i, 100) = e, <<i, Row(ev.words, i, 100), e>>)
             /\ ChkV("role of a block", Post.blocks[b].role = ArgMax(Row(ev.p, i, ev.dim)),
                     <<i, Post.blocks[b].role, Row(ev.p, i, ev.dim)>>)
     /\ LET R(X) == [X EXCEPT !.blocks = [ i \in 1..Len(X.blocks) |-> [X.blocks[i] EXCEPT !.role = 0] ]]
        IN Chk("prediction changes only the roles", R(Post) = R(D))
=============================================================================
