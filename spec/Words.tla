------------------------------- MODULE Words --------------------------------
(* Composing words from characters, and recognising stacked math symbols.

   The characters of a page are scanned in extraction order; merged diacritical marks are skipped. A character starts a
   new word if it has another rotation or writing mode than the word being composed (the active word), if it overlaps
   the active word vertically by less than a half, or if the horizontal gap between the two is larger than 0.15 times
   the largest font size in the active word. *)
EXTENDS Base

MinYOverlap == 5000                  \* 0.5
MinStackXOverlap == 5000             \* 0.5
StackTexts == {"∑", "∏", "∫", "⊗"}
StackNames == {"summationdisplay", "productdisplay", "integraldisplay", "circlemultiplydisplay"}
StackWords == {"sup", "lim"}

(* The scanner: acts on one character at a time. act is the active word: the positions of its characters, its box,
   rotation, writing mode and largest font size. words is the sequence of the completed words. *)
NoWord == [ cs |-> <<>>, b |-> <<0, 0, 0, 0>>, r |-> 0, wm |-> 0, fs |-> 0 ]
WInit == [ act |-> NoWord, words |-> <<>> ]

StartsWord(act, c) ==
  \/ act.cs = <<>>
  \/ act.r # c.r
  \/ act.wm # c.wm
  \/ RatioLt(MaxYOverlap(c, act), MinYOverlap)
  \/ HGap(c, act) * 100 > 15 * act.fs
  \/ HGap(act, c) * 100 > 15 * act.fs

WStep(s, i, c) ==
  IF c.md # 0 THEN s
  ELSE IF StartsWord(s.act, c)
       THEN [ act |-> [ cs |-> <<i>>, b |-> c.b, r |-> c.r, wm |-> c.wm, fs |-> c.s ],
              words |-> IF s.act.cs = <<>> THEN s.words ELSE Append(s.words, s.act.cs) ]
       ELSE [ s EXCEPT !.act = [ cs |-> Append(s.act.cs, i), b |-> Union(s.act.b, c.b), r |-> c.r, wm |-> c.wm,
                                 fs |-> Max2(s.act.fs, c.s) ] ]
WEnd(s) == IF s.act.cs = <<>> THEN s.words ELSE Append(s.words, s.act.cs)

WScan(chars) == WEnd(FoldLeft(LAMBDA s, i : WStep(s, i, chars[i]), WInit, [ i \in 1..Len(chars) |-> i ]))

(* What holds of every scan. *)
Kept(chars) == SelectSeq([ i \in 1..Len(chars) |-> i ], LAMBDA i : chars[i].md = 0)
\* The words hold exactly the kept characters, each once, in extraction order.
WordsPartition(chars, ws) == Flat(ws) = Kept(chars)
WordsNonEmpty(ws) == \A k \in 1..Len(ws) : ws[k] # <<>>
\* All characters of a word have the same rotation and the same writing mode.
WordsHomogeneous(chars, ws) ==
  \A k \in 1..Len(ws) : \A i \in Ran(ws[k]) : chars[i].r = chars[ws[k][1]].r /\ chars[i].wm = chars[ws[k][1]].wm

\* The text of a character in a word: with its marks, if it has some.
CharText(c) == IF c.mb # 0 THEN c.tm ELSE c.t

-----------------------------------------------------------------------------
(* Stacked math symbols: the words before and after a base word (a word with a display operator, or "sup"/"lim"),
   nearest first, belong to it as long as they overlap it horizontally by at least a half, are set in a smaller font
   size, and do not belong to another stacked symbol already. pst[j] is the base of word j, bst[i] the parts of i. *)
IsStackBase(chars, w) ==
  \/ \E k \in 1..Len(w.c) : chars[w.c[k]].t \in StackTexts \/ chars[w.c[k]].n \in StackNames
  \/ w.t \in StackWords

RECURSIVE Claim(_, _, _, _, _)
Claim(words, s, i, j, d) ==
  IF j < 1 \/ j > Len(words) THEN s
  ELSE IF RatioLt(MaxXOverlap(words[i], words[j]), MinStackXOverlap) \/ words[j].s >= words[i].s - Pt \/ s.pst[j] # 0
       THEN s
       ELSE Claim(words, [ s EXCEPT !.pst[j] = i, !.bst[i] = Append(@, j) ], i, j + d, d)

MStep(chars, words, s, i) ==
  IF ~IsStackBase(chars, words[i]) THEN s
  ELSE LET s1 == Claim(words, s, i, i - 1, -1) IN Claim(words, s1, i, i + 1, 1)
MInit(words) == [ pst |-> [ j \in 1..Len(words) |-> 0 ], bst |-> [ j \in 1..Len(words) |-> <<>> ] ]
MScan(chars, words) ==
  FoldLeft(LAMBDA s, i : MStep(chars, words, s, i), MInit(words), [ i \in 1..Len(words) |-> i ])

\* Every part belongs to exactly one base, and its base is set in a larger font size (so there are no cycles).
StackSound(words, s) ==
  /\ \A j \in 1..Len(words) : Cardinality({ i \in 1..Len(words) : j \in Ran(s.bst[i]) }) = (IF s.pst[j] = 0 THEN 0 ELSE 1)
  /\ \A j \in 1..Len(words) : s.pst[j] # 0 => j \in Ran(s.bst[s.pst[j]]) /\ words[j].s < words[s.pst[j]].s
  /\ \A i \in 1..Len(words) : NoDup(s.bst[i])

-----------------------------------------------------------------------------
(* Conformance *)
WordsPage(D, E, p) ==
  LET ids == D.pages[p].c
      chars == [ i \in 1..Len(ids) |-> D.chars[ids[i]] ]
      ws == WScan(chars)
      wids == E.pages[p].w
  IN /\ ChkV("words: number of words of the page", Len(wids) = Len(ws), <<p, Len(ws), Len(wids)>>)
     /\ \A k \in 1..Len(ws) :
          LET w == E.words[wids[k]]
              cs == [ i \in 1..Len(ws[k]) |-> chars[ws[k][i]] ]
          IN /\ ChkV("words: characters of the word", w.c = [ i \in 1..Len(ws[k]) |-> ids[ws[k][i]] ], <<p, k, ws[k]>>)
             /\ ChkV("words: text", w.t = Concat([ i \in 1..Len(cs) |-> CharText(cs[i]) ]), <<p, k>>)
             /\ ChkV("words: box", w.b = UnionSeq([ i \in 1..Len(cs) |-> cs[i].b ]), <<p, k>>)
             /\ ChkV("words: font name", IsMode(w.f, [ i \in 1..Len(cs) |-> cs[i].f ]), <<p, k>>)
             /\ ChkV("words: font size", IsMode(w.s, [ i \in 1..Len(cs) |-> cs[i].s ]), <<p, k>>)
             /\ ChkV("words: rotation and writing mode", w.r = cs[1].r /\ w.wm = cs[1].wm, <<p, k>>)
             /\ ChkV("words: page number", w.pg = cs[1].pg, <<p, k>>)
             /\ ChkV("words: rank", w.rk = k - 1, <<p, k>>)
             /\ ChkV("words: back reference of the characters",
                     \A i \in 1..Len(ws[k]) : E.chars[ids[ws[k][i]]].w = wids[k], <<p, k>>)

WordsPost(D, E) ==
  /\ Chk("words: the characters stay", Len(D.chars) = Len(E.chars)
         /\ \A p \in 1..Len(D.pages) : D.pages[p].c = E.pages[p].c)
  /\ Chk("words: the boxes of the characters stay", \A i \in 1..Len(D.chars) : D.chars[i].b = E.chars[i].b)
  /\ \A p \in 1..Len(D.pages) : WordsPage(D, E, p)
  /\ Chk("words: all words are on a page, each once", NoDup(Flat([ p \in 1..Len(E.pages) |-> E.pages[p].w ]))
         /\ Ran(Flat([ p \in 1..Len(E.pages) |-> E.pages[p].w ])) = 1..Len(E.words))

StackedPage(E, p) ==
  LET wids == E.pages[p].w
      words == [ k \in 1..Len(wids) |-> E.words[wids[k]] ]
      s == MScan(E.chars, words)
      id(k) == IF k = 0 THEN 0 ELSE wids[k]
  IN \A k \in 1..Len(words) :
       /\ ChkV("stacked math: base of the word", words[k].pst = id(s.pst[k]), <<p, k, s.pst[k]>>)
       /\ ChkV("stacked math: parts of the word", words[k].bst = [ i \in 1..Len(s.bst[k]) |-> wids[s.bst[k][i]] ],
               <<p, k, s.bst[k]>>)
StackedPost(E) == \A p \in 1..Len(E.pages) : StackedPage(E, p)
=============================================================================
