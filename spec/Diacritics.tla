----------------------------- MODULE Diacritics -----------------------------
(* Merging diacritical marks with their base characters.

   The characters of a page are scanned in extraction order. A character with exactly one code point that is (or whose
   combining equivalent is) a spacing modifier letter or a combining diacritical mark is a mark. Its candidates are the
   previous character (or, where that one is a mark merged before, the base it was merged into) and the next one
   (unless that is a mark itself). The mark is merged into the candidate with the larger horizontal overlap (the next
   one if they are equal), if there is any overlap. Merging composes the code points of the base and all its marks (NFC)
   and extends the box of the base; the code points, the glyph and the own text of both characters stay. *)
EXTENDS Base

CONSTANT CombiningMap   \* sequence of <<code point, combining code point>>

CombSet == { CombiningMap[i][1] : i \in 1..Len(CombiningMap) }
Comb(u) == IF u \in CombSet
           THEN CombiningMap[CHOOSE i \in 1..Len(CombiningMap) : CombiningMap[i][1] = u][2] ELSE u
IsMarkCode(u) == (Comb(u) >= 688 /\ Comb(u) <= 767) \/ (Comb(u) >= 768 /\ Comb(u) <= 879)
IsMark(c) == Len(c.u) = 1 /\ IsMarkCode(c.u[1])

(* The scanner. Its state is, per character of the page (by position):
     b     its current box
     md    the position of the base it was merged into (0: none)
     ms    the combining code points merged into it, in the order of merging *)
DInit(chars) == [ b |-> [ i \in 1..Len(chars) |-> chars[i].b ],
                  md |-> [ i \in 1..Len(chars) |-> 0 ],
                  last |-> [ i \in 1..Len(chars) |-> 0 ],
                  ms |-> [ i \in 1..Len(chars) |-> <<>> ] ]

RECURSIVE Resolve(_, _)
Resolve(s, i) == IF i = 0 \/ s.md[i] = 0 THEN i ELSE Resolve(s, s.md[i])

XOv(s, i, j) == IF i = 0 \/ j = 0 THEN <<0, 1>>
                ELSE MaxOverlap(s.b[i][1], s.b[i][3], s.b[j][1], s.b[j][3])

\* The base of the mark at position i, or 0.
BaseOf(chars, s, i) ==
  LET p == IF i = 1 THEN 0 ELSE Resolve(s, i - 1)
      n == IF i = Len(chars) THEN 0 ELSE IF IsMark(chars[i + 1]) THEN 0 ELSE i + 1
      op == XOv(s, p, i)
      on == XOv(s, i, n)
  IN IF RatioIsZero(op) /\ RatioIsZero(on) THEN 0
     ELSE IF RatioGt2(op, on) THEN p ELSE n

DStep(chars, s, i) ==
  IF ~IsMark(chars[i]) THEN s
  ELSE LET k == BaseOf(chars, s, i)
       IN IF k = 0 THEN s
          ELSE [ s EXCEPT !.md[i] = k,
                          !.last[k] = i,
                          !.ms[k] = Append(@, Comb(chars[i].u[1])),
                          !.b[k] = Union(@, s.b[i]) ]

DScan(chars) == FoldLeft(LAMBDA s, i : DStep(chars, s, i), DInit(chars), [ i \in 1..Len(chars) |-> i ])

(* What holds of the result, whatever the characters are. *)
NoChain(chars, s) == \A i \in 1..Len(chars) : s.md[i] # 0 => s.md[s.md[i]] = 0 /\ s.md[i] # i
\* Every merged mark contributes its code point to exactly one base that is kept, so no accent is lost or doubled.
MarksConserved(chars, s) ==
  \A k \in 1..Len(chars) : Len(s.ms[k]) = Cardinality({ i \in 1..Len(chars) : s.md[i] = k })
OnlyMarksMerged(chars, s) == \A i \in 1..Len(chars) : s.md[i] # 0 => IsMark(chars[i])
BoxGrows(chars, s) == \A i \in 1..Len(chars) : Union(s.b[i], chars[i].b) = s.b[i]

-----------------------------------------------------------------------------
(* Conformance: D is the document before, E the document after the stage. *)
NfcOf(T, key) == IF \E i \in 1..Len(T) : T[i].k = key
                 THEN T[CHOOSE i \in 1..Len(T) : T[i].k = key].t ELSE "<no such composition>"

DiacriticsPage(D, E, T, p) ==
  LET ids == D.pages[p].c
      chars == [ i \in 1..Len(ids) |-> D.chars[ids[i]] ]
      post == [ i \in 1..Len(ids) |-> E.chars[ids[i]] ]
      s == DScan(chars)
      id(i) == IF i = 0 THEN 0 ELSE ids[i]
  IN \A i \in 1..Len(ids) :
       /\ ChkV("diacritics: mark is merged into its base", post[i].md = id(s.md[i]), <<p, i, s.md[i]>>)
       /\ ChkV("diacritics: base knows that it has a mark", (post[i].mb = 0) = (s.last[i] = 0), <<p, i>>)
       /\ ChkV("diacritics: base refers to one of its marks",
               post[i].mb # 0 => \E j \in 1..Len(ids) : ids[j] = post[i].mb /\ s.md[j] = i, <<p, i>>)
       /\ ChkV("diacritics: box", post[i].b = s.b[i], <<p, i, s.b[i]>>)
       /\ ChkV("diacritics: composed text",
               IF s.ms[i] = <<>> THEN post[i].tm = "" ELSE post[i].tm = NfcOf(T, chars[i].u \o s.ms[i]),
               <<p, i, s.ms[i], post[i].tm>>)
       /\ ChkV("diacritics: nothing else changes",
               /\ post[i].t = chars[i].t /\ post[i].u = chars[i].u /\ post[i].s = chars[i].s
               /\ post[i].f = chars[i].f /\ post[i].r = chars[i].r /\ post[i].bs = chars[i].bs, <<p, i>>)

DiacriticsPost(D, E, T) ==
  /\ Chk("diacritics: same characters", Len(D.chars) = Len(E.chars)
         /\ \A p \in 1..Len(D.pages) : D.pages[p].c = E.pages[p].c)
  /\ \A p \in 1..Len(D.pages) : DiacriticsPage(D, E, T, p)
=============================================================================
