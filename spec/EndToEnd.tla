----------------------------- MODULE EndToEnd ------------------------------
(* From the PDF to the output: what the content streams of a file show outside of figures is what the text formats print,
   up to blanks, line ends and the hyphens at the line ends that the dehyphenation removes.

   Texts are compared by the multisets of their canonical code points: those of the canonical decomposition (NFD, given
   by the oracle), where a spacing mark stands for its combining equivalent. *)
EXTENDS Base

CONSTANTS Comb(_), ShownIn(_), White

Canon(us) == Filter(Map(us, LAMBDA u : Comb(u)), LAMBDA u : u \notin White)
\* N[u]: how often u occurs.
Bag(us) == [ u \in Ran(us) |-> Count(us, u) ]
At(B, u) == IF u \in DOMAIN B THEN B[u] ELSE 0
Hyphen == 45

\* nfd: from texts to their decomposition.
Decomposed(nfd, t) == IF t = "" THEN <<>> ELSE nfd[t]
Expected(ts, nfd) == Bag(Canon(Flat(Map(ts, LAMBDA t : Decomposed(nfd, t)))))

\* Which hyphens were removed: those of the first parts of the merged words.
Joined(D) == { i \in 1..Len(D.words) : D.words[i].h1 # 0 }

(* The texts of the glyphs a file shows outside of figures: by the specification of the content streams where those are
   known, and otherwise as they were extracted. *)
GlyphTexts(P) ==
  IF "pages" \in DOMAIN P THEN ShownIn(P)
  ELSE Flat(Map(P.doc.pages, LAMBDA p : Map(p.c, LAMBDA c : P.doc.chars[c].t)))

\* exp, out: bags. Only so many hyphens are missing, and nothing is left over.
Conserved(what, exp, out, hyphens) ==
  \A u \in DOMAIN exp \cup DOMAIN out :
    ChkV(what \o ": every character once, and nothing else",
         At(out, u) = At(exp, u) - (IF u = Hyphen THEN hyphens ELSE 0), <<u, At(exp, u), At(out, u), hyphens>>)

Latest(T, l, op) == MaxSeq(SelectSeq([ i \in 1..l |-> i ], LAMBDA i : T[i].job = T[l].job /\ T[i].op = op))
ConserveOk(T, l) ==
  LET R == T[l]
      P == T[Latest(T, l, "pdf")]
      D == R.doc
      \* The texts of the words are those before the dehyphenation.
      h == IF R.fmt = "jsonl" THEN 0 ELSE Cardinality(Joined(D))
  IN /\ ChkV("read", P.rc = 0, P.rc)
     /\ \A i \in Joined(D) : ChkV("a removed hyphen is at the end of a line",
          /\ SubSeq(D.words[i].t, Len(D.words[i].t), Len(D.words[i].t)) = "-"
          /\ D.words[i].ln # 0 /\ LET ws == D.lines[D.words[i].ln].w IN ws[Len(ws)] = i, D.words[i].t)
     /\ Conserved(R.fmt, Expected(GlyphTexts(P), R.aux.nfd), Bag(Canon(R.aux.out)), h)
=============================================================================
