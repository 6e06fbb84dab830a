------------------------------ MODULE MCOutput ------------------------------
(* Every document of at most N words over a few texts, each of which continues the line or starts a new line, text block
   (of one of two roles) or page. The dehyphenation consumes a line as soon as it is complete; the printed texts are
   those of the finished document. The completed documents are printed, so that they can be replayed on the real code. *)
EXTENDS Output

CONSTANTS N, Texts
Breaks == { "w", "l", "b", "r", "p" }

VARIABLES h, S, cur, prevw, lines
vars == <<h, S, cur, prevw, lines>>

Words(hh) == [ i \in 1..Len(hh) |-> [ t |-> hh[i].t, c |-> <<i>> ] ]
Init == h = <<>> /\ S = HInit(N) /\ cur = <<>> /\ prevw = <<>> /\ lines = 0
\* The completed line, if there is one, is consumed before the next word is added.
Add(t, k) ==
  /\ Len(h) < N
  /\ (h = <<>> => k = "p")
  /\ h' = Append(h, [ t |-> t, k |-> k ])
  /\ IF k = "w" THEN cur' = Append(cur, Len(h) + 1) /\ UNCHANGED <<S, prevw, lines>>
     ELSE /\ cur' = <<Len(h) + 1>>
          /\ IF cur = <<>> THEN UNCHANGED <<S, prevw, lines>>
             ELSE S' = HStep(Words(h), S, lines + 1, cur, prevw) /\ prevw' = cur /\ lines' = lines + 1
Next == \E t \in Texts, k \in Breaks : Add(t, k)
Spec == Init /\ [][Next]_vars

End == IF cur = <<>> THEN S ELSE HStep(Words(h), S, lines + 1, cur, prevw)

\* The document of a history.
DocOf(hh, E) ==
  LET Step(d, i) ==
        LET k == hh[i].k
            pg == IF k = "p" THEN Append(d.pages, [ num |-> Len(d.pages) + 1, bl |-> <<>> ]) ELSE d.pages
            nb == k \in {"p", "b", "r"}
            bl == IF nb THEN Append(d.blocks, [ l |-> <<>>, role |-> IF k = "r" THEN 1 ELSE 0, em |-> FALSE ]) ELSE d.blocks
            nl == k # "w"
            ln == IF nl THEN Append(d.lines, [ w |-> <<i>> ]) ELSE [d.lines EXCEPT ![Len(d.lines)].w = Append(@, i)]
        IN [ d EXCEPT !.pages = IF nb THEN [pg EXCEPT ![Len(pg)].bl = Append(@, Len(bl))] ELSE pg,
                      !.blocks = IF nl THEN [bl EXCEPT ![Len(bl)].l = Append(@, Len(ln))] ELSE bl,
                      !.lines = ln ]
      d0 == [ pages |-> <<>>, blocks |-> <<>>, lines |-> <<>>,
              words |-> [ i \in 1..Len(hh) |-> [ t |-> hh[i].t, c |-> <<i>>, h1 |-> E.h1[i], h2 |-> E.h2[i] ] ],
              chars |-> [ i \in 1..Len(hh) |-> [ t |-> hh[i].t, mb |-> 0, md |-> 0, tm |-> "" ] ],
              hyph |-> [ i \in 1..Len(E.m) |-> [ t |-> E.m[i] ] ] ]
  IN FoldLeft(Step, d0, [ i \in 1..Len(hh) |-> i ])

D == DocOf(h, End)
SameScan == HScan(D) = [End EXCEPT !.h1 = SubSeq(@, 1, Len(h)), !.h2 = SubSeq(@, 1, Len(h))] \/ h = <<>>

Strip(s) == FoldLeft(LAMBDA a, i : IF SubSeq(s, i, i) \in {" ", "\n"} THEN a ELSE a \o SubSeq(s, i, i), "", [ i \in 1..Len(s) |-> i ])
Piece(i) == IF End.h1[i] # 0 THEN Chop(h[i].t) ELSE h[i].t
\* Every letter is printed exactly once and in order, whatever is hyphenated, and only hyphens of split words vanish.
Complete == Strip(Txt(D, {})) = Concat([ i \in 1..Len(h) |-> Piece(i) ])
\* A filter by role splits what is printed without it.
Split == Len(Strip(Txt(D, {0}))) + Len(Strip(Txt(D, {1}))) = Len(Strip(Txt(D, {})))
\* The parts of a merged word are consecutive words of consecutive lines, and its text is theirs.
Parts(k) == { i \in 1..Len(h) : End.h1[i] = k \/ End.h2[i] = k }
Chains == \A k \in 1..Len(End.m) :
            LET P == Parts(k)
                a == CHOOSE i \in P : \A j \in P : i <= j
                z == CHOOSE i \in P : \A j \in P : i >= j
            IN /\ P = a..z /\ a < z
               /\ End.h2[a] # k /\ End.h1[z] # k
               /\ \A i \in a..(z - 1) : End.h1[i] = k /\ End.h2[i + 1] = k
               /\ \A i \in (a + 1)..z : h[i].k # "w"
               /\ End.m[k] = Concat([ j \in 1..(z - a + 1) |-> Piece(a + j - 1) ])
Dump == Len(h) = N => PrintT("HIST " \o ToJson(h))
=============================================================================
