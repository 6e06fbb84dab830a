------------------------------ MODULE MCTarget -------------------------------
(* The text is written N times in a row, each time to one of a choice of targets, starting with some files. The names are
   placeholders: the replay gives them spellings with blanks, quotation marks, shell syntax, ... *)
EXTENDS Cli

CONSTANTS N
VARIABLES F, hist
vars == <<F, hist>>
Paths == { "-", "f", "x", "./x", "d", "d/y", "d/f", "n/y", "n/m/y", "f/y", "f/n/y", "x/y", "d/./y", "d//y", "./-", "n", "", "/dev/full" }
Start == FsOf(<< [ p |-> "f", k |-> "file", t |-> "old" ], [ p |-> "d", k |-> "dir", t |-> "/" ],
                 [ p |-> "d/f", k |-> "file", t |-> "old" ], [ p |-> "in.pdf", k |-> "pdf", t |-> "pdf" ] >>)
Init == F = Start /\ hist = <<>>
Run == Len(hist) < N /\ \E p \in Paths : F' = (IF p = "-" THEN F ELSE Write(F, p, "new")) /\ hist' = Append(hist, p)
Spec == Init /\ [][Run]_vars

\* Directories stay, files are never lost, parents of everything are directories, and only the target may change.
Sound == /\ \A p \in DOMAIN Start : p \in DOMAIN F /\ F[p].k = Start[p].k
         /\ \A p \in DOMAIN F : \A q \in Parents(p) : IsDir(F, q)
         /\ F[<<"in.pdf">>] = Start[<<"in.pdf">>]
OnlyTarget == [][ LET p == hist'[Len(hist')] IN
                  \A q \in DOMAIN F' : (q \in DOMAIN F /\ F'[q] = F[q]) \/ q = Names(p) \/ q \in Parents(Names(p)) ]_vars
Dump == Len(hist) = N => PrintT("HIST " \o ToJson(hist))
=============================================================================
