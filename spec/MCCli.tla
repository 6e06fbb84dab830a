-------------------------------- MODULE MCCli --------------------------------
(* Command lines grow one unit at a time, in every order. The file to be read is given somewhere among them (or not at
   all). Every line is replayed by running the program. *)
EXTENDS Cli

CONSTANTS N
VARIABLES us, pdf
vars == <<us, pdf>>

U(o, v) == [ o |-> o, v |-> v ]
Values(o) == CASE o = "format" -> Ran(Formats) \cup { "xml", "" }
               [] o = "role" -> { "title", "paragraph", "toc", "Title", "x" }
               [] o = "type" -> (Ran(Types) \ { "lines" }) \cup { "words,blocks", "x" }
               [] o = "verbosity" -> Ran(Levels) \cup { "DEBUG", "Info", "loud", "" }
               [] o = "log-page-filter" -> { "1", "2", "-1", "x", "1.5" }
               [] o = "visualization-path" -> { "v.pdf" }
               [] o = "output-file" -> { "out.txt", "-", "new/dir/out.txt" }
               [] o = "pdf-file" -> { "in.pdf" }
               [] OTHER -> { "" }
Alphabet == { U(o, v) : o \in { "unknown" }, v \in { "" } }
            \cup UNION { { U(o, v) : v \in Values(o) } : o \in Options \ ({ "pdf-file" } \cup Ran(Marks)) }
Files == { U("pos", "in.pdf"), U("pdf-file", "in.pdf"), U("pos", "none.pdf"), U("pos", "bad.pdf") }
Targets == { U("pos", "out.txt"), U("pos", "-") }

Init == us = <<>> /\ pdf = 0
Add == Len(us) - pdf < N /\ \E u \in Alphabet : us' = Append(us, u) /\ UNCHANGED pdf
AddFile == pdf = 0 /\ \E u \in Files : us' = Append(us, u) /\ pdf' = 1
AddTarget == pdf = 1 /\ \E u \in Targets : us' = Append(us, u) /\ pdf' = 2
AddMore == pdf = 2 /\ Len(us) = 2 /\ us' = Append(us, U("pos", "x")) /\ pdf' = 3
Next == Add \/ AddFile \/ AddTarget \/ AddMore
Spec == Init /\ [][Next]_vars

\* Exchanging neighbours changes nothing, unless both are positional arguments.
Swap(i) == [ us EXCEPT ![i] = us[i + 1], ![i + 1] = us[i] ]
OrderFree == \A i \in 1..(Len(us) - 1) : ~(us[i].o = "pos" /\ us[i + 1].o = "pos") => Meaning(Swap(i)) = Meaning(us)
\* A run needs a file; only the named settings differ from their defaults.
Sound == LET M == Meaning(us) IN
         /\ M.kind = "run" => M.c.pdf # ""
         /\ M.kind = "run" /\ M.c.off # {} => \E i \in 1..Len(us) : us[i].o \in Ran(First(Skips))
         /\ us = <<>> => M.kind = "error"
Dump == Len(us) = 0 \/ pdf > 0 \/ Len(us) = 1 => PrintT("HIST " \o ToJson([ u |-> us, m |-> Meaning(us) ]))
=============================================================================
