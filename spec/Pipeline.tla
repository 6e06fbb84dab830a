------------------------------ MODULE Pipeline -------------------------------
(* The pipeline as a whole: which stages run, in which order, under which switches, what is reported about them, that a
   run depends on nothing but the file and the switches, and that logging changes nothing. *)
EXTENDS Base

\* The stages in their order with the names they are reported with. The first two cannot be switched off, and the
\* prediction of roles ("roles") is a part of the detection of the reading order.
Order == << "load", "parse", "glyphstats", "diacritics", "words", "wordstats", "segs", "lines", "scripts", "linestats",
            "blocks", "order", "dehyph" >>
Reported == << "Load PDF", "Parse PDF", "Calculate glyph statistics", "Merge combining diacritics", "Detect words",
               "Calculate words statistics", "Segment pages", "Detect lines", "Detect sub/superscripts",
               "Calculate text line statistics", "Detect text blocks", "Detect reading order", "Dehyphenate words" >>
Switches == Ran(SubSeq(Order, 3, Len(Order))) \cup { "roles", "fontfiles" }

Runs(i, off) == Order[i] \notin off
Planned(off) == SelectSeq([ i \in 1..Len(Order) |-> i ], LAMBDA i : Runs(i, off))
Plan(off) == Map(Planned(off), LAMBDA i : Order[i])
Report(off, readable) == IF readable THEN Map(Planned(off), LAMBDA i : Reported[i]) ELSE << Reported[1] >>

-----------------------------------------------------------------------------
(* Records of the conformance runs.
   compose: the stages named in the record ran one after the other, each on its own, on the parsed file.
   process: the pipeline ran with the switches in "disabled"; level and filter are those of all loggers. *)
ComposeOk(R) == ChkV("plan", <<"load", "parse">> \o R.stages = Plan(Ran(R.disabled)), R.stages)

\* The lines of a page are, in the end, those of its blocks.
Final(D) == [ D EXCEPT !.pages = Map(D.pages, LAMBDA p :
                [ p EXCEPT !.tl = FoldLeft(LAMBDA acc, b : acc \o (IF b > 0 THEN D.blocks[b].l ELSE <<>>), <<>>, p.bl) ]) ]
\* What a compose record and a process record must agree on.
Same(D, E) == \A k \in DOMAIN D : ChkV(k, D[k] = E[k], <<k>>)

Readable(R) == R.rc = 0
ReportOk(R) == ChkV("reported stages", R.timings = Report(Ran(R.disabled), Readable(R)), <<R.disabled, R.timings>>)
\* k: an earlier record of the same job. D: its document as it should come out of process.
ProcessOk(T, l) ==
  LET R == T[l] IN
  /\ ReportOk(R)
  /\ ChkV("readable", Readable(R) = R.readable, <<R.file, R.rc>>)
  /\ ~Readable(R) => ChkV("nothing from an unreadable file", R.doc.pages = <<>> /\ R.doc.chars = <<>>, R.file)
  /\ T[l - 1].op = "compose" /\ T[l - 1].job = R.job /\ T[l - 1].file = R.file /\ Ran(T[l - 1].disabled) = Ran(R.disabled) =>
       /\ ChkV("same code", R.rc = T[l - 1].rc, R.rc)
       /\ LET E == Final(T[l - 1].doc) IN Same(E, R.doc)
DeterministicOk(T, l) ==
  LET R == T[l] IN
  \A k \in 1..(l - 1) : T[k].job = R.job /\ T[k].op = "process" /\ T[k].file = R.file /\ Ran(T[k].disabled) = Ran(R.disabled) =>
    /\ ChkV("same code as before", R.rc = T[k].rc, <<R.rc, T[k].rc>>)
    /\ ChkV("same stages as before", R.timings = T[k].timings, <<R.timings, T[k].timings>>)
    /\ Same(T[k].doc, R.doc)

-----------------------------------------------------------------------------
(* Logging. The first run of a job logs everything (level 0, no filter): R.log counts the messages per level. A later one
   prints exactly those of its level or above, and with a filter those of one page and those of no page. Filters are
   tried for a page that does not exist and for each page. *)
FirstOf(T, l) == MinSeq(SelectSeq([ i \in 1..l |-> i ], LAMBDA i : T[i].job = T[l].job /\ T[i].op = "process"))
LogOk(T, l) ==
  LET R == T[l]
      f == FirstOf(T, l)
      A == T[f].log
      before == SelectSeq([ i \in 1..(l - f) |-> f + i ], LAMBDA i : T[i].op = "process" /\ T[i].level = 0 /\ T[i].filter > 0)
  IN /\ R.filter = 0 => ChkV("messages by level", \A v \in 1..5 : R.log[v] = (IF v - 1 >= R.level THEN A[v] ELSE 0), <<R.level, A, R.log>>)
     /\ R.filter > 0 => ChkV("filtered messages", \A v \in 1..5 : R.log[v] <= A[v] /\ (v - 1 < R.level => R.log[v] = 0), <<A, R.log>>)
     /\ SumSeq(R.log) = 0 => ChkV("nothing printed", R.printed = 0, R.printed)
     /\ l > f => Same(T[f].doc, R.doc)
     \* The last filter of a job: its pages account for all messages, each once.
     /\ R.last =>
          LET none == T[before[1]].log
          IN ChkV("messages by page", \A v \in 1..5 :
                    A[v] = none[v] + SumSeq([ i \in 1..(Len(before) - 1) |-> T[before[i + 1]].log[v] - none[v] ]),
                  <<A, Map(before, LAMBDA i : T[i].log)>>)
=============================================================================
