--------------------------------- MODULE Cli ---------------------------------
(* The command line program: what a command line means, where the text goes, and what happens to the files.

   A command line is a sequence of units [o |-> option, v |-> value]; "pos" is a positional argument. Meaning folds over
   the units. The file system is a function from paths (sequences of names, relative to the working directory) to entries
   [k |-> "dir" | "file" | "pdf", t |-> content]. *)
EXTENDS Base

PI == INSTANCE Pipeline

Formats == << "txt", "txt-extended", "jsonl" >>
Roles == << "paragraph", "reference", "marginal", "footnote", "heading", "formula", "title", "author-info", "abstract", "date",
            "caption", "table", "other", "toc" >>
Types == << "pages", "blocks", "lines", "words", "characters", "figures", "shapes" >>
Levels == << "trace", "debug", "info", "warn", "error" >>
UpperLevels == << "TRACE", "DEBUG", "INFO", "WARN", "ERROR" >>
\* The switches and the stages they refer to.
Modules == << <<"glyphs-statistics-calculation", "glyphstats">>, <<"diacritic-marks-merging", "diacritics">>, <<"words-detection", "words">>,
              <<"words-statistics-calculation", "wordstats">>, <<"page-segmentation", "segs">>, <<"text-lines-detection", "lines">>,
              <<"sub-super-scripts-detection", "scripts">>, <<"text-lines-statistics-calculation", "linestats">>,
              <<"text-blocks-detection", "blocks">>, <<"reading-order-detection", "order">>, <<"semantic-roles-prediction", "roles">>,
              <<"words-dehyphenation", "dehyph">> >>
Skips == Append([ i \in 1..Len(Modules) |-> << "skip-" \o Modules[i][1], Modules[i][2] >> ], << "skip-embedded-font-files-parsing", "fontfiles" >>)
         \o << << "no-dehyphenation", "dehyph" >> >>
Debugs == Append([ i \in 1..Len(Modules) |-> << "debug-" \o Modules[i][1], Modules[i][2] >> ], << "debug-pdf-parsing", "parse" >>)
Shown == << "characters", "graphics", "figures", "shapes", "words", "text-lines", "text-blocks", "segments", "segment-cuts",
            "reading-order", "reading-order-cuts" >>
Marks == << "control-characters", "semantic-roles", "no-scripts" >>
Shows == [ i \in 1..Len(Shown) |-> "visualize-" \o Shown[i] ]

First(s) == Map(s, LAMBDA x : x[1])
Lookup(s, k) == s[PosOf(First(s), k)][2]
PublicOptions == { "format", "role", "type", "no-dehyphenation", "visualization-path", "verbosity", "version", "help" } \cup Ran(Marks) \cup Ran(Shows)
PrivateOptions == ({ "pdf-file", "output-file", "log-page-filter", "print-running-times", "full-help" } \cup Ran(First(Skips)) \cup Ran(First(Debugs)))
                  \ { "no-dehyphenation" }
Options == PublicOptions \cup PrivateOptions
Repeatable == { "role", "type" }
\* The values that an option takes (for a switch, <<>>); an option that is not listed takes any value.
Digits == { "0", "1", "2", "3", "4", "5", "6", "7", "8", "9" }
Numeric(v) == LET d == IF Len(v) > 0 /\ SubSeq(v, 1, 1) = "-" THEN SubSeq(v, 2, Len(v)) ELSE v
              IN Len(d) \in 1..6 /\ \A i \in 1..Len(d) : SubSeq(d, i, i) \in Digits
ValidValue(o, v) == CASE o = "format" -> v \in Ran(Formats)
                      [] o = "role" -> v \in Ran(Roles)
                      [] o = "type" -> v \in Ran(Types)
                      [] o = "verbosity" -> v \in Ran(Levels) \cup Ran(UpperLevels)
                      [] o = "log-page-filter" -> Numeric(v)
                      [] OTHER -> TRUE
ToInt(v) == IF SubSeq(v, 1, 1) = "-" THEN -1
            ELSE FoldLeft(LAMBDA a, i : 10 * a + (CHOOSE d \in 0..9 : ToString(d) = SubSeq(v, i, i)), 0, [ i \in 1..Len(v) |-> i ])
LevelOf(v) == (IF v \in Ran(Levels) THEN PosOf(Levels, v) ELSE PosOf(UpperLevels, v)) - 1

\* The positional arguments stand for the file to be read and the file to be written.
Positional == << "pdf-file", "output-file" >>
Named(us) == Map([ i \in 1..Len(us) |-> i ], LAMBDA i :
               IF us[i].o # "pos" THEN us[i]
               ELSE LET n == Cardinality({ k \in 1..i : us[k].o = "pos" })
                    IN [ o |-> IF n <= 2 THEN Positional[n] ELSE "too many arguments", v |-> us[i].v ])

Default == [ fmt |-> "txt", roles |-> {}, types |-> {}, off |-> {}, level |-> 4, dbg |-> {}, filter |-> -1, times |-> FALSE, vis |-> "",
             show |-> {}, marks |-> {}, pdf |-> "", out |-> "-" ]
Step(M, u) ==
  LET o == u.o  v == u.v IN
  CASE o = "format" -> [ M EXCEPT !.fmt = v ]
    [] o = "role" -> [ M EXCEPT !.roles = @ \cup {v} ]
    [] o = "type" -> [ M EXCEPT !.types = @ \cup {v} ]
    [] o \in Ran(First(Skips)) -> [ M EXCEPT !.off = @ \cup { Lookup(Skips, o) } ]
    [] o \in Ran(First(Debugs)) -> [ M EXCEPT !.dbg = @ \cup { Lookup(Debugs, o) } ]
    [] o \in Ran(Shows) -> [ M EXCEPT !.show = @ \cup { Shown[PosOf(Shows, o)] } ]
    [] o \in Ran(Marks) -> [ M EXCEPT !.marks = @ \cup {o} ]
    [] o = "verbosity" -> [ M EXCEPT !.level = LevelOf(v) ]
    [] o = "log-page-filter" -> [ M EXCEPT !.filter = ToInt(v) ]
    [] o = "print-running-times" -> [ M EXCEPT !.times = TRUE ]
    [] o = "visualization-path" -> [ M EXCEPT !.vis = v ]
    [] o = "pdf-file" -> [ M EXCEPT !.pdf = v ]
    [] o = "output-file" -> [ M EXCEPT !.out = v ]
    [] OTHER -> M

\* What a command line asks for: an error, one of the messages, or a run. A line that is wrong and asks for a message as
\* well may end with either one ("either").
Kind(us) ==
  LET ns == Named(us)
      has(o) == \E i \in 1..Len(ns) : ns[i].o = o
      unknown == \E i \in 1..Len(ns) : ns[i].o \notin Options
      wrong == \E i \in 1..Len(ns) : ~ValidValue(ns[i].o, ns[i].v)
      twice == \E i, j \in 1..Len(ns) : i < j /\ ns[i].o = ns[j].o /\ ns[i].o \notin Repeatable
      message == CASE has("full-help") -> "full-help" [] has("help") -> "help" [] has("version") -> "version" [] OTHER -> ""
  IN CASE message # "" /\ (unknown \/ wrong \/ twice) -> "either"
       [] unknown \/ wrong \/ twice -> "error"
       [] message # "" -> message
       [] ~has("pdf-file") -> "error"
       [] OTHER -> "run"
Meaning(us) == IF Kind(us) = "run" THEN [ kind |-> "run", c |-> FoldLeft(Step, Default, Named(us)) ]
               ELSE [ kind |-> Kind(us), c |-> Default ]

-----------------------------------------------------------------------------
(* Paths and files. *)
RECURSIVE NamesFrom(_, _, _)
\* The names of a path; empty names and "." do not count.
NamesFrom(p, i, cur) ==
  LET add == IF cur \in {"", "."} THEN <<>> ELSE <<cur>>
  IN IF i > Len(p) THEN add
     ELSE IF SubSeq(p, i, i) = "/" THEN add \o NamesFrom(p, i + 1, "") ELSE NamesFrom(p, i + 1, cur \o SubSeq(p, i, i))
Names(p) == NamesFrom(p, 1, "")
\* The file system that is listed in a record.
FsOf(list) == [ p \in { Names(list[i].p) : i \in 1..Len(list) } |->
                  LET i == CHOOSE k \in 1..Len(list) : Names(list[k].p) = p IN [ k |-> list[i].k, t |-> list[i].t ] ]
Dir == [ k |-> "dir", t |-> "/" ]
IsDir(F, p) == p = <<>> \/ (p \in DOMAIN F /\ F[p].k = "dir")
Parents(p) == { SubSeq(p, 1, n) : n \in 1..(Len(p) - 1) }
MaxName == 255
TooLong(p) == \E i \in 1..Len(p) : Len(p[i]) > MaxName
\* Writing a file: [ ok, F ]. Missing parent directories are created.
Absolute(p) == Len(p) > 0 /\ SubSeq(p, 1, 1) = "/"
Writable(F, p) == /\ ~Absolute(p) /\ Names(p) # <<>> /\ ~TooLong(Names(p))
                  /\ \A q \in Parents(Names(p)) : q \in DOMAIN F => IsDir(F, q)
                  /\ ~IsDir(F, Names(p))
WithParents(F, p) == [ q \in DOMAIN F \cup Parents(p) |-> IF q \in DOMAIN F THEN F[q] ELSE Dir ]
Put(F, p, e) == [ q \in DOMAIN F \cup {p} |-> IF q = p THEN e ELSE F[q] ]
Write(F, p, t) == IF Writable(F, p) THEN Put(WithParents(F, Names(p)), Names(p), [ k |-> "file", t |-> t ]) ELSE F

-----------------------------------------------------------------------------
(* Records. A run is preceded by two reference records of the same job: "process" (the pipeline called with the settings
   the specification derives from the command line) and "ser" (its result printed to standard output). The record's aux
   splits what the program printed into messages, text and running times. *)
Kinds == [ pages |-> "page", blocks |-> "block", lines |-> "line", words |-> "word", characters |-> "char", figures |-> "figure",
           shapes |-> "shape" ]
Short == [ x \in {"txt"} |-> "txt" ] @@ [ x \in {"txt-extended"} |-> "ext" ] @@ [ x \in {"jsonl"} |-> "jsonl" ]

Unchanged(R) == ChkV("no file changes", FsOf(R.after) = FsOf(R.before), R.after)
ErrorOk(R) == /\ ChkV("error code", R.rc # 0, R.rc)
              /\ ChkV("error: nothing is printed", R.out = "", R.out)
              /\ ChkV("error: message", R.err # "", R.err)
              /\ Unchanged(R)
HelpOk(R, full) ==
  /\ ChkV("help: exit code", R.rc = 0, R.rc)
  /\ ChkV("help: options", Ran(R.aux.mentioned) = PublicOptions \cup (IF full THEN PrivateOptions ELSE {}),
          <<Ran(R.aux.mentioned) \ Options, Options \ Ran(R.aux.mentioned)>>)
  /\ Unchanged(R)
VersionOk(R) == /\ ChkV("version", R.rc = 0 /\ R.out = "pdftotext++, version 0.0\n", <<R.rc, R.out>>)
                /\ Unchanged(R)

\* The reference records were made with the settings that the command line asks for.
ReferenceOk(M, P, S) ==
  /\ ChkV("reference: stages", Ran(P.disabled) = M.off, <<M.off>>)
  /\ ChkV("reference: messages", P.level = M.level /\ P.filter = M.filter /\ Ran(P.debug) = M.dbg, <<M.level, M.filter, M.dbg>>)
  /\ ChkV("reference: output", /\ S.fmt = Short[M.fmt]
                               /\ { Roles[S.roles[i] + 1] : i \in 1..Len(S.roles) } = M.roles
                               /\ Ran(S.kinds) = { Kinds[t] : t \in M.types }, <<M.fmt, M.roles, M.types>>)
RunOk(R, M, P, S) ==
  LET F == FsOf(R.before)
      G == FsOf(R.after)
      stdout == M.out = "-"
      names == PI!Report(M.off, TRUE) \o << "Serialize" >> \o (IF M.vis # "" THEN << "Visualize" >> ELSE <<>>)
      \* The text of the reference, with the ids in it numbered; and that of the written file.
      W == IF stdout THEN F ELSE Write(F, M.out, R.aux.written)
      V == IF M.vis = "" THEN W ELSE Put(W, Names(M.vis), IF Names(M.vis) \in DOMAIN G THEN G[Names(M.vis)] ELSE Dir)
  IN IF P.rc # 0
     THEN /\ ChkV("unreadable file: code", R.rc = P.rc, <<R.rc, P.rc>>)
          /\ ChkV("unreadable file: nothing is printed", R.aux.text = "" /\ R.aux.times = <<>>, R.out)
          /\ Unchanged(R)
     ELSE /\ ReferenceOk(M, P, S)
          /\ stdout \/ Writable(F, M.out) => ChkV("exit code", R.rc = 0, R.rc)
          /\ ChkV("messages", R.aux.log = P.log, <<R.aux.log, P.log>>)
          /\ ChkV("running times", R.aux.times = (IF M.times THEN names ELSE <<>>), R.aux.times)
          /\ M.times => ChkV("total running time", R.aux.total = SumSeq(R.aux.millis), <<R.aux.total, R.aux.millis>>)
          /\ ChkV("printed text", R.aux.text = (IF stdout THEN S.aux.text ELSE ""), <<R.aux.text, S.aux.text>>)
          /\ ~stdout => IF Writable(F, M.out)
                        THEN /\ ChkV("written text", R.aux.writtentext = S.aux.text, <<R.aux.writtentext, S.aux.text>>)
                             /\ ChkV("no error", R.err = "", R.err)
                        ELSE ChkV("failed writing is reported", R.err # "", R.err)
          /\ ChkV("files", DOMAIN G = DOMAIN V, <<DOMAIN G \ DOMAIN V, DOMAIN V \ DOMAIN G>>)
          /\ \A p \in DOMAIN G : ChkV("file", G[p] = V[p], <<p>>)
          /\ M.vis # "" => ChkV("visualization", G[Names(M.vis)].k = "pdf", G[Names(M.vis)].k)
          \* The documented effects that no reference shows.
          /\ "lines" \in M.types /\ M.fmt = "jsonl" /\ P.lines > 0 => ChkV("lines are printed", R.aux.lines > 0, R.aux.lines)
          /\ "control-characters" \in M.marks /\ M.fmt = "txt" /\ P.breaks > 0 => ChkV("control characters", R.aux.feeds > 0, R.aux.feeds)
          /\ "semantic-roles" \in M.marks /\ M.fmt = "txt" /\ P.blocks > 0 => ChkV("semantic roles", R.aux.roles > 0, R.aux.roles)
          /\ "no-scripts" \in M.marks /\ P.scripts > 0 => ChkV("no scripts", R.aux.text # S.aux.text, R.aux.text)

\* The record T[l]; the reference of a run are the two records before the first command line of its group.
CliOk(T, l) ==
  LET R == T[l]
      M == Meaning(R.units)
  IN CASE M.kind = "error" -> ErrorOk(R)
       [] M.kind = "help" -> HelpOk(R, FALSE)
       [] M.kind = "full-help" -> HelpOk(R, TRUE)
       [] M.kind = "version" -> VersionOk(R)
       [] M.kind = "either" -> Unchanged(R)
       [] M.kind = "run" -> LET k == MaxSeq(SelectSeq([ i \in 1..(l - 1) |-> i ], LAMBDA i : T[i].op = "process"))
                            IN RunOk(R, M.c, T[k], T[k + 1])

(* The same for the target alone: whatever a run does to the files follows from the files before it and its target. *)
TargetOk(T, l) ==
  LET R == T[l]
      k == MaxSeq(SelectSeq([ i \in 1..(l - 1) |-> i ], LAMBDA i : T[i].op = "process"))
      S == T[k + 1]
      F == FsOf(R.before)
      G == FsOf(R.after)
      stdout == R.target = "-"
      ok == stdout \/ Writable(F, R.target)
      W == IF stdout THEN F ELSE Write(F, R.target, IF ok /\ Names(R.target) \in DOMAIN G THEN G[Names(R.target)].t ELSE "")
  IN /\ ChkV("standard output", R.aux.text = (IF stdout THEN S.aux.text ELSE ""), <<R.target, R.aux.text>>)
     \* A name that the system refuses ends the creation of the directories on the way to it.
     /\ IF TooLong(Names(R.target))
        THEN ChkV("files", DOMAIN F \subseteq DOMAIN G /\ DOMAIN G \subseteq DOMAIN WithParents(F, Names(R.target)), <<R.target, DOMAIN G>>)
        ELSE ChkV("files", DOMAIN G = DOMAIN W, <<R.target, DOMAIN G \ DOMAIN W, DOMAIN W \ DOMAIN G>>)
     /\ \A p \in DOMAIN G : ChkV("file", G[p] = (IF p \in DOMAIN W THEN W[p] ELSE Dir), <<R.target, p>>)
     /\ IF ok THEN /\ ChkV("no error", R.err = "" /\ R.rc = 0, <<R.target, R.rc, R.err>>)
                   /\ ~stdout => ChkV("written text", R.aux.writtentext = S.aux.text, <<R.target, R.aux.writtentext, S.aux.text>>)
        ELSE ChkV("failed writing is reported", R.err # "", R.target)
     \* The files of a history are what the runs before left.
     /\ ~R.fresh => ChkV("files between runs", R.before = T[l - 3].after, R.target)
=============================================================================
