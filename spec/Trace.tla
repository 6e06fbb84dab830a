------------------------------- MODULE Trace --------------------------------
(* Trace validation. A trace is a sequence of records: "load" (a new document), "stage" (a stage of the pipeline ran on
   the document), and records of the other operations of the harness. Each record holds the observed state after it; the
   state before it is the one of the previous record. The trace is a behaviour of the specification iff every record
   can be consumed by an action. Props selects the clauses: those of the property that is being decided. *)
EXTENDS Base, Json, IOUtils

TraceFile == IOEnv.TRACE
PropList == JsonDeserialize(IOEnv.PROPS)
Props == Ran(PropList)
CombMap == JsonDeserialize(IOEnv.COMBINING)
NameMap == JsonDeserialize(IOEnv.CHARMAP)

Tr == ndJsonDeserialize(TraceFile)

DI == INSTANCE Diacritics WITH CombiningMap <- CombMap
WO == INSTANCE Words
ST == INSTANCE Statistics
LI == INSTANCE Lines
BL == INSTANCE Blocks
XY == INSTANCE XYCut
OU == INSTANCE Output
RO == INSTANCE Roles
UT == INSTANCE Utils
PI == INSTANCE Pipeline
CO == INSTANCE Content WITH CharMap <- NameMap
\* The texts of the glyphs a generated file shows outside of figures.
ShownTexts(P) ==
  LET clip(x) == CO!PageClip(P.pages[x.pg].box, P.pages[x.pg].rot)
  IN Map(Filter(CO!Shown(P.pages, P.fonts), LAMBDA x : x.el.k = "char" /\ CO!SameClip(x.el.clip, clip(x))), LAMBDA x : x.el.t)
TY == INSTANCE Type1
CL == INSTANCE Cli
VI == INSTANCE Visual
\* The document that a run of the program draws is that of the last reference record.
VisualOk(T, k) ==
  LET M == CL!Meaning(T[k].units).c
      look(p) == T[k].look[CHOOSE i \in 1..Len(T[k].look) : T[k].look[i].p = p]
      ref == MaxSeq(SelectSeq([ i \in 1..(k - 1) |-> i ], LAMBDA i : T[i].op = "process"))
  IN M.vis = "" \/ VI!VisualOk(T[ref].doc, look(M.pdf), look(M.vis), M.show)
EE == INSTANCE EndToEnd WITH Comb <- DI!Comb, ShownIn <- ShownTexts, White <- CO!White

VARIABLE l
vars == <<l>>

IsEvent(op) == l <= Len(Tr) /\ Tr[l].op = op /\ l' = l + 1
IsStage(n) == IsEvent("stage") /\ Tr[l].name = n
On(p, cond) == p \in Props => cond
Pre == Tr[l - 1].doc
Post == Tr[l].doc

Load == IsEvent("load")
GlyphStats == IsStage("glyphstats") /\ On("glyphstats", ST!GlyphStatsPost(Pre, Post))
MergeDiacritics == IsStage("diacritics") /\ On("diacritics", DI!DiacriticsPost(Pre, Post, Tr[l].aux.nfc))
DetectWords == IsStage("words") /\ On("words", WO!WordsPost(Pre, Post)) /\ On("stacked", WO!StackedPost(Post))
WordStats == IsStage("wordstats") /\ On("wordstats", ST!WordStatsPost(Pre, Post))
DetectLines == IsStage("lines") /\ On("lines", LI!LinesPost(Pre, Post)) /\ On("trim", LI!TrimPost(Pre, Post))
               /\ On("hierarchy", LI!HierarchyPost(Pre, Post))
DetectScripts == IsStage("scripts") /\ On("scripts", LI!ScriptsPost(Pre, Post))
LineStats == IsStage("linestats") /\ On("linestats", ST!LineStatsPost(Pre, Post))
DetectBlocks == IsStage("blocks") /\ On("blocks", BL!BlocksPost(Pre, Post, Tr[l].aux))
                /\ On("blockattrs", BL!AttrPost(Pre, Post, Tr[l].aux))

SegmentPages == IsStage("segs") /\ On("segs", XY!SegsPost(Pre, Post, IF "ovn" \in DOMAIN Tr[l] THEN Tr[l].ovn ELSE 500))
DetectOrder == IsStage("order") /\ On("order", XY!OrderPost(Pre, Post))
Dehyphenate == IsStage("dehyph") /\ On("dehyph", OU!DehyphPost(Pre, Post))
PrintDoc == IsEvent("ser") /\ On("ser", OU!SerOk(Pre, Tr[l])) /\ On("ser", OU!SerPost(Pre, Post, Tr[l]))
            /\ On("conserve", EE!ConserveOk(Tr, l))
Predict == IsEvent("predict") /\ On("predict", RO!PredictPost(Pre, Tr[l]))
ReadPdf == IsEvent("pdf") /\ On("glyphs", CO!GlyphsPost(Tr[l], Post)) /\ On("figures", CO!FiguresPost(Tr[l], Post))
           /\ On("fontinfo", CO!FontInfoPost(Tr[l], Post)) /\ On("type1", TY!ProgramsPost(Tr[l]))
Calls == IsEvent("calls") /\ On("utils", UT!CallsOk(Tr[l]))
Counting == IsEvent("counter") /\ On("utils", UT!CounterOk(Tr[l]))
Queueing == IsEvent("queue") /\ On("utils", UT!QueueOk(Tr[l]))
Logging == IsEvent("logger") /\ On("log", UT!LoggerOk(Tr[l]))
RunProgram == IsEvent("cli") /\ On("cli", CL!CliOk(Tr, l)) /\ On("target", CL!TargetOk(Tr, l)) /\ On("visual", VisualOk(Tr, l))
Compose == IsEvent("compose") /\ On("pipeline", PI!ComposeOk(Tr[l]))
Process == IsEvent("process") /\ On("pipeline", PI!ProcessOk(Tr, l)) /\ On("deterministic", PI!DeterministicOk(Tr, l))
           /\ On("log", PI!LogOk(Tr, l))
\* Direct calls, and the preparation of what a later stage depends on.
RawXYCut == IsEvent("xycut") /\ On("xycut", XY!RawPost(Pre, Tr[l]))
Renumber == IsEvent("renumber") /\ On("ser", Chk("the ids are different", Tr[l].unique)) /\ Post = Pre
Prepare == IsEvent("quant") \/ IsEvent("roles")

TraceInit == l = 1
TraceNext == Load \/ GlyphStats \/ MergeDiacritics \/ DetectWords \/ WordStats \/ LineStats \/ DetectLines \/ DetectScripts \/ DetectBlocks
             \/ SegmentPages \/ DetectOrder \/ RawXYCut \/ Prepare \/ Renumber \/ Dehyphenate \/ PrintDoc \/ Predict \/ ReadPdf
             \/ Calls \/ Counting \/ Queueing \/ Logging \/ Compose \/ Process \/ RunProgram
TraceSpec == TraceInit /\ [][TraceNext]_vars
TraceAccepted == PrintT(<<"PREFIX", TLCGet("stats").diameter - 1, Len(Tr)>>)
                 /\ TLCGet("stats").diameter - 1 = Len(Tr)
=============================================================================
