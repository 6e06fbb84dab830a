----------------------------- MODULE MCPipeline ------------------------------
(* The pipeline as a state machine: files are processed one after the other by one process, each with a choice of
   switches; a run goes through the stages one at a time. The states of the objects of a document are abstracted to the
   sequence of stages that worked on them, so that "the result depends on the file and the switches only" is a property
   of the model, and the histories (replayed on the real code) exercise it there. Mode "switches": one run under every
   set of switches; "runs": every sequence of N runs of files and switches from a smaller choice. *)
EXTENDS Pipeline

CONSTANTS N, Mode, Files

VARIABLES done, cur, pc
vars == <<done, cur, pc>>
SwitchSets == IF Mode = "switches" THEN SUBSET Switches
           ELSE { {}, {"dehyph"}, {"words"}, {"segs", "order"}, {"roles"}, {"diacritics", "fontfiles"} }
Bad(f) == f \in { "bad", "none" }
Init == done = <<>> /\ cur = [ file |-> "", off |-> {}, did |-> <<>>, rep |-> <<>> ] /\ pc = 0
Begin == /\ pc = 0 /\ Len(done) < N
         /\ \E f \in Files, o \in SwitchSets : cur' = [ file |-> f, off |-> o, did |-> <<>>, rep |-> <<>> ]
         /\ pc' = 1 /\ UNCHANGED done
RunStage == /\ pc \in 1..Len(Order) /\ Runs(pc, cur.off)
            /\ cur' = [ cur EXCEPT !.did = Append(@, Order[pc]), !.rep = Append(@, Reported[pc]) ]
            /\ pc' = IF Bad(cur.file) THEN Len(Order) + 1 ELSE pc + 1
            /\ UNCHANGED done
SkipStage == pc \in 1..Len(Order) /\ ~Runs(pc, cur.off) /\ pc' = pc + 1 /\ UNCHANGED <<done, cur>>
End == pc = Len(Order) + 1 /\ done' = Append(done, cur) /\ pc' = 0 /\ UNCHANGED cur
Next == Begin \/ RunStage \/ SkipStage \/ End
Spec == Init /\ [][Next]_vars

Index(s) == CHOOSE i \in 1..Len(Order) : Order[i] = s
InOrder == \A i, j \in 1..Len(cur.did) : i < j => Index(cur.did[i]) < Index(cur.did[j])
Obeys == \A i \in 1..Len(cur.did) : cur.did[i] \notin cur.off
AsPlanned == \A i \in 1..Len(done) :
               /\ done[i].rep = Report(done[i].off, ~Bad(done[i].file))
               /\ ~Bad(done[i].file) => done[i].did = Plan(done[i].off)
Deterministic == \A i, j \in 1..Len(done) : done[i].file = done[j].file /\ done[i].off = done[j].off => done[i] = done[j]
Dump == Len(done) = N /\ pc = 0 => PrintT("HIST " \o ToJson(Map(done, LAMBDA d : [ f |-> d.file, o |-> d.off ])))
=============================================================================
