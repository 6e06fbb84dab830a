------------------------------- MODULE MCBPE --------------------------------
(* The byte pair encoder on every word of at most L characters with every vocabulary over a set of tokens. A step is one
   round of merging. The pairs of vocabulary and word are printed with the result, so that they can be replayed. *)
EXTENDS Roles

CONSTANTS L, Tokens
Chars == {"a", "b"}

VARIABLES v, word, ts, phase
vars == <<v, word, ts, phase>>
\* The vocabulary numbers the chosen tokens in the order of Tokens.
TokenSeq == SetToSeq(Tokens)
VocabOf(set) == LET s == SelectSeq(TokenSeq, LAMBDA t : t \in set) IN [ t \in set |-> PosOf(s, t) - 1 ]
Init == /\ v \in { VocabOf(X) : X \in SUBSET Tokens }
        /\ word \in UNION { [1..n -> Chars] : n \in 1..L }
        /\ ts = Append(word, Meta[3]) /\ phase = "merge"
Merge == phase = "merge" /\ ~Done(v, ts) /\ ts' = Round(v, ts) /\ UNCHANGED <<v, word, phase>>
Stop == phase = "merge" /\ Done(v, ts) /\ phase' = "done" /\ UNCHANGED <<v, word, ts>>
Next == Merge \/ Stop
Spec == Init /\ [][Next]_vars

\* The tokens always spell the word and its end.
Spelled == Concat(ts) = Concat(word) \o Meta[3]
\* Merging ends, with nothing left to merge, in what the encoder returns.
Finished == phase = "done" => /\ Mergeable(v, ts) = {} \/ Len(ts) = 1
                              /\ Ids(v, ts) = EncodeWord(v, word)
                              /\ \A i \in 1..Len(ts) : Len(ts[i]) > 1 => Known(v, ts[i])
Shrinks == [][Len(ts') < Len(ts) \/ phase' # phase]_vars
Dump == phase = "done" => PrintT("HIST " \o ToJson([ v |-> v, word |-> Concat(word), ids |-> Ids(v, ts) ]))
=============================================================================
