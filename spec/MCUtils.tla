------------------------------ MODULE MCUtils --------------------------------
(* Counters, queues of fixed capacity and loggers under every sequence of at most N operations; the histories are
   replayed on the real ones. Part selects the object. *)
EXTENDS Utils

CONSTANTS N, Part, Keys

VARIABLES h, c, past
vars == <<h, c, past>>
Kinds == IF Part = "queue" THEN { <<"max", k>> : k \in 1..3 } \cup { <<"min", k>> : k \in 1..3 }
         ELSE IF Part = "logger" THEN { <<"", 0>> } ELSE { <<"double", 0>>, <<"string", 0>> }
VARIABLE kind
Init == /\ h = <<>> /\ kind \in Kinds
        /\ c = (IF Part = "logger" THEN [ level |-> 4, filter |-> -1 ] ELSE <<>>)
        /\ past = <<>>
Op(f, k) == [ f |-> f, k |-> k, v |-> 0, p |-> 0, m |-> "x" ]
Enabled ==
  CASE Part = "counter" -> { Op("inc", k) : k \in Keys } \cup { Op("set", 1), [ Op("set", 2) EXCEPT !.v = 2 ] }
                           \cup { Op("mode", 0), Op("sum", 0), Op("max", 0) }
    [] Part = "queue" -> { Op("push", k) : k \in Keys } \cup { Op("sort", 0), Op("sort", 1) }
                         \cup (IF c = <<>> THEN {} ELSE { Op("pop", 0), Op("top", 0) })
    [] Part = "logger" -> { Op("level", k) : k \in {0, 2, 4} } \cup { Op("filter", k) : k \in {-1, 0, 1, 2} }
                          \cup { [ Op("log", k) EXCEPT !.p = p ] : k \in {1, 2, 4}, p \in {0, 1, 2} }
Do(op) ==
  /\ Len(h) < N
  /\ h' = Append(h, op)
  /\ c' = (CASE Part = "counter" -> CStep(c, op) [] Part = "queue" -> QStep(kind[1], kind[2], c, op) [] Part = "logger" -> LogStep(c, op))
  /\ past' = IF op.f \in { "push", "inc" } THEN Append(past, op.k) ELSE past
  /\ UNCHANGED kind
Next == \E op \in Enabled : Do(op)
Spec == Init /\ [][Next]_<<h, c, past, kind>>

OnlyInc == \A i \in 1..Len(h) : h[i].f # "set"
CounterInv == Part = "counter" /\ OnlyInc =>
  /\ CSum(c) = Len(past)
  /\ CKeys(c) = Ran(past)
  /\ CMost(c) = (IF past = <<>> THEN 0 ELSE MaxSeq([ i \in 1..Len(past) |-> Count(past, past[i]) ]))
Sorted(q) == \A i \in 1..(Len(q) - 1) : q[i] <= q[i + 1]
QueueInv == Part = "queue" =>
  /\ Len(c) <= kind[2] /\ Sorted(c)
  /\ h # <<>> /\ h[Len(h)].f = "push" => h[Len(h)].k \in Ran(c)
  /\ \A k \in Ran(c) : Count(c, k) <= Count(past, k)
  \* Without pops, a max queue holds the smallest elements pushed, but for the last one (and the other way around).
  /\ (\A i \in 1..Len(h) : h[i].f # "pop") /\ Len(past) > kind[2] /\ kind[1] = "max" =>
       \A x \in Ran(c) : x = past[Len(past)] \/ Cardinality({ i \in 1..(Len(past) - 1) : past[i] < x }) < kind[2]
Dump == Len(h) = N => PrintT("HIST " \o ToJson([ kind |-> kind, ops |-> h ]))
=============================================================================
