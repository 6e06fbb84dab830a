----------------------------- MODULE MCScripts ------------------------------
(* Sub- and superscripts in a line under every sequence of at most N glyphs: sizes around the threshold of 0.9 pt below
   the usual size (10 pt) and base lines around 0.1 pt from the one of the line. *)
EXTENDS Lines, Json

CONSTANTS N
Sizes == <<1600, 1460, 1450, 1000>>
Offs == <<0, -10, -20, 10, 20, -400, 300>>
VARIABLES cs, box
vars == <<cs, box>>
St == [ mfs |-> 1600 ]
Init == cs = <<>> /\ box = <<>>
\* The base line of the line is the one of its first glyph here (the histories begin with as many of them as needed).
Base0 == 33000
Glyph(s, o) == [ b |-> << 32000 + 900 * Len(cs), Base0 + o - 700, 32800 + 900 * Len(cs), Base0 + o >>, s |-> s, bs |-> Base0 + o ]
Feed(i, j) ==
  /\ Len(cs) < N
  /\ LET g == Glyph(Sizes[i], Offs[j])
     IN /\ cs' = Append(cs, g)
        /\ box' = IF Script(St, [ bs |-> Base0 ], g) # "none" THEN box
                  ELSE IF box = <<>> THEN g.b ELSE Union(box, g.b)
Next == \E i \in 1..Len(Sizes), j \in 1..Len(Offs) : Feed(i, j)
Spec == Init /\ [][Next]_vars

Sc(i) == Script(St, [ bs |-> Base0 ], cs[i])
OnlySmallOnes == \A i \in 1..Len(cs) : Sc(i) # "none" => cs[i].s < 1600 - ScriptFsTol /\ Abs(cs[i].bs - Base0) > BaseTol
UpIsSuper == \A i \in 1..Len(cs) : (Sc(i) = "sup" => cs[i].bs < Base0) /\ (Sc(i) = "sub" => cs[i].bs > Base0)
BaseBox == LET plain == SelectSeq(cs, LAMBDA g : Script(St, [ bs |-> Base0 ], g) = "none")
           IN IF plain = <<>> THEN box = <<>> ELSE box = UnionSeq([ i \in 1..Len(plain) |-> plain[i].b ])
Dump == Len(cs) = N => PrintT("HIST " \o ToJson(cs))
=============================================================================
