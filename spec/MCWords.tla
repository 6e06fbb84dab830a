------------------------------ MODULE MCWords -------------------------------
(* The word scanner under every sequence of at most N glyphs over an alphabet of steps around all thresholds. Each
   action feeds one glyph; the glyph's position is relative to the previous one. The completed sequences are printed,
   so that they can be replayed on the real code. *)
EXTENDS Words, Json, IOUtils

CONSTANTS N
Kinds == <<
  \* dx: gap to the previous glyph's right edge; dy: offset; s: font size; w, h; r; wm
  [dx |-> 0,    dy |-> 0,    s |-> 1600, w |-> 800, h |-> 1000, r |-> 0, wm |-> 0, md |-> 0],
  [dx |-> 240,  dy |-> 0,    s |-> 1600, w |-> 800, h |-> 1000, r |-> 0, wm |-> 0, md |-> 0],
  [dx |-> 250,  dy |-> 0,    s |-> 1600, w |-> 800, h |-> 1000, r |-> 0, wm |-> 0, md |-> 0],
  [dx |-> 480,  dy |-> 0,    s |-> 3200, w |-> 1600, h |-> 2000, r |-> 0, wm |-> 0, md |-> 0],
  [dx |-> 490,  dy |-> 0,    s |-> 3200, w |-> 1600, h |-> 2000, r |-> 0, wm |-> 0, md |-> 0],
  [dx |-> 0,    dy |-> 500,  s |-> 1600, w |-> 800, h |-> 1000, r |-> 0, wm |-> 0, md |-> 0],
  [dx |-> 0,    dy |-> 510,  s |-> 1600, w |-> 800, h |-> 1000, r |-> 0, wm |-> 0, md |-> 0],
  [dx |-> 0,    dy |-> -500, s |-> 1600, w |-> 800, h |-> 1000, r |-> 0, wm |-> 0, md |-> 0],
  [dx |-> 0,    dy |-> -510, s |-> 1600, w |-> 800, h |-> 1000, r |-> 0, wm |-> 0, md |-> 0],
  [dx |-> -4000, dy |-> 0,   s |-> 1600, w |-> 800, h |-> 1000, r |-> 0, wm |-> 0, md |-> 0],
  [dx |-> -1000, dy |-> 0,   s |-> 1600, w |-> 500, h |-> 600,  r |-> 0, wm |-> 0, md |-> 0],
  [dx |-> 0,    dy |-> 0,    s |-> 1600, w |-> 800, h |-> 1000, r |-> 1, wm |-> 0, md |-> 0],
  [dx |-> 0,    dy |-> 0,    s |-> 1600, w |-> 800, h |-> 1000, r |-> 2, wm |-> 0, md |-> 0],
  [dx |-> -1800, dy |-> 0,   s |-> 1600, w |-> 800, h |-> 1000, r |-> 2, wm |-> 0, md |-> 0],
  [dx |-> 0,    dy |-> 0,    s |-> 1600, w |-> 800, h |-> 1000, r |-> 0, wm |-> 1, md |-> 0],
  [dx |-> 0,    dy |-> 0,    s |-> 1600, w |-> 0,   h |-> 0,    r |-> 0, wm |-> 0, md |-> 0],
  [dx |-> 0,    dy |-> 0,    s |-> 1600, w |-> 800, h |-> 1000, r |-> 0, wm |-> 0, md |-> 1] >>

Start == [ b |-> <<32000, 32000, 32000, 33000>>, s |-> 1600, r |-> 0, wm |-> 0, md |-> 0 ]
MkChar(prev, k) ==
  LET x == prev.b[3] + Kinds[k].dx
      y == prev.b[2] + Kinds[k].dy
  IN [ b |-> <<x, y, x + Kinds[k].w, y + Kinds[k].h>>, s |-> Kinds[k].s, r |-> Kinds[k].r, wm |-> Kinds[k].wm,
       md |-> Kinds[k].md ]

VARIABLES chars, s
vars == <<chars, s>>
Init == chars = <<>> /\ s = WInit
Feed(k) ==
  /\ Len(chars) < N
  /\ (Kinds[k].md = 1 => Len(chars) > 0 /\ chars[Len(chars)].md = 0)
  /\ LET c == MkChar(IF chars = <<>> THEN Start ELSE chars[Len(chars)], k)
     IN /\ chars' = Append(chars, c)
        /\ s' = WStep(s, Len(chars) + 1, c)
Next == \E k \in 1..Len(Kinds) : Feed(k)
Spec == Init /\ [][Next]_vars

Ws == WEnd(s)
Partition == WordsPartition(chars, Ws) /\ WordsNonEmpty(Ws)
Homogeneous == WordsHomogeneous(chars, Ws)
ActiveBox == s.act.cs # <<>> => s.act.b = UnionSeq([ i \in 1..Len(s.act.cs) |-> chars[s.act.cs[i]].b ])
                                /\ s.act.fs = MaxSeq([ i \in 1..Len(s.act.cs) |-> chars[s.act.cs[i]].s ])
\* The scan is the same as the fold that trace validation uses.
SameScan == Ws = WScan(chars)
Dump == Len(chars) = N => PrintT("HIST " \o ToJson(chars))
=============================================================================
