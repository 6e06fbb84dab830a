----------------------------- MODULE Statistics -----------------------------
(* The document-wide statistics that all later decisions refer to. Where several values are equally frequent, the
   choice between them is free. *)
EXTENDS Base

FsTol == Pt            \* font sizes within 1.0 pt count as equal

PageChars(D) == Flat([ p \in 1..Len(D.pages) |-> D.pages[p].c ])

GlyphStatsPost(D, E) ==
  LET ids == PageChars(D)
      n == Len(ids)
      w == SumSeq([ i \in 1..n |-> Width(D.chars[ids[i]]) ])
      h == SumSeq([ i \in 1..n |-> Height(D.chars[ids[i]]) ])
      \* K/1000 is the average of n values with sum s, up to the rounding to 1/1000 u
      avg(K, s) == LET q == s \div n  r == s % n IN Abs((K - 1000 * q) * n - 1000 * r) <= n
  IN IF n = 0
     THEN /\ Chk("glyph statistics: untouched if there is no glyph", E.st = D.st)
     ELSE /\ Chk("glyph statistics: most frequent font size", IsMode(E.st.mfs, [ i \in 1..n |-> D.chars[ids[i]].s ]))
          /\ Chk("glyph statistics: most frequent font", IsMode(E.st.mfn, [ i \in 1..n |-> D.chars[ids[i]].f ]))
          /\ ChkV("glyph statistics: average width", avg(E.st.acwK, w), <<w, n>>)
          /\ ChkV("glyph statistics: average height", avg(E.st.achK, h), <<h, n>>)
          /\ Chk("glyph statistics: nothing else", E.st.mwd = D.st.mwd /\ E.st.mwh = D.st.mwh /\ E.st.meld = D.st.meld)

-----------------------------------------------------------------------------
(* The word heights, the gaps between neighboured words of a line, and the gaps between lines, each over the words of
   at least the usual font size. *)
WordPairs(D) ==      \* all <<previous word or 0, word>>, page by page
  Flat([ p \in 1..Len(D.pages) |->
           [ i \in 1..Len(D.pages[p].w) |-> << IF i = 1 THEN 0 ELSE D.pages[p].w[i - 1], D.pages[p].w[i] >> ] ])
Usual(D, w) == w.s >= D.st.mfs - FsTol
WordStatsPost(D, E) ==
  LET ps == SelectSeq(WordPairs(D), LAMBDA q : Usual(D, D.words[q[2]]))
      heights == [ i \in 1..Len(ps) |-> Height(D.words[ps[i][2]]) ]
      cand == SelectSeq(ps, LAMBDA q : /\ q[1] # 0
                                       /\ D.words[q[1]].r = D.words[q[2]].r
                                       /\ D.words[q[1]].wm = D.words[q[2]].wm
                                       /\ Abs(D.words[q[1]].s - D.st.mfs) <= FsTol)
      ov(q) == MaxYOverlap(D.words[q[1]], D.words[q[2]])
      same == SelectSeq(cand, LAMBDA q : RatioGe(ov(q), 5000))
      diff == SelectSeq(cand, LAMBDA q : RatioLe(ov(q), 0))
      hg == [ i \in 1..Len(same) |-> HGap(D.words[same[i][1]], D.words[same[i][2]]) ]
      vg == [ i \in 1..Len(diff) |-> VGap(D.words[diff[i][1]], D.words[diff[i][2]]) ]
      ok(new, old, s) == IF s = <<>> THEN new = old ELSE IsMode(new, s)
  IN /\ Chk("word statistics: word height", ok(E.st.mwh, D.st.mwh, heights))
     /\ Chk("word statistics: word distance", ok(E.st.mwd, D.st.mwd, hg))
     /\ Chk("word statistics: estimated line distance", ok(E.st.meld, D.st.meld, vg))
     /\ Chk("word statistics: nothing else", E.st.mfs = D.st.mfs /\ E.st.mfn = D.st.mfn /\ E.st.acwK = D.st.acwK
                                             /\ E.st.achK = D.st.achK /\ E.st.mld = D.st.mld)

-----------------------------------------------------------------------------
(* The distances between consecutive lines of a segment, overall and per font size of the lower line. *)
LinePairs(D) ==
  Flat([ p \in 1..Len(D.pages) |->
    Flat([ s \in 1..Len(D.pages[p].sg) |->
      LET ls == D.segs[D.pages[p].sg[s]].l
      IN [ i \in 1..Max2(0, Len(ls) - 1) |-> << ls[i], ls[i + 1] >> ] ]) ])
LineStatsPost(D, E) ==
  LET ps == SelectSeq(LinePairs(D), LAMBDA q : D.lines[q[1]].r = D.lines[q[2]].r /\ D.lines[q[1]].wm = D.lines[q[2]].wm)
      dist(q) == Max2(0, RoundTenth(D.lines[q[2]].bb[2] - D.lines[q[1]].bb[4]))
      all == [ i \in 1..Len(ps) |-> dist(ps[i]) ]
      eq == SelectSeq(ps, LAMBDA q : Abs(D.lines[q[1]].s - D.lines[q[2]].s) <= FsTol)
      sizes == { D.lines[eq[i][2]].s : i \in 1..Len(eq) }
      of(fs) == LET x == SelectSeq(eq, LAMBDA q : D.lines[q[2]].s = fs) IN [ i \in 1..Len(x) |-> dist(x[i]) ]
      tab == E.st.mldfs
  IN /\ Chk("line statistics: line distance", IF all = <<>> THEN E.st.mld = D.st.mld ELSE IsMode(E.st.mld, all))
     /\ ChkV("line statistics: font sizes with a line distance", { tab[i][1] : i \in 1..Len(tab) } = sizes \cup
             { D.st.mldfs[i][1] : i \in 1..Len(D.st.mldfs) }, sizes)
     /\ \A i \in 1..Len(tab) : tab[i][1] \in sizes
            => ChkV("line statistics: line distance of the font size", IsMode(tab[i][2], of(tab[i][1])), tab[i])
     /\ Chk("line statistics: nothing else", E.st.mfs = D.st.mfs /\ E.st.acwK = D.st.acwK /\ E.st.achK = D.st.achK
                                             /\ E.st.mwd = D.st.mwd /\ E.st.meld = D.st.meld)
=============================================================================
