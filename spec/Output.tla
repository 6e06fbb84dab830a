------------------------------ MODULE Output -------------------------------
(* Dehyphenation and the output formats.

   Dehyphenation is a scan over the lines of all text blocks in reading order. S.h1[w] (S.h2[w]) is the merged word whose
   first (second) part the word w is; S.m are the texts of the merged words. A word that is hyphenated over more than two
   lines continues one merged word: its middle parts are second and first part of it.

   The formats are functions from a document, the set of roles to be printed (no role stands for all of them) and the set
   of requested kinds to what is printed. *)
EXTENDS Base

LinesInOrder(D) == Flat([ p \in 1..Len(D.pages) |->
                      Flat([ i \in 1..Len(D.pages[p].bl) |-> D.blocks[D.pages[p].bl[i]].l ]) ])

Hyphenated(t) == Len(t) > 1 /\ SubSeq(t, Len(t), Len(t)) = "-"
Chop(t) == SubSeq(t, 1, Len(t) - 1)

\* Scanner state: prev, the previous line with words (0: none).
HInit(nw) == [ prev |-> 0, m |-> <<>>, h1 |-> [ w \in 1..nw |-> 0 ], h2 |-> [ w \in 1..nw |-> 0 ] ]
\* W: words (with texts t), ln: number of the line, ws: its words, pw: the words of the line S.prev.
HStep(W, S, ln, ws, pw) ==
  IF ws = <<>> THEN S
  ELSE IF S.prev = 0 THEN [S EXCEPT !.prev = ln]
  ELSE LET a == pw[Len(pw)]
           b == ws[1]
       IN IF ~Hyphenated(W[a].t) THEN [S EXCEPT !.prev = ln]
          ELSE LET k == S.h2[a]
               IN IF k # 0
                  THEN [S EXCEPT !.prev = ln, !.m[k] = Chop(@) \o W[b].t, !.h1[a] = k, !.h2[b] = k]
                  ELSE [S EXCEPT !.prev = ln, !.m = Append(@, Chop(W[a].t) \o W[b].t), !.h1[a] = Len(S.m) + 1,
                                 !.h2[b] = Len(S.m) + 1]
HScan(D) == FoldLeft(LAMBDA S, l : HStep(D.words, S, l, D.lines[l].w, IF S.prev = 0 THEN <<>> ELSE D.lines[S.prev].w),
                     HInit(Len(D.words)), LinesInOrder(D))

DehyphPost(Pre, Post) ==
  LET S == HScan(Pre)
      W == Post.words
      N == Len(W)
      \* The merged words are compared by their texts and by which words share one.
      T(k) == Post.hyph[k].t
      used == { w \in 1..N : S.h1[w] # 0 \/ S.h2[w] # 0 }
  IN /\ Chk("dehyphenation: number of words", N = Len(Pre.words))
     /\ \A w \in 1..N :
          /\ ChkV("dehyphenation: first part of a hyphenated word", (W[w].h1 # 0) = (S.h1[w] # 0), <<w, W[w].t, W[w].h1>>)
          /\ ChkV("dehyphenation: second part of a hyphenated word", (W[w].h2 # 0) = (S.h2[w] # 0), <<w, W[w].t, W[w].h2>>)
          /\ W[w].h1 # 0 => ChkV("dehyphenation: merged text", T(W[w].h1) = S.m[S.h1[w]], <<w, T(W[w].h1), S.m[S.h1[w]]>>)
          /\ W[w].h2 # 0 => ChkV("dehyphenation: merged text", T(W[w].h2) = S.m[S.h2[w]], <<w, T(W[w].h2), S.m[S.h2[w]]>>)
     /\ \A a \in used, b \in used :
          (S.h1[a] # 0 /\ S.h2[b] # 0)
             => ChkV("dehyphenation: both parts refer to the same merged word",
                     (W[a].h1 = W[b].h2) = (S.h1[a] = S.h2[b]), <<a, b>>)
     /\ Chk("dehyphenation: nothing else changes",
            [Post EXCEPT !.hyph = <<>>, !.words = [ i \in 1..N |-> [W[i] EXCEPT !.h1 = 0, !.h2 = 0] ]]
              = [Pre EXCEPT !.hyph = <<>>, !.words = [ i \in 1..N |-> [Pre.words[i] EXCEPT !.h1 = 0, !.h2 = 0] ]])

-----------------------------------------------------------------------------
RoleNames == << "paragraph", "reference", "marginal", "footnote", "heading", "formula", "title", "author-info", "abstract",
                "date", "caption", "table", "other", "toc" >>
RoleUpper == << "PARAGRAPH", "REFERENCE", "MARGINAL", "FOOTNOTE", "HEADING", "FORMULA", "TITLE", "AUTHOR-INFO", "ABSTRACT",
                "DATE", "CAPTION", "TABLE", "OTHER", "TOC" >>
Wanted(roles, b) == roles = {} \/ b.role \in roles

CharText(c) == IF c.mb # 0 THEN c.tm ELSE IF c.md # 0 THEN "" ELSE c.t
WordText(D, w) == Concat([ i \in 1..Len(w.c) |-> CharText(D.chars[w.c[i]]) ])
PrintedWord(D, w) == IF w.h1 # 0 THEN D.hyph[w.h1].t ELSE WordText(D, w)
BlockWords(D, b) == Flat([ i \in 1..Len(b.l) |-> D.lines[b.l[i]].w ])
PrintedBlock(D, b) ==
  LET ws == SelectSeq(BlockWords(D, b), LAMBDA w : D.words[w].h2 = 0)
  IN JoinWith([ i \in 1..Len(ws) |-> PrintedWord(D, D.words[ws[i]]) ], " ")
PageBlocks(D, p, roles) == SelectSeq(D.pages[p].bl, LAMBDA b : Wanted(roles, D.blocks[b]))

Txt(D, roles) ==
  JoinWith(Flat([ p \in 1..Len(D.pages) |->
      [ i \in 1..Len(PageBlocks(D, p, roles)) |-> PrintedBlock(D, D.blocks[PageBlocks(D, p, roles)[i]]) ] ]), "\n\n") \o "\n"

\* soh is the control character that marks emphasised blocks; a form feed marks the end of a page.
ExtBlock(D, b, soh) == "[" \o RoleUpper[b.role + 1] \o "] " \o (IF b.em THEN soh ELSE "") \o PrintedBlock(D, b)
Ext(D, roles, soh) ==
  LET Step(s, p) ==
        LET bs == PageBlocks(D, p, roles)
            txt == JoinWith([ i \in 1..Len(bs) |-> ExtBlock(D, D.blocks[bs[i]], soh) ], "\n\n")
        IN [ out |-> s.out \o (IF bs # <<>> /\ s.any THEN "\n\n" ELSE "") \o txt \o "\n\f", any |-> s.any \/ bs # <<>> ]
  IN FoldLeft(Step, [ out |-> "", any |-> FALSE ], [ p \in 1..Len(D.pages) |-> p ]).out \o "\n"

-----------------------------------------------------------------------------
(* JSONL: one record per object. The records of the real output are parsed by a strict JSON parser, lengths are converted
   to u, colours and opacity to 1/1000. *)
Origin == "pdftotext++"
Font(D, key) == D.fonts[CHOOSE i \in 1..Len(D.fonts) : D.fonts[i].key = key]
Id(kind, i) == kind \o "-" \o ToString(i)
JBox(o) == [ minX |-> o.b[1], minY |-> o.b[2], maxX |-> o.b[3], maxY |-> o.b[4], page |-> o.pg, rank |-> o.rk, origin |-> Origin ]
JPage(p) == [ type |-> "page", num |-> p.num, width |-> p.clip[3] - p.clip[1], height |-> p.clip[4] - p.clip[2], origin |-> Origin ]
JFigure(D, i) == JBox(D.figs[i]) @@ [ type |-> "figure", id |-> Id("figure", i) ]
JShape(D, i) == JBox(D.shapes[i]) @@ [ type |-> "shape", id |-> Id("shape", i) ]
JBlock(D, i) == LET b == D.blocks[i]
                IN JBox(b) @@ [ type |-> "block", id |-> Id("block", i), font |-> b.f, fontSize |-> b.s, text |-> b.t,
                                role |-> RoleNames[b.role + 1] ]
JWord(D, i, bl) == LET w == D.words[i]
                   IN JBox(w) @@ [ type |-> "word", id |-> Id("word", i), font |-> w.f, fontSize |-> w.s, text |-> w.t,
                                   block |-> Id("block", bl) ]
JChar(D, i, wd, bl) ==
  LET c == D.chars[i]
      f == Font(D, c.f)
  IN JBox(c) @@ [ type |-> "char", id |-> Id("char", i), wMode |-> c.wm, rotation |-> c.r, font |-> c.f, fontSize |-> c.s,
                  weight |-> f.weight, italic |-> f.italic, color |-> c.c3, opacity |-> c.op, text |-> CharText(c),
                  word |-> Id("word", wd), block |-> Id("block", bl) ] @@ ("type-3" :> f.type3)
Section(D, kind, roles) ==
  Flat([ p \in 1..Len(D.pages) |->
    LET pg == D.pages[p]
        bs == PageBlocks(D, p, roles)
    IN CASE kind = "page"   -> << JPage(pg) >>
         [] kind = "figure" -> [ i \in 1..Len(pg.fg) |-> JFigure(D, pg.fg[i]) ]
         [] kind = "shape"  -> [ i \in 1..Len(pg.sh) |-> JShape(D, pg.sh[i]) ]
         [] kind = "block"  -> [ i \in 1..Len(bs) |-> JBlock(D, bs[i]) ]
         [] kind = "word"   -> Flat([ i \in 1..Len(bs) |->
                                  LET ws == BlockWords(D, D.blocks[bs[i]])
                                  IN [ k \in 1..Len(ws) |-> JWord(D, ws[k], bs[i]) ] ])
         [] kind = "char"   -> Flat([ i \in 1..Len(bs) |->
                                  LET ws == BlockWords(D, D.blocks[bs[i]])
                                  IN Flat([ k \in 1..Len(ws) |->
                                       LET cs == SelectSeq(D.words[ws[k]].c, LAMBDA c : D.chars[c].md = 0)
                                       IN [ n \in 1..Len(cs) |-> JChar(D, cs[n], ws[k], bs[i]) ] ]) ]) ])
Kinds == { "page", "char", "word", "block", "figure", "shape" }
\* The kinds come one after the other, in any order.
Contiguous(objs) == \A i \in 1..Len(objs), j \in 1..Len(objs) :
                      (i < j /\ objs[i].type = objs[j].type) => objs[i + 1].type = objs[i].type
JsonlOk(D, roles, kinds, aux) ==
  /\ ChkV("jsonl: every line is one JSON object", aux.ok, aux.bad)
  /\ Chk("jsonl: only the requested kinds", \A i \in 1..Len(aux.objs) : aux.objs[i].type \in kinds)
  /\ Chk("jsonl: the kinds follow each other", Contiguous(aux.objs))
  /\ \A k \in kinds :
       LET exp == Section(D, k, roles)
           got == SelectSeq(aux.objs, LAMBDA o : o.type = k)
       IN /\ ChkV("jsonl: number of objects", Len(got) = Len(exp), <<k, Len(got), Len(exp)>>)
          /\ \A i \in 1..Len(exp) : ChkV("jsonl: object", got[i] = exp[i], <<k, i, got[i], exp[i]>>)

SerOk(D, ev) ==
  LET roles == Ran(ev.roles)
  IN CASE ev.fmt = "txt" -> ChkV("plain text", ev.out = Txt(D, roles), <<ev.out, Txt(D, roles)>>)
       [] ev.fmt = "ext" -> ChkV("extended text", ev.out = Ext(D, roles, ev.aux.soh), <<ev.out, Ext(D, roles, ev.aux.soh)>>)
       [] ev.fmt = "jsonl" -> JsonlOk(D, roles, IF ev.kinds = <<>> THEN Kinds ELSE Ran(ev.kinds), ev.aux)
\* Printing changes nothing.
SerPost(Pre, Post, ev) == Chk("printing changes nothing", Post = Pre)
=============================================================================
