#include "state.h"

namespace verif {

static std::string S(const bj::object& o, const char* k, const char* dflt = "") {
  auto* v = o.if_contains(k);
  return v ? std::string(v->as_string().c_str(), v->as_string().size()) : std::string(dflt);
}
static double D(const bj::object& o, const char* k, double dflt = 0.0) {
  auto* v = o.if_contains(k);
  return v ? fromU(*v) : dflt;
}
static int64_t I(const bj::object& o, const char* k, int64_t dflt = 0) {
  auto* v = o.if_contains(k);
  return v ? v->to_number<int64_t>() : dflt;
}
static bool B(const bj::object& o, const char* k) {
  auto* v = o.if_contains(k);
  return v && v->as_bool();
}
static const bj::array& A(const bj::object& o, const char* k) {
  static const bj::array empty;
  auto* v = o.if_contains(k);
  return v ? v->as_array() : empty;
}
static void box(const bj::object& o, const char* k, double* a, double* b, double* c, double* d) {
  auto* v = o.if_contains(k);
  if (!v) { return; }
  const auto& x = v->as_array();
  *a = fromU(x[0]); *b = fromU(x[1]); *c = fromU(x[2]); *d = fromU(x[3]);
}
static void pos(const bj::object& o, PdfElement* e) {
  box(o, "b", &e->pos->leftX, &e->pos->upperY, &e->pos->rightX, &e->pos->lowerY);
  e->pos->rotation = I(o, "r");
  e->pos->wMode = I(o, "wm");
  e->pos->pageNum = I(o, "pg", -1);
  e->rank = I(o, "rk", -1);
}
static void text(const bj::object& o, PdfTextElement* e) {
  e->text = S(o, "t");
  e->fontName = S(o, "f");
  e->fontSize = D(o, "s", -1);
  e->color[0] = e->color[1] = e->color[2] = 0;
  const auto& c = A(o, "c3");
  for (size_t i = 0; i < 3 && i < c.size(); i++) { e->color[i] = c[i].to_number<double>() / 1000.0; }
}

void State::load(const bj::object& j) {
  doc = new PdfDocument(S(j, "path"));
  if (auto* s = j.if_contains("st")) {
    const auto& o = s->as_object();
    doc->avgCharWidth = D(o, "acw");
    doc->avgCharHeight = D(o, "ach");
    doc->mostFreqFontSize = D(o, "mfs");
    doc->mostFreqFontName = S(o, "mfn");
    doc->mostFreqWordDistance = D(o, "mwd");
    doc->mostFreqEstimatedLineDistance = D(o, "meld");
    doc->mostFreqLineDistance = D(o, "mld");
    doc->mostFreqWordHeight = D(o, "mwh");
    doc->mostFreqLineLeftMargin = D(o, "mllm");
    for (const auto& p : A(o, "mldfs")) {
      doc->mostFreqLineDistancePerFontSize[fromU(p.as_array()[0])] = fromU(p.as_array()[1]);
    }
  }
  for (const auto& v : A(j, "fonts")) {
    const auto& o = v.as_object();
    auto* f = new PdfFontInfo();
    f->fontName = S(o, "name");
    f->normFontName = S(o, "norm");
    f->fontBaseName = S(o, "basen");
    f->weight = I(o, "weight", 400);
    f->isItalic = B(o, "italic");
    f->isType3 = B(o, "type3");
    doc->fontInfos[S(o, "name")] = f;
  }
  int n = 0;
  // First create all objects, then set the references between them.
  for (const auto& v : A(j, "chars")) {
    auto* c = new PdfCharacter();
    chars.id(c);
    const auto& o = v.as_object();
    c->id = "char-" + std::to_string(++n);
    pos(o, c); text(o, c); c->doc = doc;
    c->name = S(o, "n");
    c->base = D(o, "bs");
    for (const auto& u : A(o, "u")) { c->unicodes.push_back(u.to_number<unsigned int>()); }
    c->isSubscript = B(o, "sub");
    c->isSuperscript = B(o, "sup");
    c->textWithDiacriticMark = S(o, "tm");
    c->opacity = I(o, "op", 1000) / 1000.0;
  }
  for (const auto& v : A(j, "words")) { (void) v; words.id(new PdfWord()); }
  for (const auto& v : A(j, "segs")) { (void) v; segs.id(new PdfPageSegment()); }
  for (const auto& v : A(j, "lines")) { (void) v; lines.id(new PdfTextLine()); }
  for (const auto& v : A(j, "blocks")) { (void) v; blocks.id(new PdfTextBlock()); }
  for (const auto& v : A(j, "figs")) {
    auto* f = new PdfFigure(); figs.id(f);
    const auto& o = v.as_object();
    pos(o, f); f->doc = doc; f->id = "figure-" + std::to_string(figs.objs.size());
    box(o, "clip", &f->clipLeftX, &f->clipUpperY, &f->clipRightX, &f->clipLowerY);
    for (const auto& c : A(o, "c")) { f->characters.push_back(chars.at(c.to_number<int64_t>())); }
  }
  for (const auto& v : A(j, "shapes")) {
    auto* f = new PdfShape(); shapes.id(f); pos(v.as_object(), f); f->doc = doc;
    f->id = "shape-" + std::to_string(shapes.objs.size());
  }
  for (const auto& v : A(j, "graphics")) {
    auto* f = new PdfGraphic(); graphics.id(f); pos(v.as_object(), f); f->doc = doc;
    f->id = "graphic-" + std::to_string(graphics.objs.size());
  }
  for (const auto& v : A(j, "hyph")) {
    auto* w = new PdfWord(); hyph.id(w); w->doc = doc; w->text = S(v.as_object(), "t");
  }
  size_t k = 0;
  for (const auto& v : A(j, "chars")) {
    const auto& o = v.as_object();
    auto* c = chars.objs[k++];
    c->isDiacriticMarkOfBaseChar = chars.at(I(o, "md"));
    c->isBaseCharOfDiacriticMark = chars.at(I(o, "mb"));
    c->word = words.at(I(o, "w"));
  }
  k = 0;
  for (const auto& v : A(j, "words")) {
    const auto& o = v.as_object();
    auto* w = words.objs[k++];
    w->id = "word-" + std::to_string(k);
    pos(o, w); text(o, w); w->doc = doc;
    w->base = D(o, "bs");
    w->line = lines.at(I(o, "ln"));
    for (const auto& c : A(o, "c")) {
      auto* ch = chars.at(c.to_number<int64_t>());
      w->characters.push_back(ch);
      if (!ch->word) { ch->word = w; }
    }
    w->isPartOfStackedMathSymbol = words.at(I(o, "pst"));
    for (const auto& c : A(o, "bst")) {
      w->isBaseOfStackedMathSymbol.push_back(words.at(c.to_number<int64_t>()));
    }
    w->isFirstPartOfHyphenatedWord = hyph.at(I(o, "h1"));
    w->isSecondPartOfHyphenatedWord = hyph.at(I(o, "h2"));
  }
  k = 0;
  for (const auto& v : A(j, "segs")) {
    const auto& o = v.as_object();
    auto* s = segs.objs[k++];
    s->id = "segment-" + std::to_string(k);
    pos(o, s); s->doc = doc;
    box(o, "tb", &s->trimLeftX, &s->trimUpperY, &s->trimRightX, &s->trimLowerY);
    for (const auto& e : A(o, "e")) {
      std::string kind(e.as_array()[0].as_string().c_str());
      int64_t i = e.as_array()[1].to_number<int64_t>();
      PdfElement* el = nullptr;
      if (kind == "w") { el = words.at(i); }
      if (kind == "f") { el = figs.at(i); }
      if (kind == "s") { el = shapes.at(i); }
      if (kind == "g") { el = graphics.at(i); }
      s->elements.push_back(el);
    }
    for (const auto& e : A(o, "l")) { s->lines.push_back(lines.at(e.to_number<int64_t>())); }
    for (const auto& e : A(o, "bl")) { s->blocks.push_back(blocks.at(e.to_number<int64_t>())); }
  }
  k = 0;
  for (const auto& v : A(j, "lines")) {
    const auto& o = v.as_object();
    auto* l = lines.objs[k++];
    l->id = "line-" + std::to_string(k);
    pos(o, l); text(o, l); l->doc = doc;
    for (const auto& e : A(o, "w")) {
      auto* w = words.at(e.to_number<int64_t>());
      l->words.push_back(w);
      if (!w->line) { w->line = l; }
    }
    l->segment = segs.at(I(o, "sg"));
    l->block = blocks.at(I(o, "blk"));
    box(o, "bb", &l->baseBBoxLeftX, &l->baseBBoxUpperY, &l->baseBBoxRightX, &l->baseBBoxLowerY);
    l->maxFontSize = D(o, "ms");
    l->base = D(o, "bs");
    l->leftMargin = D(o, "lm");
    l->rightMargin = D(o, "rm");
    l->prevLine = lines.at(I(o, "pl"));
    l->nextLine = lines.at(I(o, "nl"));
    l->prevSiblingLine = lines.at(I(o, "psl"));
    l->nextSiblingLine = lines.at(I(o, "nsl"));
    l->parentLine = lines.at(I(o, "par"));
  }
  k = 0;
  for (const auto& v : A(j, "blocks")) {
    const auto& o = v.as_object();
    auto* b = blocks.objs[k++];
    b->id = "block-" + std::to_string(k);
    pos(o, b); text(o, b); b->doc = doc;
    for (const auto& e : A(o, "l")) {
      auto* l = lines.at(e.to_number<int64_t>());
      b->lines.push_back(l);
      if (!l->block) { l->block = b; }
    }
    b->segment = segs.at(I(o, "sg"));
    b->role = SemanticRole(I(o, "role"));
    b->isLinesCentered = B(o, "cen");
    b->isEmphasized = B(o, "em");
    b->hangingIndent = D(o, "hi");
    box(o, "tb", &b->trimLeftX, &b->trimUpperY, &b->trimRightX, &b->trimLowerY);
    b->prevBlock = blocks.at(I(o, "pb"));
    b->nextBlock = blocks.at(I(o, "nb"));
  }
  for (const auto& v : A(j, "pages")) {
    const auto& o = v.as_object();
    auto* p = new PdfPage();
    p->pageNum = I(o, "num");
    box(o, "clip", &p->clipLeftX, &p->clipUpperY, &p->clipRightX, &p->clipLowerY);
    for (const auto& e : A(o, "c")) { p->characters.push_back(chars.at(e.to_number<int64_t>())); }
    for (const auto& e : A(o, "w")) { p->words.push_back(words.at(e.to_number<int64_t>())); }
    for (const auto& e : A(o, "fg")) { p->figures.push_back(figs.at(e.to_number<int64_t>())); }
    for (const auto& e : A(o, "sh")) { p->shapes.push_back(shapes.at(e.to_number<int64_t>())); }
    for (const auto& e : A(o, "gr")) { p->graphics.push_back(graphics.at(e.to_number<int64_t>())); }
    for (const auto& e : A(o, "sg")) { p->segments.push_back(segs.at(e.to_number<int64_t>())); }
    for (const auto& e : A(o, "bl")) { p->blocks.push_back(blocks.at(e.to_number<int64_t>())); }
    for (const auto& e : A(o, "tl")) { p->textLines.push_back(lines.at(e.to_number<int64_t>())); }
    doc->pages.push_back(p);
  }
}

// ---------------------------------------------------------------------------------------------------------------------

void State::registerAll() {
  for (auto* p : doc->pages) {
    for (auto* c : p->characters) { chars.id(c); }
    for (auto* c : p->shapes) { shapes.id(c); }
    for (auto* c : p->graphics) { graphics.id(c); }
    for (auto* c : p->figures) {
      figs.id(c);
      for (auto* x : c->characters) { chars.id(x); }
      for (auto* x : c->shapes) { shapes.id(x); }
      for (auto* x : c->graphics) { graphics.id(x); }
    }
    for (auto* w : p->words) { words.id(w); }
    for (auto* s : p->segments) { segs.id(s); }
    for (auto* c : p->blockDetectionCuts) { cuts.id(c); }
    for (auto* c : p->readingOrderCuts) { cuts.id(c); }
  }
  for (auto* p : doc->pages) {
    for (auto* s : p->segments) {
      for (auto* l : s->lines) { lines.id(l); }
      for (auto* b : s->blocks) { blocks.id(b); }
    }
  }
  for (auto* p : doc->pages) {
    for (auto* b : p->blocks) { blocks.id(b); }
  }
  for (auto* p : doc->pages) {
    for (auto* l : p->textLines) { lines.id(l); }
  }
  for (size_t i = 0; i < blocks.objs.size(); i++) {
    for (auto* l : blocks.objs[i]->lines) { lines.id(l); }
  }
  for (size_t i = 0; i < lines.objs.size(); i++) {
    for (auto* w : lines.objs[i]->words) { words.id(w); }
  }
  for (size_t i = 0; i < words.objs.size(); i++) {
    for (auto* c : words.objs[i]->characters) { chars.id(c); }
    hyph.id(words.objs[i]->isFirstPartOfHyphenatedWord);
    hyph.id(words.objs[i]->isSecondPartOfHyphenatedWord);
  }
}

static bj::array bx(double a, double b, double c, double d) {
  return { toU(a), toU(b), toU(c), toU(d) };
}
static void dpos(bj::object* o, const PdfElement* e) {
  (*o)["b"] = bx(e->pos->leftX, e->pos->upperY, e->pos->rightX, e->pos->lowerY);
  (*o)["r"] = e->pos->rotation;
  (*o)["wm"] = e->pos->wMode;
  (*o)["pg"] = static_cast<int64_t>(e->pos->pageNum);
  (*o)["rk"] = e->rank;
}
static void dtext(bj::object* o, const PdfTextElement* e) {
  (*o)["t"] = e->text;
  (*o)["f"] = e->fontName;
  (*o)["s"] = toU(e->fontSize);
}
template <class T>
static bj::array ids(const Table<T>& t, const std::vector<T*>& v) {
  bj::array r;
  for (auto* p : v) { r.push_back(t.ref(p)); }
  return r;
}

bj::array State::element(const PdfElement* e) const {
  if (!e) { return { "0", 0 }; }
  if (auto* w = dynamic_cast<const PdfWord*>(e)) { return { "w", words.ref(w) }; }
  if (auto* w = dynamic_cast<const PdfFigure*>(e)) { return { "f", figs.ref(w) }; }
  if (auto* w = dynamic_cast<const PdfShape*>(e)) { return { "s", shapes.ref(w) }; }
  if (auto* w = dynamic_cast<const PdfGraphic*>(e)) { return { "g", graphics.ref(w) }; }
  if (auto* w = dynamic_cast<const PdfTextBlock*>(e)) { return { "b", blocks.ref(w) }; }
  return { "?", 0 };
}

bj::object State::cut(const Cut* c) const {
  auto el = [&](const PdfElement* e) { return element(e); };
  bj::object o;
  o["dir"] = c->dir == CutDir::X ? "x" : "y";
  o["ch"] = c->isChosen;
  o["pos"] = static_cast<int64_t>(c->posInElements);
  o["b"] = bx(c->x1, c->y1, c->x2, c->y2);
  o["gw"] = toU(c->gapWidth);
  o["gh"] = toU(c->gapHeight);
  o["pg"] = c->pageNum;
  o["eb"] = el(c->elementBefore);
  o["ea"] = el(c->elementAfter);
  bj::array e;
  for (auto* x : c->overlappingElements) { e.push_back(el(x)); }
  o["ov"] = e;
  return o;
}

bj::object State::dump() {
  registerAll();
  bj::object d;
  bj::object st;
  st["acw"] = toU(doc->avgCharWidth);
  st["ach"] = toU(doc->avgCharHeight);
  st["acwK"] = toU(doc->avgCharWidth * 1000.0);
  st["achK"] = toU(doc->avgCharHeight * 1000.0);
  st["mfs"] = toU(doc->mostFreqFontSize);
  st["mfn"] = doc->mostFreqFontName;
  st["mwd"] = toU(doc->mostFreqWordDistance);
  st["meld"] = toU(doc->mostFreqEstimatedLineDistance);
  st["mld"] = toU(doc->mostFreqLineDistance);
  st["mwh"] = toU(doc->mostFreqWordHeight);
  st["mllm"] = toU(doc->mostFreqLineLeftMargin);
  std::map<double, double> sorted(doc->mostFreqLineDistancePerFontSize.begin(),
      doc->mostFreqLineDistancePerFontSize.end());
  bj::array m;
  for (const auto& p : sorted) { m.push_back(bj::array{ toU(p.first), toU(p.second) }); }
  st["mldfs"] = m;
  d["st"] = st;

  bj::array fonts;
  std::map<std::string, PdfFontInfo*> fsorted(doc->fontInfos.begin(), doc->fontInfos.end());
  for (const auto& p : fsorted) {
    bj::object o;
    o["key"] = p.first;
    o["name"] = p.second->fontName;
    o["norm"] = p.second->normFontName;
    o["basen"] = p.second->fontBaseName;
    o["weight"] = p.second->weight;
    o["italic"] = p.second->isItalic;
    o["type3"] = p.second->isType3;
    fonts.push_back(o);
  }
  d["fonts"] = fonts;

  bj::array a;
  for (auto* c : chars.objs) {
    bj::object o;
    dpos(&o, c); dtext(&o, c);
    o["n"] = c->name;
    bj::array u;
    for (auto x : c->unicodes) { u.push_back(x); }
    o["u"] = u;
    o["bs"] = toU(c->base);
    o["sub"] = c->isSubscript;
    o["sup"] = c->isSuperscript;
    o["md"] = chars.ref(c->isDiacriticMarkOfBaseChar);
    o["mb"] = chars.ref(c->isBaseCharOfDiacriticMark);
    o["tm"] = c->textWithDiacriticMark;
    o["w"] = words.ref(c->word);
    bj::array col;
    for (int i = 0; i < 3; i++) {
      double x = c->color[i] * 1000.0;
      col.push_back((x == x && fabs(x) < 1e6) ? static_cast<int64_t>(llround(x)) : -999);
    }
    o["c3"] = col;
    double op = c->opacity * 1000.0;
    o["op"] = (op == op && fabs(op) < 1e6) ? static_cast<int64_t>(llround(op)) : -999;
    a.push_back(o);
  }
  d["chars"] = a;

  a.clear();
  for (auto* f : figs.objs) {
    bj::object o; dpos(&o, f);
    o["clip"] = bx(f->clipLeftX, f->clipUpperY, f->clipRightX, f->clipLowerY);
    o["c"] = ids(chars, f->characters);
    o["sh"] = ids(shapes, f->shapes);
    o["gr"] = ids(graphics, f->graphics);
    a.push_back(o);
  }
  d["figs"] = a;
  a.clear();
  for (auto* f : shapes.objs) { bj::object o; dpos(&o, f); a.push_back(o); }
  d["shapes"] = a;
  a.clear();
  for (auto* f : graphics.objs) { bj::object o; dpos(&o, f); a.push_back(o); }
  d["graphics"] = a;

  a.clear();
  for (auto* w : words.objs) {
    bj::object o;
    dpos(&o, w); dtext(&o, w);
    o["c"] = ids(chars, w->characters);
    o["ln"] = lines.ref(w->line);
    o["pst"] = words.ref(w->isPartOfStackedMathSymbol);
    o["bst"] = ids(words, w->isBaseOfStackedMathSymbol);
    o["h1"] = hyph.ref(w->isFirstPartOfHyphenatedWord);
    o["h2"] = hyph.ref(w->isSecondPartOfHyphenatedWord);
    a.push_back(o);
  }
  d["words"] = a;
  a.clear();
  for (auto* w : hyph.objs) {
    bj::object o; o["t"] = w->text; a.push_back(o);
  }
  d["hyph"] = a;

  auto el = [&](const PdfElement* e) { return element(e); };

  a.clear();
  for (auto* s : segs.objs) {
    bj::object o; dpos(&o, s);
    o["tb"] = bx(s->trimLeftX, s->trimUpperY, s->trimRightX, s->trimLowerY);
    bj::array e;
    for (auto* x : s->elements) { e.push_back(el(x)); }
    o["e"] = e;
    o["l"] = ids(lines, s->lines);
    o["bl"] = ids(blocks, s->blocks);
    a.push_back(o);
  }
  d["segs"] = a;

  a.clear();
  for (auto* l : lines.objs) {
    bj::object o; dpos(&o, l); dtext(&o, l);
    o["w"] = ids(words, l->words);
    o["sg"] = segs.ref(l->segment);
    o["blk"] = blocks.ref(l->block);
    o["bb"] = bx(l->baseBBoxLeftX, l->baseBBoxUpperY, l->baseBBoxRightX, l->baseBBoxLowerY);
    o["ms"] = toU(l->maxFontSize);
    o["bs"] = toU(l->base);
    o["lm"] = toU(l->leftMargin);
    o["rm"] = toU(l->rightMargin);
    o["pl"] = lines.ref(l->prevLine);
    o["nl"] = lines.ref(l->nextLine);
    o["psl"] = lines.ref(l->prevSiblingLine);
    o["nsl"] = lines.ref(l->nextSiblingLine);
    o["par"] = lines.ref(l->parentLine);
    a.push_back(o);
  }
  d["lines"] = a;

  a.clear();
  for (auto* b : blocks.objs) {
    bj::object o; dpos(&o, b); dtext(&o, b);
    o["l"] = ids(lines, b->lines);
    o["sg"] = segs.ref(b->segment);
    int r = static_cast<int>(b->role);
    o["role"] = (r >= 0 && r < 100) ? r : -1;
    o["cen"] = b->isLinesCentered;
    o["em"] = b->isEmphasized;
    o["hi"] = toU(b->hangingIndent);
    o["tb"] = bx(b->trimLeftX, b->trimUpperY, b->trimRightX, b->trimLowerY);
    o["pb"] = blocks.ref(b->prevBlock);
    o["nb"] = blocks.ref(b->nextBlock);
    a.push_back(o);
  }
  d["blocks"] = a;

  a.clear();
  for (auto* c : cuts.objs) { a.push_back(cut(c)); }
  d["cuts"] = a;

  a.clear();
  for (auto* p : doc->pages) {
    bj::object o;
    o["num"] = p->pageNum;
    o["clip"] = bx(p->clipLeftX, p->clipUpperY, p->clipRightX, p->clipLowerY);
    o["c"] = ids(chars, p->characters);
    o["w"] = ids(words, p->words);
    o["fg"] = ids(figs, p->figures);
    o["sh"] = ids(shapes, p->shapes);
    o["gr"] = ids(graphics, p->graphics);
    o["sg"] = ids(segs, p->segments);
    o["bl"] = ids(blocks, p->blocks);
    o["tl"] = ids(lines, p->textLines);
    o["bc"] = ids(cuts, p->blockDetectionCuts);
    o["rc"] = ids(cuts, p->readingOrderCuts);
    a.push_back(o);
  }
  d["pages"] = a;
  return d;
}

// Replaces the random ids of all objects by those load() gives. Returns whether they were pairwise different.
bool State::renumber() {
  registerAll();
  std::map<std::string, int> seen;
  auto all = [&](auto& t, const char* p) {
    for (size_t i = 0; i < t.objs.size(); i++) {
      seen[t.objs[i]->id]++;
      t.objs[i]->id = p + std::to_string(i + 1);
    }
  };
  all(chars, "char-");
  all(words, "word-");
  all(segs, "segment-");
  all(lines, "line-");
  all(blocks, "block-");
  all(figs, "figure-");
  all(shapes, "shape-");
  all(graphics, "graphic-");
  for (auto& x : seen) { if (x.second > 1 || x.first.empty()) { return false; } }
  return true;
}

}  // namespace verif
