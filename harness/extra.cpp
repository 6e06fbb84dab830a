#include <stdexcept>

#include "cppflow/cppflow.h"
#include <sys/stat.h>
#include <unistd.h>

#include <fstream>
#include <iostream>
#include <sstream>

#include <GlobalParams.h>
#include <PDFDoc.h>
#include <PDFDocFactory.h>

#include "PdfParsing.h"
#include "PdfToTextPlusPlus.h"
#include "SemanticRolesPrediction.h"
#include "ops.h"
#include "serializers/JsonlSerializer.h"
#include "serializers/PlainTextExtendedSerializer.h"
#include "serializers/PlainTextSerializer.h"
#include "utils/XYCut.h"

namespace verif {

static std::string str(const bj::value& v) { return std::string(v.as_string().c_str(), v.as_string().size()); }
static int64_t num(const bj::object& o, const char* k, int64_t d = 0) {
  auto* v = o.if_contains(k);
  return v ? v->to_number<int64_t>() : d;
}

// Direct calls of the XY-cut, on the elements of every page.
static bj::object xycut(Session* s, const bj::object& op) {
  bj::object e = op;
  auto choose = [](std::string m) {
    return [m](const std::vector<Cut*>& c, const std::vector<PdfElement*>&, bool) {
      for (size_t i = 0; i < c.size(); i++) { c[i]->isChosen = m == "all" || (m == "odd" && i % 2 == 0); }
    };
  };
  auto list = [&](const std::vector<PdfElement*>& v) {
    bj::array a;
    for (auto* x : v) { a.push_back(s->st.element(x)); }
    return a;
  };
  double minx = op.at("minx").to_number<double>() / U, miny = op.at("miny").to_number<double>() / U;
  int maxov = num(op, "maxov");
  std::string fn = str(op.at("fn"));
  bj::array res;
  for (auto* page : s->st.doc->pages) {
    std::vector<PdfElement*> els;
    for (auto* w : page->words) { els.push_back(w); }
    for (auto* w : page->figures) { els.push_back(w); }
    for (auto* w : page->shapes) { els.push_back(w); }
    std::vector<std::vector<PdfElement*>> groups;
    std::vector<Cut*> cuts;
    bool ok = false;
    if (fn == "x") {
      ok = ppp::utils::xCut(els, minx, maxov, choose(str(op.at("mx"))), true, &groups, &cuts);
    } else if (fn == "y") {
      ok = ppp::utils::yCut(els, miny, choose(str(op.at("my"))), true, &groups, &cuts);
    } else {
      ppp::utils::xyCut(els, minx, miny, maxov, choose(str(op.at("mx"))), choose(str(op.at("my"))), true, &groups, &cuts);
    }
    bj::array g, c;
    for (auto& x : groups) { g.push_back(list(x)); }
    for (auto* x : cuts) { c.push_back(s->st.cut(x)); }
    res.push_back(bj::object({ { "ok", ok }, { "groups", g }, { "cuts", c } }));
  }
  e["res"] = res;
  e["doc"] = s->st.dump();
  return e;
}

// Installs the output of the model for the roles: one number per block and role.
static void installRoles(const bj::object& op) {
  std::vector<float> p;
  for (auto& v : op.at("p").as_array()) { p.push_back(v.to_number<double>() / 1000.0); }
  int64_t dim = num(op, "dim", 14);
  cppflow::stub_model() = [p, dim](const std::map<std::string, cppflow::tensor>& in) {
    int64_t n = in.begin()->second.dims[0];
    std::vector<float> v = p;
    v.resize(n * dim, 0.0f);
    return cppflow::tensor(v, { n, dim });
  };
}

static bj::object roles(Session* s, const bj::object& op) {
  installRoles(op);
  return { { "op", "roles" }, { "p", op.at("p") }, { "doc", s->st.dump() } };
}

static PdfElementType typeOf(const std::string& s) {
  if (s == "line") { return PdfElementType::TEXT_LINES; }
  if (s == "page") { return PdfElementType::PAGES; }
  if (s == "char") { return PdfElementType::CHARACTERS; }
  if (s == "word") { return PdfElementType::WORDS; }
  if (s == "block") { return PdfElementType::TEXT_BLOCKS; }
  if (s == "figure") { return PdfElementType::FIGURES; }
  return PdfElementType::SHAPES;
}

// Prints the document in one of the formats.
static bj::object ser(Session* s, const bj::object& op) {
  std::string fmt = str(op.at("fmt"));
  std::unordered_set<SemanticRole> roles;
  for (auto& v : op.at("roles").as_array()) { roles.insert(SemanticRole(v.to_number<int>())); }
  std::unordered_set<PdfElementType> kinds;
  for (auto& v : op.at("kinds").as_array()) { kinds.insert(typeOf(str(v))); }
  std::ostringstream ss;
  auto* old = std::cout.rdbuf(ss.rdbuf());
  std::unique_ptr<ppp::serialization::Serializer> z;
  if (fmt == "txt") {
    z.reset(new ppp::serialization::PlainTextSerializer());
  } else if (fmt == "ext") {
    z.reset(new ppp::serialization::PlainTextExtendedSerializer());
  } else {
    z.reset(new ppp::serialization::JsonlSerializer(1));
  }
  z->serialize(s->st.doc, roles, kinds, "-");
  std::cout.rdbuf(old);
  bj::object e = op;
  e["out"] = ss.str();
  e["doc"] = s->st.dump();
  return e;
}

// Predicts the roles with the given vocabulary and output of the model; records the model's input.
static bj::object predict(Session* s, const bj::object& op) {
  std::string dir = "model-" + std::to_string(getpid());
  ppp::config::SemanticRolesPredictionConfig cfg;
  if (auto* v = op.if_contains("vocab")) {
    mkdir(dir.c_str(), 0755);
    cfg.modelsDir = dir;
    std::ofstream(dir + "/bpe-vocab.tsv") << str(*v);
    std::ofstream(dir + "/roles-vocab.tsv") << "paragraph\t0\n";
  } else {
    cfg.modelsDir = std::string(REPO_DIR) + "/resources/models/2021-08-30_model-3K-documents";
  }
  std::vector<float> p;
  for (auto& v : op.at("p").as_array()) { p.push_back(v.to_number<double>() / 1000.0); }
  int64_t dim = num(op, "dim", 14);
  std::map<std::string, cppflow::tensor> seen;
  cppflow::stub_model() = [&](const std::map<std::string, cppflow::tensor>& in) {
    seen = in;
    int64_t n = in.begin()->second.dims[0];
    std::vector<float> v = p;
    v.resize(n * dim, 0.0f);
    return cppflow::tensor(v, { n, dim });
  };
  ppp::modules::SemanticRolesPrediction srp(&cfg);
  srp.predict(s->st.doc);
  bj::object e = op;
  e.erase("vocab");
  e["dim"] = dim;
  bj::array pp;
  for (size_t i = 0; i < seen.begin()->second.dims[0] * dim; i++) {
    pp.push_back(i < op.at("p").as_array().size() ? op.at("p").as_array()[i] : bj::value(0));
  }
  e["p"] = pp;
  auto list = [](const std::vector<double>& v, double f) {
    bj::array a;
    for (double x : v) { a.push_back(x == x && fabs(x) < 100000 ? static_cast<int64_t>(llround(x * f)) : -999999); }
    return a;
  };
  auto dims = [](const std::vector<int64_t>& v) { bj::array a; for (auto x : v) { a.push_back(x); } return a; };
  const auto& lt = seen["serving_default_layout_features_input:0"];
  const auto& wt = seen["serving_default_words_input:0"];
  e["layout"] = list(lt.vals, 10000);
  e["ldims"] = dims(lt.dims);
  e["words"] = list(wt.vals, 1);
  e["wdims"] = dims(wt.dims);
  e["doc"] = s->st.dump();
  return e;
}

std::string unhex(const std::string& h) {
  auto d = [](char c) { return c <= '9' ? c - '0' : (c | 32) - 'a' + 10; };
  std::string r;
  for (size_t i = 0; i + 1 < h.size(); i += 2) { r.push_back(static_cast<char>(d(h[i]) * 16 + d(h[i + 1]))); }
  return r;
}

static bj::array glyphBoxes(const PdfDocument* doc) {
  std::map<std::string, PdfFontInfo*> fonts(doc->fontInfos.begin(), doc->fontInfos.end());
  bj::array a;
  for (const auto& f : fonts) {
    std::map<std::string, std::tuple<double, double, double, double>> g(f.second->glyphBoundingBoxes.begin(),
        f.second->glyphBoundingBoxes.end());
    bj::array b, m;
    for (const auto& x : g) {
      bj::array bb;
      for (double v : { std::get<0>(x.second), std::get<1>(x.second), std::get<2>(x.second), std::get<3>(x.second) }) {
        bb.push_back(static_cast<int64_t>(llround(v)));
      }
      b.push_back(bj::object({ { "n", x.first }, { "b", bb } }));
    }
    for (double v : f.second->fontMatrix) { m.push_back(static_cast<int64_t>(llround(std::max(-1e3, std::min(1e3, v)) * 1000000))); }
    a.push_back(bj::object({ { "key", f.first }, { "g", b }, { "fm", m }, { "weight", f.second->weight },
        { "italic", f.second->isItalic } }));
  }
  return a;
}

// Sets a switch of the configuration by its name.
static void disable(ppp::config::Config* c, const std::string& n) {
  if (n == "glyphstats") { c->glyphsStatisticsCalculation.disabled = true; }
  if (n == "diacritics") { c->diacriticalMarksMerging.disabled = true; }
  if (n == "words") { c->wordsDetection.disabled = true; }
  if (n == "wordstats") { c->wordsStatisticsCalculation.disabled = true; }
  if (n == "segs") { c->pageSegmentation.disabled = true; }
  if (n == "lines") { c->textLinesDetection.disabled = true; }
  if (n == "scripts") { c->subSuperScriptsDetection.disabled = true; }
  if (n == "linestats") { c->textLinesStatisticsCalculation.disabled = true; }
  if (n == "blocks") { c->textBlocksDetection.disabled = true; }
  if (n == "order") { c->readingOrderDetection.disabled = true; }
  if (n == "roles") { c->semanticRolesPrediction.disabled = true; }
  if (n == "dehyph") { c->wordsDehyphenation.disabled = true; }
  if (n == "fontfiles") { c->pdfParsing.skipEmbeddedFontFilesParsing = true; }
}

// Sets the level and page filter of all loggers.
static void logging(ppp::config::Config* c, int level, int filter) {
  for (ppp::config::BaseConfig* b : std::initializer_list<ppp::config::BaseConfig*>{ &c->pdfParsing, &c->glyphsStatisticsCalculation,
      &c->diacriticalMarksMerging, &c->wordsDetection, &c->wordsStatisticsCalculation, &c->pageSegmentation, &c->textLinesDetection,
      &c->textLinesStatisticsCalculation, &c->subSuperScriptsDetection, &c->textBlocksDetection, &c->readingOrderDetection,
      &c->semanticRolesPrediction, &c->wordsDehyphenation, &c->pdfDocumentVisualization }) {
    b->logLevel = ppp::utils::log::LogLevel(level);
    b->logPageFilter = filter;
  }
}

// Sets the loggers of single modules to the debug level.
static void debugging(ppp::config::Config* c, const std::string& n) {
  std::map<std::string, ppp::config::BaseConfig*> m = { { "parse", &c->pdfParsing }, { "glyphstats", &c->glyphsStatisticsCalculation },
      { "diacritics", &c->diacriticalMarksMerging }, { "words", &c->wordsDetection }, { "wordstats", &c->wordsStatisticsCalculation },
      { "segs", &c->pageSegmentation }, { "lines", &c->textLinesDetection }, { "scripts", &c->subSuperScriptsDetection },
      { "linestats", &c->textLinesStatisticsCalculation }, { "blocks", &c->textBlocksDetection }, { "order", &c->readingOrderDetection },
      { "roles", &c->semanticRolesPrediction }, { "dehyph", &c->wordsDehyphenation } };
  m.at(n)->logLevel = ppp::utils::log::DEBUG;
}

// Counts the messages per level in what was printed.
static bj::array messages(const std::string& out) {
  static const char* names[] = { "TRACE:", "DEBUG:", "INFO: ", "WARN: ", "ERROR:" };
  bj::array a;
  for (auto* n : names) {
    int k = 0;
    std::string p = std::string("m") + n + "\x1b[";
    for (size_t i = out.find(p); i != std::string::npos; i = out.find(p, i + 1)) { k++; }
    a.push_back(k);
  }
  return a;
}

// Reads a PDF file: only its content streams ("parse"), or with the whole pipeline ("process").
static bj::object pdf(Session* s, const bj::object& op, bool process) {
  static int n = 0;
  std::string path = "doc-" + std::to_string(getpid()) + "-" + std::to_string(n++) + ".pdf";
  if (auto* v = op.if_contains("path")) {
    path = str(*v);
  } else {
    std::ofstream(path, std::ios::binary) << unhex(str(op.at("hex")));
  }
  bj::object e = op;
  e.erase("hex");
  if (!e.if_contains("name")) { e["name"] = op.at("op"); }
  s->st = State();
  auto* d = s->st.doc = new PdfDocument();
  d->pdfFilePath = path;
  auto cfg = s->cfg;
  if (op.if_contains("p")) { installRoles(op); }
  cfg.semanticRolesPrediction.modelsDir = REPO_DIR + std::string("/resources/models/2021-08-30_model-3K-documents");
  if (auto* v = op.if_contains("disabled")) { for (auto& x : v->as_array()) { disable(&cfg, str(x)); } }
  if (process) {
    std::vector<Timing> timings;
    logging(&cfg, num(op, "level", 4), num(op, "filter", 0));
    if (auto* v = op.if_contains("debug")) { for (auto& x : v->as_array()) { debugging(&cfg, str(x)); } }
    std::ostringstream ss;
    auto* old = std::cout.rdbuf(ss.rdbuf());
    e["rc"] = ppp::PdfToTextPlusPlus(&cfg).process(d, &timings);
    std::cout.rdbuf(old);
    e["log"] = messages(ss.str());
    e["printed"] = static_cast<int64_t>(ss.str().size());
    bj::array t;
    for (auto& x : timings) { t.push_back(bj::value(x.name)); }
    e["timings"] = t;
  } else {
    globalParams = std::make_unique<GlobalParams>();
    GooString g(path);
    auto doc = PDFDocFactory().createPDFDoc(g);
    e["rc"] = doc->isOk() ? 0 : doc->getErrorCode();
    if (doc->isOk()) {
      ppp::modules::PdfParsing pp(d, cfg.pdfParsing);
      doc->displayPages(&pp, 1, doc->getNumPages(), cfg.pdfParsing.hDPI, cfg.pdfParsing.vDPI, 0, true, false, false);
    }
    e["glyphs"] = glyphBoxes(d);
    auto kept = s->cfg;
    s->cfg.readingOrderDetection.disabled = cfg.readingOrderDetection.disabled;
    s->cfg.semanticRolesPrediction.disabled = cfg.semanticRolesPrediction.disabled;
    if (auto* v = op.if_contains("stages")) {     // compose the pipeline of these stages
      e.erase("glyphs");
      for (auto& x : v->as_array()) {
        runStage(s, str(x));
      }
    }
    s->cfg = kept;
  }
  if (!op.if_contains("path")) { unlink(path.c_str()); }
  e["doc"] = s->st.dump();
  return e;
}

bj::object runUtilsOp(Session* s, const std::string& name, const bj::object& op);

bj::object runExtraOp(Session* s, const std::string& name, const bj::object& op) {
  if (name == "xycut") { return xycut(s, op); }
  if (name == "renumber") {
    bj::object e;
    e["op"] = e["name"] = name;
    e["unique"] = s->st.renumber();
    e["doc"] = s->st.dump();
    return e;
  }
  if (name == "roles") { return roles(s, op); }
  if (name == "ser") { return ser(s, op); }
  if (name == "pdf" || name == "compose" || name == "process") { return pdf(s, op, name == "process"); }
  if (name == "predict") { return predict(s, op); }
  return runUtilsOp(s, name, op);
}

}  // namespace verif
