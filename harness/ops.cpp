#include "ops.h"

#include <GlobalParams.h>

#include <algorithm>
#include <cmath>
#include <stdexcept>

#include "DiacriticalMarksMerging.h"
#include "GlyphsStatisticsCalculation.h"
#include "PageSegmentation.h"
#include "ReadingOrderDetection.h"
#include "SubSuperScriptsDetection.h"
#include "TextBlocksDetection.h"
#include "TextLinesDetection.h"
#include "TextLinesStatisticsCalculation.h"
#include "WordsDehyphenation.h"
#include "WordsDetection.h"
#include "WordsStatisticsCalculation.h"

namespace verif {

using namespace ppp::modules;  // NOLINT

static const char* MODELS = "/resources/models/2021-08-30_model-3K-documents";
void runStage(Session* s, const std::string& n) {
  PdfDocument* d = s->st.doc;
  auto& c = s->cfg;
  if (n == "glyphstats") {
    GlyphsStatisticsCalculation(d, &c.glyphsStatisticsCalculation).process();
  } else if (n == "diacritics") {
    if (!globalParams) { globalParams = std::make_unique<GlobalParams>(); }
    DiacriticalMarksMerging(d, &c.diacriticalMarksMerging).process();
  } else if (n == "words") {
    WordsDetection(d, &c.wordsDetection).process();
  } else if (n == "wordstats") {
    WordsStatisticsCalculation(d, &c.wordsStatisticsCalculation).process();
  } else if (n == "segs") {
    PageSegmentation(d, &c.pageSegmentation).process();
  } else if (n == "lines") {
    TextLinesDetection(d, &c.textLinesDetection).process();
  } else if (n == "scripts") {
    SubSuperScriptsDetection(d, &c.subSuperScriptsDetection).process();
  } else if (n == "linestats") {
    TextLinesStatisticsCalculation(d, &c.textLinesStatisticsCalculation).process();
  } else if (n == "blocks") {
    TextBlocksDetection(d, &c.textBlocksDetection).process();
  } else if (n == "order") {
    c.semanticRolesPrediction.modelsDir = REPO_DIR + std::string(MODELS);
    ReadingOrderDetection(d, &c.readingOrderDetection, &c.semanticRolesPrediction).process();
  } else if (n == "dehyph") {
    WordsDehyphenation(d, &c.wordsDehyphenation).process();
  } else {
    throw std::runtime_error("unknown stage " + n);
  }
}

bj::object runExtraOp(Session* s, const std::string& name, const bj::object& op);

bj::object runOp(Session* s, const bj::object& op) {
  std::string name(op.at("op").as_string().c_str());
  bj::object e;
  e["op"] = name;
  if (auto* tag = op.if_contains("tag")) { e["tag"] = *tag; }
  if (name == "load") {
    s->st.load(op.at("doc").as_object());
    e["name"] = "load";
    e["doc"] = s->st.dump();
    return e;
  }
  if (name == "stage") {
    if (auto* v = op.if_contains("ovn")) {
      s->cfg.pageSegmentation.overlappingMinNumElements = v->to_number<int64_t>();
      e["ovn"] = *v;
    }
    runStage(s, op.at("name").as_string().c_str());
    e["name"] = op.at("name");
    e["doc"] = s->st.dump();
    return e;
  }
  if (name == "quant") {
    // Round the averages to a multiple of 1/16 pt, so that the thresholds derived from them are exact.
    auto q = [](double d) { return std::max(1.0, std::round(d * 16.0)) / 16.0; };
    s->st.doc->avgCharWidth = q(s->st.doc->avgCharWidth);
    s->st.doc->avgCharHeight = q(s->st.doc->avgCharHeight);
    e["name"] = "quant";
    e["doc"] = s->st.dump();
    return e;
  }
  return runExtraOp(s, name, op);
}

}  // namespace verif
