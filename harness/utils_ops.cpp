// Direct calls of the utilities: numbers, boxes, texts, counters, queues and loggers.
#include <functional>
#include <iostream>
#include <set>
#include <sstream>

#include "ops.h"
#include "utils/Comparators.h"
#include "utils/Counter.h"
#include "utils/FixedCapacityPriorityQueue.h"
#include "utils/Log.h"
#include "utils/MathUtils.h"
#include "utils/PdfElementsUtils.h"
#include "utils/TextUtils.h"

namespace verif {

namespace el = ppp::utils::elements;
namespace ma = ppp::utils::math;
namespace tx = ppp::utils::text;
namespace cp = ppp::utils::comparators;

static std::string str(const bj::value& v) { return std::string(v.as_string().c_str(), v.as_string().size()); }
static double dbl(const bj::value& v) { return v.to_number<double>() / U; }

static PdfWord* element(const bj::object& o) {
  auto* w = new PdfWord();
  auto& b = o.at("b").as_array();
  w->pos->leftX = dbl(b[0]);
  w->pos->upperY = dbl(b[1]);
  w->pos->rightX = dbl(b[2]);
  w->pos->lowerY = dbl(b[3]);
  w->pos->rotation = o.at("r").to_number<int>();
  w->fontName = str(o.at("f"));
  w->fontSize = dbl(o.at("s"));
  return w;
}

static bj::value call(const bj::object& c) {
  std::string f = str(c.at("fn"));
  auto n = [&](int i) { return dbl(c.at("n").as_array()[i]); };
  auto t = [&](int i) { return str(c.at("t").as_array()[i]); };
  size_t k = c.if_contains("n") ? c.at("n").as_array().size() : 0;
  auto ratio = [](double d) { return static_cast<int64_t>(llround(d * 10000)); };
  // numbers
  if (f == "equal") { return k == 3 ? ma::equal(n(0), n(1), n(2)) : ma::equal(n(0), n(1)); }
  if (f == "larger") { return k == 3 ? ma::larger(n(0), n(1), n(2)) : ma::larger(n(0), n(1)); }
  if (f == "smaller") { return k == 3 ? ma::smaller(n(0), n(1), n(2)) : ma::smaller(n(0), n(1)); }
  if (f == "equalOrLarger") { return k == 3 ? ma::equalOrLarger(n(0), n(1), n(2)) : ma::equalOrLarger(n(0), n(1)); }
  if (f == "equalOrSmaller") { return k == 3 ? ma::equalOrSmaller(n(0), n(1), n(2)) : ma::equalOrSmaller(n(0), n(1)); }
  if (f == "between") { return k == 4 ? ma::between(n(0), n(1), n(2), n(3)) : ma::between(n(0), n(1), n(2)); }
  if (f == "round") { return static_cast<int64_t>(llround(ma::round(n(0), c.at("d").to_number<int>()) * 1000)); }
  if (f == "minimum") { return toU(k == 2 ? ma::minimum(n(0), n(1)) : k == 3 ? ma::minimum(n(0), n(1), n(2)) : ma::minimum(n(0), n(1), n(2), n(3))); }
  if (f == "maximum") { return toU(k == 2 ? ma::maximum(n(0), n(1)) : k == 3 ? ma::maximum(n(0), n(1), n(2)) : ma::maximum(n(0), n(1), n(2), n(3))); }
  if (f == "overlap") {
    auto p = el::computeOverlapRatios(n(0), n(1), n(2), n(3));
    return bj::array({ ratio(p.first), ratio(p.second) });
  }
  // boxes
  if (f == "pair") {
    auto* a = element(c.at("a").as_object());
    auto* b = element(c.at("b").as_object());
    double tol = dbl(c.at("tol"));
    auto x = el::computeXOverlapRatios(a, b);
    auto y = el::computeYOverlapRatios(a, b);
    bj::object r;
    r["hgap"] = toU(el::computeHorizontalGap(a, b));
    r["vgap"] = toU(el::computeVerticalGap(a, b));
    r["x"] = bj::array({ ratio(x.first), ratio(x.second), ratio(el::computeMaxXOverlapRatio(a, b)) });
    r["y"] = bj::array({ ratio(y.first), ratio(y.second), ratio(el::computeMaxYOverlapRatio(a, b)) });
    r["eq"] = bj::array({ el::computeHasEqualLeftX(a, b, tol), el::computeHasEqualUpperY(a, b, tol),
        el::computeHasEqualRightX(a, b, tol), el::computeHasEqualLowerY(a, b, tol) });
    r["off"] = bj::array({ toU(el::computeLeftXOffset(a, b)), toU(el::computeRightXOffset(a, b)) });
    r["font"] = bj::array({ el::computeHasEqualFont(a, b), el::computeHasEqualFontSize(a, b, tol) });
    r["rot"] = bj::array({ toU(a->pos->getRotLeftX()), toU(a->pos->getRotUpperY()), toU(a->pos->getRotRightX()), toU(a->pos->getRotLowerY()) });
    r["size"] = bj::array({ toU(a->pos->getWidth()), toU(a->pos->getHeight()), toU(a->pos->getRotWidth()), toU(a->pos->getRotHeight()) });
    r["less"] = bj::array({ cp::LeftXAscComparator()(a, b), cp::RightXDescComparator()(a, b), cp::UpperYAscComparator()(a, b),
        cp::RotLeftXAscComparator()(a, b), cp::RotLeftXDescComparator()(a, b), cp::RotLowerYAscComparator()(a, b),
        cp::RotLowerYDescComparator()(a, b) });
    return r;
  }
  // texts
  if (f == "split" || f == "wsplit") {
    bj::array r;
    if (f == "split") {
      std::vector<std::string> w;
      if (c.at("t").as_array().size() > 1) { tx::splitIntoWords(t(0), &w, t(1).c_str()); } else { tx::splitIntoWords(t(0), &w); }
      for (auto& s : w) { r.push_back(bj::value(s)); }
    } else {
      std::vector<std::wstring> w;
      std::string a = t(0);
      tx::splitIntoWords(std::wstring(a.begin(), a.end()), &w);
      for (auto& s : w) { r.push_back(bj::value(std::string(s.begin(), s.end()))); }
    }
    return r;
  }
  if (f == "sentence") { return tx::endsWithSentenceDelimiter(t(0)); }
  if (f == "upper") { return tx::startsWithUpper(t(0)); }
  if (f == "escape") { return bj::value(tx::escapeJson(t(0))); }
  if (f == "shorten") { return bj::value(tx::shorten(t(0), c.at("d").to_number<unsigned>())); }
  if (f == "strip") { return bj::value(tx::strip(t(0))); }
  if (f == "wrap") { return bj::value(tx::wrap(t(0), c.at("d").to_number<unsigned>(), c.at("e").to_number<unsigned>())); }
  if (f == "join") {
    std::vector<std::string> v;
    for (auto& x : c.at("v").as_array()) { v.push_back(str(x)); }
    return bj::value(tx::join(v, t(0)));
  }
  if (f == "random") {      // the characters that occur in many random strings, and whether all have the length and prefix
    std::set<char> seen;
    bool ok = true;
    std::set<std::string> all;
    int d = c.at("d").to_number<int>();
    for (int i = 0; i < 600; i++) {
      std::string s = tx::createRandomString(d, t(0), t(1).c_str());
      ok = ok && s.size() == t(0).size() + d && s.compare(0, t(0).size(), t(0)) == 0;
      for (char x : s.substr(t(0).size())) { seen.insert(x); }
    }
    return bj::object({ { "ok", ok }, { "seen", std::string(seen.begin(), seen.end()) } });
  }
  if (f == "names") {
    bj::array a, b, d;
    for (auto x : el::getPdfElementTypes()) { a.push_back(bj::value(el::getPdfElementTypeName(x))); }
    for (auto x : el::getSerializationFormats()) { b.push_back(bj::value(el::getSerializationFormatName(x))); }
    for (auto x : el::getSemanticRoles()) { d.push_back(bj::value(el::getSemanticRoleName(x))); }
    return bj::object({ { "types", a }, { "formats", b }, { "roles", d }, { "typesStr", el::getPdfElementTypesStr(t(0)) },
        { "formatsStr", el::getSerializationFormatsStr(t(0)) }, { "rolesStr", el::getSemanticRolesStr(t(0)) } });
  }
  throw std::runtime_error("unknown function " + f);
}

// Runs the operations on a counter, a queue or a logger; one result per operation.
template <class C, class K>
static bj::array counter(const bj::array& ops, std::function<K(const bj::value&)> key, std::function<bj::value(const K&)> back) {
  C c;
  bj::array r;
  for (auto& v : ops) {
    auto& o = v.as_object();
    std::string f = str(o.at("f"));
    try {
      if (f == "inc") {
        c[key(o.at("k"))]++;
        r.push_back(0);
      } else if (f == "set") {
        c[key(o.at("k"))] = o.at("v").to_number<unsigned>();
        r.push_back(0);
      } else if (f == "mode") {
        auto p = c.mostFreqAndCount();
        r.push_back(bj::array({ back(c.mostFreq()), c.mostFreqCount(), back(p.first), p.second }));
      } else if (f == "sum") {
        r.push_back(c.sumCounts());
      } else if (f == "max") {
        if constexpr (std::is_same_v<K, double>) { r.push_back(back(c.max())); } else { r.push_back(0); }
      }
    } catch (const std::runtime_error&) {
      r.push_back(-1);
    }
  }
  return r;
}

template <class Cmp>
static bj::array queue(int cap, const bj::array& ops) {
  FixedCapacityPriorityQueue<int, Cmp> q(cap);
  bj::array r;
  for (auto& v : ops) {
    auto& o = v.as_object();
    std::string f = str(o.at("f"));
    if (f == "push") {
      q.push(o.at("k").to_number<int>());
      r.push_back(static_cast<int>(q.size()));
    } else if (f == "pop") {
      q.pop();
      r.push_back(static_cast<int>(q.size()));
    } else if (f == "top") {
      r.push_back(q.top());
    } else if (f == "sort") {
      std::vector<int> s;
      if (o.at("k").to_number<int>() == 0) { q.sort(std::less<int>(), &s); } else { q.sort(std::greater<int>(), &s); }
      bj::array a;
      for (int x : s) { a.push_back(x); }
      r.push_back(a);
    }
  }
  return r;
}

static bj::array logger(const bj::object& op) {
  using namespace ppp::utils::log;
  Logger lg(LogLevel(op.at("level").to_number<int>()), op.at("filter").to_number<int>());
  bj::array r;
  for (auto& v : op.at("ops").as_array()) {
    auto& o = v.as_object();
    std::string f = str(o.at("f"));
    int k = o.at("k").to_number<int>();
    if (f == "level") {
      lg.setLogLevel(LogLevel(k));
      r.push_back("");
      continue;
    }
    if (f == "filter") {
      lg.setPageFilter(k);
      r.push_back("");
      continue;
    }
    std::ostringstream ss;
    auto* old = std::cout.rdbuf(ss.rdbuf());
    int p = o.at("p").to_number<int>();
    std::string m = str(o.at("m"));
    if (p == 0) {
      switch (k) {
        case 0: lg.trace() << m << std::endl; break;
        case 1: lg.debug() << m << std::endl; break;
        case 2: lg.info() << m << std::endl; break;
        case 3: lg.warn() << m << std::endl; break;
        case 4: lg.error() << m << std::endl; break;
      }
    } else {
      switch (k) {
        case 0: lg.trace(p) << m << std::endl; break;
        case 1: lg.debug(p) << m << std::endl; break;
        case 2: lg.info(p) << m << std::endl; break;
        case 3: lg.warn(p) << m << std::endl; break;
        case 4: lg.error(p) << m << std::endl; break;
      }
    }
    std::cout.rdbuf(old);
    r.push_back(bj::value(ss.str()));
  }
  return r;
}

bj::object runCliOp(const std::string& name, const bj::object& op);

bj::object runUtilsOp(Session* s, const std::string& name, const bj::object& op) {
  bj::object e = op;
  bj::array r;
  if (name == "calls") {
    for (auto& c : op.at("calls").as_array()) { r.push_back(call(c.as_object())); }
  } else if (name == "counter" && str(op.at("kind")) == "double") {
    r = counter<ppp::utils::counter::DoubleCounter, double>(op.at("ops").as_array(), [](const bj::value& v) { return dbl(v); },
        [](const double& d) { return bj::value(toU(d)); });
  } else if (name == "counter") {
    r = counter<ppp::utils::counter::StringCounter, std::string>(op.at("ops").as_array(),
        [](const bj::value& v) { return std::to_string(v.to_number<int>()); }, [](const std::string& d) { return bj::value(atoi(d.c_str())); });
  } else if (name == "queue") {
    r = str(op.at("kind")) == "min" ? queue<std::greater<int>>(op.at("cap").to_number<int>(), op.at("ops").as_array())
        : queue<std::less<int>>(op.at("cap").to_number<int>(), op.at("ops").as_array());
  } else if (name == "logger") {
    r = logger(op);
  } else {
    return runCliOp(name, op);
  }
  e["res"] = r;
  return e;
}

}  // namespace verif
