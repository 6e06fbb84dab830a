// Loading a document state from JSON and projecting the real document to JSON.
//
// Lengths are integers in units of 1/160 pt ("u"), so every value the generators use (multiples of 1/16 pt), every
// midpoint and every value rounded to one decimal is an exact integer. Objects are numbered per kind from 1 in the
// order in which the projection first meets them; 0 means "no object", -1 means "an object that is not part of the
// document".
#ifndef VERIF_STATE_H_
#define VERIF_STATE_H_

#include <boost/json.hpp>

#include <cmath>
#include <limits>
#include <map>
#include <string>
#include <unordered_map>
#include <vector>

#include "Config.h"
#include "Types.h"

namespace bj = boost::json;
using namespace ppp::types;  // NOLINT

namespace verif {

const double U = 160.0;

inline int64_t toU(double d) {
  double x = d * U;
  if (!(x == x)) { return 2000000003; }
  if (x > 2000000000.0) { return 2000000000; }
  if (x < -2000000000.0) { return -2000000000; }
  return llround(x);
}
inline double fromU(const bj::value& v) { return v.to_number<double>() / U; }

template <class T>
class Table {
 public:
  int id(const T* p) {
    if (!p) { return 0; }
    auto it = ids.find(p);
    if (it != ids.end()) { return it->second; }
    objs.push_back(const_cast<T*>(p));
    ids[p] = static_cast<int>(objs.size());
    return static_cast<int>(objs.size());
  }
  // The id of an object, or -1 if it is not registered.
  int ref(const T* p) const {
    if (!p) { return 0; }
    auto it = ids.find(p);
    return it != ids.end() ? it->second : -1;
  }
  T* at(int64_t i) const {
    if (i <= 0 || i > static_cast<int64_t>(objs.size())) { return nullptr; }
    return objs[i - 1];
  }
  std::vector<T*> objs;
  std::unordered_map<const T*, int> ids;
};

class State {
 public:
  PdfDocument* doc = nullptr;
  Table<PdfCharacter> chars;
  Table<PdfWord> words;
  Table<PdfPageSegment> segs;
  Table<PdfTextLine> lines;
  Table<PdfTextBlock> blocks;
  Table<PdfFigure> figs;
  Table<PdfShape> shapes;
  Table<PdfGraphic> graphics;
  Table<Cut> cuts;
  Table<PdfWord> hyph;   // merged (hyphenated) words; no part of the document's own words

  void load(const bj::object& j);
  bj::object dump();
  bool renumber();
  bj::array element(const PdfElement* e) const;
  bj::object cut(const Cut* c) const;

 private:
  void registerAll();
};

}  // namespace verif
#endif
