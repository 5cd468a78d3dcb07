// Types and generators shared by the library harnesses.
#ifndef VERIF_EV_H_
#define VERIF_EV_H_
#include "mon.h"

#include "core/BoundingBox.h"
#include "core/DocumentBoundingBox.h"
#include "core/DocumentBoundingBoxEventSet.h"
#include "core/Event.h"
#include "core/EventSet.h"
#include "core/Match.h"
#include "core/MatchError.h"
#include "core/MatchErrorCounts.h"
#include "core/ScoredEvent.h"
#include "core/ShapedEvent.h"

typedef kws::core::BoundingBox<uint32_t> Box;
typedef kws::core::DocumentBoundingBox<uint32_t> DocBox;
typedef kws::core::ShapedEvent<std::string, DocBox> BoxRef;
typedef kws::core::ScoredEvent<BoxRef> BoxHyp;
typedef kws::core::Event<int32_t, int32_t> IntRef;
typedef kws::core::ScoredEvent<IntRef> IntHyp;
typedef kws::core::Match<BoxRef, BoxHyp> BoxMatch;
typedef kws::core::Match<IntRef, IntHyp> IntMatch;
using kws::core::MatchError;
using kws::core::MatchErrorCounts;

// Plain copies of the contents, which the models work on.
struct PBox {
  std::string q, d;
  int64_t x, y, w, h;
  std::tuple<std::string, std::string, int64_t, int64_t, int64_t, int64_t> key() const {
    return std::make_tuple(q, d, x, y, w, h);
  }
  bool operator==(const PBox &o) const { return key() == o.key(); }
  bool operator<(const PBox &o) const { return key() < o.key(); }
};
inline PBox plain(const BoxRef &e) {
  const DocBox &l = e.Location();
  return PBox{e.Query(), l.document, l.x, l.y, l.w, l.h};
}
struct PInt {
  int64_t q, l;
  bool operator==(const PInt &o) const { return q == o.q && l == o.l; }
  bool operator<(const PInt &o) const { return q != o.q ? q < o.q : l < o.l; }
};
inline PInt plain(const IntRef &e) { return PInt{e.Query(), e.Location()}; }

// Area common to two boxes of the same document, in exact arithmetic.
inline __int128 common_area(const PBox &a, const PBox &b) {
  if (a.d != b.d) return 0;
  const __int128 w = std::min<__int128>((__int128)a.x + a.w, (__int128)b.x + b.w) - std::max(a.x, b.x);
  const __int128 h = std::min<__int128>((__int128)a.y + a.h, (__int128)b.y + b.h) - std::max(a.y, b.y);
  return w > 0 && h > 0 ? w * h : 0;
}

inline std::string show(const PBox &p) {
  return mon::str(p.q, " ", p.d, " ", p.x, " ", p.y, " ", p.w, " ", p.h);
}
inline std::string show(const PInt &p) { return mon::str(p.q, " ", p.l); }

// Names that are only told apart late, or by a byte that some comparisons do not get to or take for another.
inline std::string odd_name(mon::Rng &r) {
  static const std::string p = "the same page of the same collection, with a name well beyond any prefix, ";
  static const std::vector<std::string> v = {p + "1", p + "2", p, p + p + "1", p + p + "2", std::string("d\0x", 3), std::string("d\0y", 3),
                                             "\xff", "\x01", "D", "d ", "d0", "00", "0", std::string(300, 'z') + "1", std::string(300, 'z') + "2",
                                             "scan-0001-left", "scan-0001-left.png", "scan-0001-left.xml", "scan-0001-left.", "dir/scan-0001-left", "scan-0001-left ", "SCAN-0001-LEFT", "scan_0001_left", "scan-1-left"};
  if (r.chance(30)) {      // of one length, alike at first, then different in several places in either direction
    std::string s = r.chance(50) ? "collection/" : "the same page of the same collection, with ";
    for (int i = 0; i < 3; ++i) s += "ab/1"[r.below(4)];
    return s + (r.chance(30) ? ".xml" : "");
  }
  return v[r.below(r.chance(60) ? 5 : v.size())];
}

inline std::string name(mon::Rng &r, int n) {
  if (n > 1 && r.chance(8)) return odd_name(r);
  static const std::vector<std::string> v = {"a", "b", "aa", "A", "", "\xc3\xa9", "q1", "q10", "q2",
                                             "a longer name than any small string buffer holds", std::string("a\0", 2),
                                             std::string("a\0b", 3), "a longer name than any small string buffer held"};
  return n >= (int)v.size() ? mon::str("n", r.below(n)) : v[r.below(std::max(1, n))];
}

// A box out of few values, so that boxes meet in every way.
inline DocBox gen_box(mon::Rng &r, int docs, int style) {
  static const std::vector<std::string> dn = {"d", "e", "dd", "p", "page_0001.xml", "page_0002.xml", "Page_0001.xml", "page_0001.xm"};
  const int like = docs == 3 && r.chance(80) ? 4 : 0;          // names much alike
  const std::string d = docs > 1 && r.chance(5) ? odd_name(r) : dn[like + r.below(std::min<int>(docs, 4))];
  if (style == 0) return DocBox(d, r.below(5), r.below(5), r.below(5), r.below(5));
  if (style == 1) return DocBox(d, r.below(12), r.below(3), 1 + r.below(8), 1 + r.below(3));
  if (style == 2) return DocBox(d, r.below(1000), r.below(1000), 1 + r.below(500), 1 + r.below(500));
  // at the end of the coordinate range
  const uint32_t w = 1 + r.below(300), h = 1 + r.below(300);
  return DocBox(d, 0xffffffffu - w - r.below(200), 0xffffffffu - h - r.below(200), w, h);
}

inline float gen_score(mon::Rng &r, int style) {
  static const float few[] = {0.5f, 0.25f, -1.0f, 0.0f, -0.0f, 3e38f, -3e38f, 1e-40f};
  if (style == 0) return few[r.below(8)];
  if (style == 1) return (float)r.in(-2, 2);
  if (style == 2) return 1.0f;
  return (float)r.unit();
}

template <class RE, class HE>
std::string show_match(const kws::core::Match<RE, HE> &m) {
  std::ostringstream o;
  o.precision(9);
  o << m;
  return o.str();
}

#endif
