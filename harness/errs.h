// Lists of match errors and counts with what they stand for, and the definitions of the metrics over them.
#ifndef VERIF_ERRS_H_
#define VERIF_ERRS_H_
#include <cfloat>
#include "ev.h"
#include "core/Assessment.h"

struct Ent { double fp, fn; uint64_t nh, nr; };

// kind: 0 hit, 1 false positive, 2 missed, 3 partial pair
inline Ent entry(int kind, double fp = 0, double fn = 0) {
  switch (kind) {
    case 0: return Ent{0, 0, 1, 1};
    case 1: return Ent{1, 0, 1, 0};
    case 2: return Ent{0, 1, 0, 1};
  }
  return Ent{fp, fn, 1, 1};
}

// Fractions exact in single precision.
inline double frac(mon::Rng &r) { return r.chance(20) ? 0.0 : (double)r.below(r.chance(50) ? 4 : 1024) / (r.chance(50) ? 4096.0 : 1024.0); }

// A pair with some error; also those that are right on one side only, or on none.
inline Ent partial(mon::Rng &r) {
  double fp = frac(r), fn = frac(r);
  const unsigned t = r.below(100);
  if (r.chance(10)) (r.chance(50) ? fp : fn) = 4095 / 4096.0;
  if (t < 6) { fp = 1; if (fn == 0 || r.chance(20)) fn = 1; }
  else if (t < 12) { fn = 1; if (fp == 0) fp = 0.5; }
  return entry(3, fp, fn);
}

inline std::vector<Ent> gen_entries(mon::Rng &r, bool crisp, int mix, size_t n) {
  std::vector<Ent> v;
  for (size_t i = 0; i < n; ++i) {
    const unsigned t = r.below(100);
    int k;
    switch (mix) {
      case 0: k = t < 40 ? 0 : t < 80 ? 1 : 2; break;
      case 1: k = 1; break;                               // no references
      case 2: k = 2; break;                               // no hypotheses
      case 3: k = 0; break;                               // perfect
      case 4: k = t < 90 ? 1 : 0; break;                  // rare hits
      default: k = i < n / 2 ? (t < 50 ? 0 : 1) : 2;      // misses last
    }
    if (!crisp && k == 0 && r.chance(70)) v.push_back(partial(r));
    else v.push_back(entry(k));
  }
  return v;
}
// Sizes around those that a narrow type or a fixed table would hold.
inline size_t large_size(mon::Rng &r) {
  static const size_t v[] = {255, 256, 257, 1000, 1023, 1024, 1025, 4095, 4096, 4097, 10000, 32767, 32768, 65535, 65536, 65537, 70000, 100001, 140000};
  return r.chance(60) ? v[r.below(19)] : 200 + r.below(r.chance(50) ? 5000 : 80000);
}
// The same lists with all counts times a power of two.
inline void scale(std::vector<Ent> *v, unsigned bits) {
  const double f = (double)(1ull << bits);
  for (auto &e : *v) { e.fp *= f; e.fn *= f; e.nh <<= bits; e.nr <<= bits; }
}
inline std::vector<Ent> gen_counts(mon::Rng &r, bool crisp, int mix, size_t n) {
  std::vector<Ent> v;
  while (v.size() < n) {
    const auto g = gen_entries(r, crisp, mix, r.below(r.chance(20) ? 60 : 5));
    Ent s{0, 0, 0, 0};
    for (auto &e : g) { s.fp += e.fp; s.fn += e.fn; s.nh += e.nh; s.nr += e.nr; }
    if (s.nh + s.nr > 0 || (!crisp && r.chance(20))) v.push_back(s);
    else if (r.chance(10)) break;
  }
  return v;
}

inline MatchError to_error(const Ent &e, const MatchError *) { return MatchError((float)e.fp, (float)e.fn); }
inline MatchErrorCounts to_error(const Ent &e, const MatchErrorCounts *) { return MatchErrorCounts((float)e.fp, (float)e.fn, e.nh, e.nr); }
template <class ME> std::vector<ME> to_errors(const std::vector<Ent> &v) {
  std::vector<ME> o;
  for (auto &e : v) o.push_back(to_error(e, (ME *)nullptr));
  return o;
}

inline uint64_t total_refs(const std::vector<Ent> &v) { uint64_t t = 0; for (auto &e : v) t += e.nr; return t; }

inline void model_curve(const std::vector<Ent> &v, bool interpolate, std::vector<double> *pr, std::vector<double> *rc) {
  pr->clear(); rc->clear();
  const double tr = (double)total_refs(v);
  long double fp = 0, fn = 0; uint64_t nh = 0, nr = 0;
  for (auto &e : v) {
    fp += e.fp; fn += e.fn; nh += e.nh; nr += e.nr;
    pr->push_back(nh ? (double)(1.0L - fp / nh) : 1.0);
    rc->push_back(tr > 0 ? (double)((nr - fn) / tr) : 1.0);
  }
  if (interpolate)
    for (size_t i = pr->size(); i > 1; --i) (*pr)[i - 2] = std::max((*pr)[i - 2], (*pr)[i - 1]);
}
inline double model_ap(const std::vector<double> &pr, const std::vector<double> &rc, bool trapezoid) {
  long double s = 0, prev = 0;
  for (size_t i = 0; i < pr.size(); ++i) {
    s += (rc[i] - prev) * (trapezoid && i ? ((long double)pr[i] + pr[i - 1]) / 2 : (long double)pr[i]);
    prev = rc[i];
  }
  return (double)s;
}
// reach: what rounding the quotient of an entry to single precision may change
inline double model_ndcg(const std::vector<Ent> &v, double *reach = nullptr) {
  const uint64_t tr = total_refs(v);
  if (reach) *reach = 0;
  if (!tr) return 0;
  long double s = 0, z = 0, err = 0; uint64_t rank = 0;
  for (auto &e : v) {
    const long double g = e.nh ? powl(2.0L, 1.0L - (long double)e.fp / e.nh) - 1 : 0;
    const bool rounded = e.nh > 1 && e.fp != 0 && e.fp != e.nh;
    for (uint64_t k = 0; k < e.nh; ++k) {
      const long double w = 1 / log2l((long double)++rank + 1);
      s += g * w;
      if (rounded) err += w;
    }
  }
  for (uint64_t k = 1; k <= tr; ++k) z += 1 / log2l((long double)k + 1);
  if (reach) *reach = (double)(1.7e-7L * err / z);
  return (double)(s / z);
}

inline std::string show(const std::vector<Ent> &v) {
  std::string o;
  for (auto &e : v) {
    if (o.size() > 1200) return o.substr(0, 1200) + mon::str("... ", v.size(), " entries");
    o += mon::str("(", e.fp, ",", e.fn, ",", e.nh, ",", e.nr, ")");
  }
  return o;
}

// Matches with the given errors and scores; queries and locations tell them apart.
struct Item { Ent e; float score; int q; int id; };
inline IntMatch to_match(const Item &x) {
  IntMatch m((float)x.e.fp, (float)x.e.fn);
  if (x.e.nh) m.SetHyp(IntHyp(x.q, x.id, x.score));
  if (x.e.nr) m.SetRef(IntRef(x.q, x.id));
  return m;
}
inline bool same_match(const IntMatch &a, const IntMatch &b) {
  return a.GetError().FP() == b.GetError().FP() && a.GetError().FN() == b.GetError().FN() && a.HasHyp() == b.HasHyp() && a.HasRef() == b.HasRef() &&
         (!a.HasHyp() || (plain((const IntRef &)a.GetHyp()) == plain((const IntRef &)b.GetHyp()) && a.GetHyp().Score() == b.GetHyp().Score())) &&
         (!a.HasRef() || plain(a.GetRef()) == plain(b.GetRef()));
}
inline bool same_matches(const std::vector<IntMatch> &a, const std::vector<IntMatch> &b) {
  if (a.size() != b.size()) return false;
  for (size_t i = 0; i < a.size(); ++i) if (!same_match(a[i], b[i])) return false;
  return true;
}
inline bool same_groups(const std::vector<std::vector<IntMatch>> &a, const std::vector<std::vector<IntMatch>> &b) {
  if (a.size() != b.size()) return false;
  for (size_t i = 0; i < a.size(); ++i) if (!same_matches(a[i], b[i])) return false;
  return true;
}
inline std::vector<Ent> collapse(const std::vector<Item> &v) {
  std::vector<Ent> o;
  const Item *last = nullptr;
  for (auto &x : v) {
    if (last && (last->e.nh > 0) == (x.e.nh > 0) && (!x.e.nh || last->score == x.score)) {
      Ent &b = o.back();
      b.fp += x.e.fp; b.fn += x.e.fn; b.nh += x.e.nh; b.nr += x.e.nr;
    } else {
      o.push_back(x.e);
    }
    last = &x;
  }
  return o;
}
inline std::vector<Ent> ents(const std::vector<Item> &v) { std::vector<Ent> o; for (auto &x : v) o.push_back(x.e); return o; }
inline std::string show(const std::vector<Item> &v) {
  std::string o;
  for (auto &x : v) {
    if (o.size() > 1500) return o.substr(0, 1500) + mon::str("... ", v.size(), " items");
    o += mon::str("[q", x.q, " #", x.id, " s=", x.e.nh ? mon::str(x.score) : std::string("-"), " fp=", x.e.fp, " fn=", x.e.fn, "]");
  }
  return o;
}
// A list in decreasing score with the misses last, or in any order.
const int kTies = 6;
inline std::vector<Item> gen_items(mon::Rng &r, bool crisp, size_t n, int queries, int ties, bool sorted) {
  std::vector<Item> v;
  const auto e = gen_entries(r, crisp, r.chance(60) ? 0 : (int)r.below(6), n);
  for (size_t i = 0; i < n; ++i) {
    float s;
    switch (ties) {
      case 0: s = (float)(n - i) * 0.5f - 3; break;                     // distinct
      case 1: s = (float)r.below(3); break;
      case 2: s = 1; break;
      case 3: {                                                         // the ends of the range, and around zero
        static const float ends[] = {-FLT_MAX, FLT_MAX, -FLT_MAX, 0.0f, -0.0f, FLT_MIN, -FLT_MIN, 1e-45f, -1e-45f, -3e38f, 1.0f};
        s = ends[r.below(11)]; break;
      }
      case 4: s = 0.5f; for (unsigned k = r.below(4); k > 0; --k) s = std::nextafter(s, 1.0f); break;   // closest neighbours
      default: s = (float)r.unit() * 2 - 1;
    }
    v.push_back(Item{e[i], s, (int)r.below(std::max(1, queries)), (int)i});
  }
  if (sorted)
    std::stable_sort(v.begin(), v.end(), [](const Item &a, const Item &b) {
      return (a.e.nh > 0) != (b.e.nh > 0) ? a.e.nh > 0 : a.e.nh && a.score > b.score; });
  return v;
}
inline std::vector<IntMatch> to_matches(const std::vector<Item> &v) { std::vector<IntMatch> o; for (auto &x : v) o.push_back(to_match(x)); return o; }

#endif
