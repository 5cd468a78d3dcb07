// C04: scorers against exact ratios.
#include "ev.h"
#include "scorer/IntersectionOverHypothesisAreaScorer.h"
#include "scorer/IntersectionOverUnionAreaScorer.h"
#include "scorer/SoftBoundingBoxScorer.h"
#include "scorer/TrivialScorer.h"

using namespace mon;
using kws::core::BoundingBox;
using kws::core::DocumentBoundingBox;
using kws::core::Event;
using kws::core::ScoredEvent;
using kws::core::ShapedEvent;
typedef kws::core::ShapedEvent<int, kws::core::BoundingBox<int64_t>> LongRef;
typedef kws::core::ScoredEvent<LongRef> LongHyp;
template <class T> using RealRef = kws::core::ShapedEvent<std::string, kws::core::DocumentBoundingBox<T>>;
template <class T> using RealHyp = kws::core::ScoredEvent<RealRef<T>>;

struct Geo { int64_t x, y, w, h; };
static __int128 common(const Geo &a, const Geo &b) {
  const __int128 w = std::min(a.x + a.w, b.x + b.w) - std::max(a.x, b.x);
  const __int128 h = std::min(a.y + a.h, b.y + b.h) - std::max(a.y, b.y);
  return w > 0 && h > 0 ? w * h : 0;
}

// -1: reject, 1: accept, 0: single-precision rounding decides
static int decide(long double num, long double den, float t) {
  const long double d = num - (long double)t * den;
  const long double band = 5e-7L * std::max(num, std::fabs((long double)t) * den);
  if (d == 0) {
    int e;
    // exact ratios: always exact when the threshold is a power of two or the areas fit 24 bits
    if (std::frexp(t, &e) == 0.5f || t == 0 || (num < (1 << 24) && den < (1 << 24))) return 1;
    return 0;
  }
  if (std::fabs(d) <= band) return 0;
  return d > 0 ? 1 : -1;
}

static bool accepted(const MatchError &e) { return e.FP() == 0.0f && e.FN() == 0.0f; }
static bool rejected(const MatchError &e) { return e.FP() == 1.0f && e.FN() == 1.0f; }

template <class RE, class HE>
static void boxes(Rng &r, Mon &m, const RE &ref, const HE &hyp, const Geo &a, const Geo &b, bool same_query,
                  bool same_doc, const std::string &what) {
  const __int128 in = same_doc ? common(a, b) : 0;
  const __int128 ra = (__int128)a.w * a.h, ha = (__int128)b.w * b.h, un = ra + ha - in;
  std::vector<float> th = {0.5f, 0.0f, 1.0f, 0.25f, 0.7f, (float)r.unit(), 1.5f, -0.5f, 1e-7f};
  if (ha > 0) {   // thresholds on and around the pair's own ratios
    for (long double q : {(long double)in / ha, un > 0 ? (long double)in / un : 0.0L}) {
      th.push_back((float)q);
      th.push_back((float)(q * (1 - 2e-6L)));
      th.push_back((float)(q * (1 + 2e-6L)));
      th.push_back((float)(q + 0.01L));
    }
  }
  const std::string at = str(what, " ref ", a.x, ",", a.y, " ", a.w, "x", a.h, " hyp ", b.x, ",", b.y, " ", b.w, "x", b.h,
                             " same query ", same_query, " same document ", same_doc);
  for (float t : th) {
    kws::scorer::IntersectionOverHypothesisAreaScorer<RE, HE> s1(t);
    kws::scorer::IntersectionOverUnionAreaScorer<RE, HE> s2(t);
    const MatchError e1 = s1(ref, hyp), e2 = s2(ref, hyp);
    CHECK(s1.Threshold() == t && s2.Threshold() == t, "threshold-changed", at);
    CHECK(accepted(e1) || rejected(e1), "over-hypothesis-error", at, " t=", t, ": ", e1);
    CHECK(accepted(e2) || rejected(e2), "over-union-error", at, " t=", t, ": ", e2);
    const int w1 = !same_query || ha == 0 ? -1 : decide((long double)in, (long double)ha, t);
    const int w2 = !same_query || ha == 0 ? -1 : decide((long double)in, (long double)un, t);
    if (w1) CHECK(accepted(e1) == (w1 > 0), "over-hypothesis", at, " t=", t, " ratio ", (double)in / (double)ha, ": ", e1);
    if (w2) CHECK(accepted(e2) == (w2 > 0), "over-union", at, " t=", t, " ratio ", (double)in / (double)un, ": ", e2);
    m.count(w1 > 0 ? "over_hypothesis.accepted" : w1 ? "over_hypothesis.rejected" : "over_hypothesis.within_rounding");
    m.count(w2 > 0 ? "over_union.accepted" : w2 ? "over_union.rejected" : "over_union.within_rounding");
  }
  kws::scorer::SoftIntersectionOverHypothesisAreaScorer<RE, HE> s3;
  const MatchError e3 = s3(ref, hyp);
  const double fp = !same_query || ha == 0 ? 1.0 : 1.0 - (double)in / (double)ha;
  const double fn = !same_query || ra == 0 ? 1.0 : 1.0 - (double)in / (double)ra;
  CHECK(e3.FP() >= 0 && e3.FP() <= 1 && e3.FN() >= 0 && e3.FN() <= 1, "soft-range", at, ": ", e3);
  CHECK(std::fabs(e3.FP() - fp) < 4e-7, "soft-fp", at, ": ", e3, " instead of ", fp);
  CHECK(std::fabs(e3.FN() - fn) < 4e-7, "soft-fn", at, ": ", e3, " instead of ", fn);
  if (!same_query) CHECK(rejected(e3), "soft-query", at, ": ", e3);
  kws::scorer::TrivialScorer<RE, HE> s4;
  const MatchError e4 = s4(ref, hyp);
  const bool eq = same_query && same_doc && a.x == b.x && a.y == b.y && a.w == b.w && a.h == b.h;
  CHECK(eq ? accepted(e4) : rejected(e4), "trivial", at, ": ", e4);
  m.count(in == 0 ? "pairs.disjoint" : "pairs.overlapping");
  m.count("pairs." + what);
  if (in > 0 && same_query) m.nontrivial();
  m.id(what); m.id(a.x * 31 + a.w); m.id(b.x * 31 + b.w); m.id(a.h * 77 + b.h); m.id((uint64_t)in);
  if (m.wants_sample() && in > 0) m.sample(at + str(": intersection ", (double)in, " soft ", e3));
}

// Boxes of fractional coordinates: the same ratios whatever the unit.
template <class T> static void real(Rng &r, Mon &m, const Geo &a, const Geo &b, bool sq, bool sd, const std::string &what) {
  static const int e[] = {-3, -8, -20, -30, 4};
  const T u = std::ldexp((T)1, e[r.below(5)]);
  const RealRef<T> ref("query", DocumentBoundingBox<T>("doc", a.x * u, a.y * u, a.w * u, a.h * u));
  const RealHyp<T> hyp(sq ? "query" : "quer", DocumentBoundingBox<T>(sd ? "doc" : "do", b.x * u, b.y * u, b.w * u, b.h * u), 0.3f);
  boxes<RealRef<T>, RealHyp<T>>(r, m, ref, hyp, a, b, sq, sd, what);
}

static void one(Rng &r, Mon &m) {
  if (r.chance(15)) {   // exact-location events
    const int k = 1 + r.below(3);
    const int q1 = r.below(k), q2 = r.below(k), l1 = r.below(k), l2 = r.below(k);
    kws::scorer::TrivialScorer<IntRef, IntHyp> s;
    const MatchError e = s(IntRef(q1, l1), IntHyp(q2, l2, 0.5f));
    CHECK(q1 == q2 && l1 == l2 ? accepted(e) : rejected(e), "trivial-int", q1, " ", l1, " / ", q2, " ", l2, ": ", e);
    typedef Event<std::string, std::string> SR;
    typedef ScoredEvent<SR> SH;
    kws::scorer::TrivialScorer<SR, SH> s2;
    const std::string n1 = name(r, k), n2 = name(r, k), n3 = name(r, k), n4 = name(r, k);
    const MatchError e2 = s2(SR(n1, n2), SH(n3, n4, 1));
    CHECK(n1 == n3 && n2 == n4 ? accepted(e2) : rejected(e2), "trivial-string", n1, " ", n2, " / ", n3, " ", n4);
    m.count("pairs.exact_location");
    return;
  }
  Geo a, b;
  const int mode = r.below(5);
  auto side = [&]() -> int64_t {
    switch (mode) {
      case 0: return r.below(6);
      case 1: return 1 + r.below(400);
      case 2: return 1 + r.below(16000);
      case 3: return 1 + r.below(40000);
      default: return 1 + (r.next() >> (34 + r.below(29)));
    }
  };
  int64_t hi = 0xffffffffLL;
  for (;;) {
    a = Geo{(int64_t)r.below(mode ? 5000 : 6), (int64_t)r.below(mode ? 5000 : 6), side(), side()};
    switch (r.below(7)) {
      case 6: b = Geo{a.x + (int64_t)r.below(3), a.y + (int64_t)r.below(2), a.w + (int64_t)r.below(3), a.h + (int64_t)r.below(2)}; break;   // all but a sliver
      case 0: b = Geo{a.x, a.y, a.w * 2, a.h}; break;
      case 1: b = Geo{a.x + a.w / 2, a.y, a.w, a.h}; break;
      case 2: b = Geo{a.x + a.w / 3, a.y + a.h / 3, a.w / 3, a.h / 3}; break;
      case 3: b = Geo{a.x, a.y, a.w * 2 + 1, a.h}; break;
      case 4: b = a; break;
      default: b = Geo{a.x + (int64_t)r.below(a.w + 2), a.y + (int64_t)r.below(a.h + 2), side(), side()};
    }
    if (r.chance(5)) b.w = 0;
    if (r.chance(5)) a.h = 0;
    if (a.x + a.w > hi || b.x + b.w > hi || a.y + a.h > hi || b.y + b.h > hi) continue;
    if ((__int128)a.w * a.h + (__int128)b.w * b.h > hi) continue;
    break;
  }
  const bool sq = !r.chance(12), sd = !r.chance(12);
  const BoxRef ref("query", DocBox("doc", a.x, a.y, a.w, a.h));
  const BoxHyp hyp(sq ? "query" : "Query", DocBox(sd ? "doc" : "doc2", b.x, b.y, b.w, b.h), gen_score(r, r.below(4)));
  boxes<BoxRef, BoxHyp>(r, m, ref, hyp, a, b, sq, sd, "uint32");
  const LongRef lr(7, BoundingBox<int64_t>(a.x - 9000, a.y - 2, a.w, a.h));
  const LongHyp lh(sq ? 7 : -7, BoundingBox<int64_t>(b.x - 9000, b.y - 2, b.w, b.h), 0.1f);
  boxes<LongRef, LongHyp>(r, m, lr, lh, a, b, sq, true, "int64");
  if (r.chance(50)) real<double>(r, m, a, b, sq, sd, "double");
  else if ((a.w + a.x) * (a.h + a.y) < (1 << 22) && (b.w + b.x) * (b.h + b.y) < (1 << 22)) real<float>(r, m, a, b, sq, sd, "float");
}

int main(int argc, char **argv) { return run(argc, argv, one); }
