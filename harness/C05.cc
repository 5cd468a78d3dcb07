// C05: comparison operators against the order of plain tuples, with trichotomy and transitivity.
#include "ev.h"

using namespace mon;
using kws::core::BoundingBox;
using kws::core::DocumentBoundingBox;
using kws::core::Event;
using kws::core::Match;
using kws::core::ScoredEvent;
using kws::core::ShapedEvent;

template <class T> std::string text(const T &v) { std::ostringstream o; o.precision(9); o << v; return o.str(); }

// Six operators of one pair against the model's keys.
template <class V, class K>
void pair_check(const V &a, const V &b, const K &ka, const K &kb, const std::string &what) {
  const bool lt = ka < kb, eq = ka == kb, gt = kb < ka;
  const std::string at = what + ": " + text(a) + " / " + text(b);
  CHECK((a < b) == lt, "less", at);
  CHECK((a > b) == gt, "greater", at);
  CHECK((a == b) == eq, "equal", at);
  CHECK((a != b) == !eq, "not-equal", at);
  CHECK((a <= b) == !gt, "less-or-equal", at);
  CHECK((a >= b) == !lt, "greater-or-equal", at);
  CHECK((a < b) + (a == b) + (a > b) == 1, "trichotomy", at);
}

template <class V, class K>
void check(Rng &r, Mon &m, const std::vector<V> &v, const std::vector<K> &k, const std::string &what) {
  uint64_t lt = 0, eq = 0;
  for (size_t i = 0; i < v.size(); ++i)
    for (size_t j = 0; j < v.size(); ++j) {
      pair_check(v[i], v[j], k[i], k[j], what);
      lt += v[i] < v[j]; eq += v[i] == v[j];
    }
  for (size_t i = 0; i < v.size(); ++i)
    for (size_t j = 0; j < v.size(); ++j)
      for (size_t l = 0; l < v.size(); ++l) {
        if (v[i] < v[j] && v[j] < v[l]) CHECK(v[i] < v[l], "transitive", what, ": ", text(v[i]), " / ", text(v[j]), " / ", text(v[l]));
        if (v[i] <= v[j] && v[j] <= v[l]) CHECK(v[i] <= v[l], "transitive-or-equal", what, ": ", text(v[i]), " / ", text(v[j]), " / ", text(v[l]));
        if (v[i] == v[j] && v[j] == v[l]) CHECK(v[i] == v[l], "transitive-equal", what, ": ", text(v[i]));
      }
  std::vector<V> s = v;
  std::sort(s.begin(), s.end(), std::greater<V>());
  for (size_t i = 1; i < s.size(); ++i) CHECK(!(s[i - 1] < s[i]), "sorted", what, ": ", text(s[i - 1]), " / ", text(s[i]));
  m.count("pairs." + what, v.size() * v.size());
  m.count("triples", v.size() * v.size() * v.size());
  if (lt && eq > v.size()) m.nontrivial();
  m.id(what); m.id(lt); m.id(eq);
  for (auto &x : v) m.id(text(x));
  if (m.wants_sample()) m.sample(str(what, ": e.g. ", text(v[0]), " / ", text(v[1]), ", ", lt, " less, ", eq, " equal of ", v.size() * v.size()));
}

template <class T> T coord(Rng &r, int mode) {
  if (mode == 0) return (T)r.below(2);
  if (mode == 1) return (T)(std::numeric_limits<T>::is_signed ? (int)r.below(3) - 1 : (int)r.below(3));
  const T v[] = {std::numeric_limits<T>::lowest(), std::numeric_limits<T>::max(), (T)0, (T)1,
                 (T)(std::numeric_limits<T>::max() / 2), (T)(std::numeric_limits<T>::max() / 2 + 1)};
  if (mode == 2) return v[r.below(6)];
  // neighbours, which a narrower or wider type would not tell apart
  const T c = mode == 3 ? v[r.below(6)] : (T)(1ull << r.below(std::numeric_limits<T>::digits > 31 ? 54 : 31));
  if (std::numeric_limits<T>::is_integer)
    return r.chance(50) ? c : c == std::numeric_limits<T>::max() || (r.chance(50) && c != std::numeric_limits<T>::lowest()) ? c - 1 : c + 1;
  return r.chance(50) ? c : (T)std::nextafter((double)c, r.chance(50) ? 0.0 : 1e300);
}

// Scores next to each other.
static float close_score(Rng &r) {
  static const float c[] = {0.5f, 1.0f, 0.0f, -3.0f, 1e-30f, 1e30f};
  const float x = c[r.below(6) % (1 + r.below(6))];
  return r.chance(40) ? x : std::nextafter(x, r.chance(50) ? -1e38f : 1e38f);
}

template <class T> using Key4 = std::tuple<T, T, T, T>;
template <class T> Key4<T> kbox(const BoundingBox<T> &b) { return std::make_tuple(b.x, b.y, b.w, b.h); }
template <class T> BoundingBox<T> gbox(Rng &r, int mode) {
  return BoundingBox<T>(coord<T>(r, mode), coord<T>(r, mode), coord<T>(r, mode), coord<T>(r, mode));
}
template <class T> std::pair<std::string, Key4<T>> kdoc(const DocumentBoundingBox<T> &b) {
  return std::make_pair(b.document, std::make_tuple(b.x, b.y, b.w, b.h));
}
template <class T> DocumentBoundingBox<T> gdoc(Rng &r, int mode) {
  static const std::string zero[] = {"d", std::string("d\0x", 3), std::string("d\0y", 3)};
  if (mode == 0 && r.chance(20)) return DocumentBoundingBox<T>(zero[r.below(3)], r.below(2), 0, 1, r.below(2));
  return DocumentBoundingBox<T>(r.chance(15) ? odd_name(r) : name(r, 2 + r.below(6)), coord<T>(r, mode), coord<T>(r, mode), coord<T>(r, mode), coord<T>(r, mode));
}

template <class T> void boxes(Rng &r, Mon &m, const std::string &ty) {
  const int mode = r.below(5);
  {
    std::vector<BoundingBox<T>> v; std::vector<Key4<T>> k;
    for (int i = 0; i < 9; ++i) { v.push_back(i && r.chance(20) ? v[r.below(i)] : gbox<T>(r, mode)); k.push_back(kbox(v.back())); }
    check(r, m, v, k, "box-" + ty);
  }
  {
    std::vector<DocumentBoundingBox<T>> v; std::vector<std::pair<std::string, Key4<T>>> k;
    for (int i = 0; i < 9; ++i) { v.push_back(i && r.chance(20) ? v[r.below(i)] : gdoc<T>(r, mode)); k.push_back(kdoc(v.back())); }
    check(r, m, v, k, "document-box-" + ty);
  }
  {
    typedef ShapedEvent<std::string, DocumentBoundingBox<T>> EV;
    typedef ScoredEvent<EV> SE;
    typedef std::pair<std::string, std::pair<std::string, Key4<T>>> KE;
    std::vector<EV> v; std::vector<KE> k;
    std::vector<SE> w; std::vector<std::pair<float, KE>> kw;
    const int ss = r.below(5);
    for (int i = 0; i < 9; ++i) {
      v.push_back(i && r.chance(20) ? EV(v[r.below(i)]) : EV(name(r, 1 + r.below(4)), gdoc<T>(r, mode)));
      k.push_back(KE(v.back().Query(), kdoc(v.back().Location())));
      const float s = ss == 4 ? close_score(r) : gen_score(r, ss);
      w.push_back(SE(v.back(), s));
      kw.push_back(std::make_pair(s, k.back()));
    }
    check(r, m, v, k, "event-" + ty);
    check(r, m, w, kw, "scored-event-" + ty);
  }
}

template <class Q, class L>
void plain_events(Rng &r, Mon &m, const std::vector<Q> &qs, const std::vector<L> &ls, const std::string &what) {
  typedef Event<Q, L> EV;
  typedef ScoredEvent<EV> SE;
  std::vector<EV> v; std::vector<std::pair<Q, L>> k;
  std::vector<SE> w; std::vector<std::pair<float, std::pair<Q, L>>> kw;
  const int ss = r.below(5);
  for (int i = 0; i < 9; ++i) {
    v.push_back(EV(r.pick(qs), r.pick(ls)));
    k.push_back(std::make_pair(v.back().Query(), v.back().Location()));
    const float s = ss == 4 ? (r.chance(50) ? std::numeric_limits<float>::infinity() : -std::numeric_limits<float>::infinity()) : gen_score(r, ss);
    w.push_back(SE(v.back(), s)); kw.push_back(std::make_pair(s, k.back()));
  }
  check(r, m, v, k, "event-" + what);
  check(r, m, w, kw, "scored-event-" + what);
}

template <class V, class K>
void equality(Mon &m, const std::vector<V> &v, const std::vector<K> &k, const std::string &what) {
  uint64_t eq = 0;
  for (size_t i = 0; i < v.size(); ++i)
    for (size_t j = 0; j < v.size(); ++j) {
      const bool e = k[i] == k[j];
      CHECK((v[i] == v[j]) == e, "equal-" + what, text(v[i]), " / ", text(v[j]));
      CHECK((v[i] != v[j]) == !e, "not-equal-" + what, text(v[i]), " / ", text(v[j]));
      eq += e;
    }
  m.count("pairs." + what, v.size() * v.size());
  if (eq > v.size() && eq < v.size() * v.size()) m.nontrivial();
  m.id(what); m.id(eq);
  for (auto &x : v) m.id(text(x));
}

static void matches(Rng &r, Mon &m) {
  static const double vals[] = {0.0, 1.0, 0.5, 2.0};
  static const double near0[] = {0.0, 1e-8, 1e-40, -0.0}, near1[] = {1.0, std::nextafter(1.0f, 0.0f), std::nextafter(1.0f, 2.0f)};
  static const double sums[] = {16777216, 16777217, 0.1, 0.1f, 1 + 1e-12, 1};     // what many errors add up to
  static const size_t nums[] = {0, 1, 1ul << 32, (1ul << 32) + 1, 65536, ~0ul, 1ul << 63, 256, 2};
  const int close = r.below(5), wide = r.below(3);
  auto num = [&]() { return wide ? (size_t)r.below(2) : nums[r.below(9)]; };
  auto val = [&]() {
    if (close == 4) return sums[r.below(6)];
    if (close == 1 && r.chance(70)) return near0[r.below(4)];
    if (close == 2 && r.chance(70)) return near1[r.below(3)];
    return vals[r.below(r.chance(50) ? 2 : 4)];
  };
  std::vector<MatchError> e; std::vector<std::pair<double, double>> ke;
  std::vector<MatchErrorCounts> c; std::vector<std::tuple<double, double, size_t, size_t>> kc;
  for (int i = 0; i < 12; ++i) {
    e.push_back(MatchError(val(), val()));
    ke.push_back(std::make_pair(e.back().FP(), e.back().FN()));
    { const double fp = val(), fn = val(); const size_t nh = num(), nr = num(); c.push_back(MatchErrorCounts(fp, fn, nh, nr)); }
    kc.push_back(std::make_tuple(c.back().FP(), c.back().FN(), c.back().NH(), c.back().NR()));
  }
  equality(m, e, ke, "match-error");
  equality(m, c, kc, "match-error-counts");
  typedef std::tuple<double, double, bool, PInt, bool, PInt, float> KM;
  std::vector<IntMatch> v; std::vector<KM> k;
  for (int i = 0; i < 14; ++i) {
    const MatchError err(val(), val());
    const int q = r.below(2), l = r.below(2), q2 = r.chance(70) ? q : 1 - q, l2 = r.chance(70) ? l : 1 - l;
    const float s = close ? close_score(r) : (float)r.below(2);
    const bool hr = r.chance(65), hh = r.chance(65);
    IntMatch x(err.FP(), err.FN());
    if (hr && hh && r.chance(50)) x = IntMatch(IntRef(q, l), IntHyp(q2, l2, s), err);
    else { if (hr) x.SetRef(IntRef(q, l)); if (hh) x.SetHyp(IntHyp(q2, l2, s)); }
    v.push_back(x);
    k.push_back(KM(err.FP(), err.FN(), hr, hr ? PInt{q, l} : PInt{0, 0}, hh, hh ? PInt{q2, l2} : PInt{0, 0}, hh ? s : 0));
  }
  equality(m, v, k, "match");
}

static void one(Rng &r, Mon &m) {
  switch (r.below(10)) {
    case 0: boxes<uint32_t>(r, m, "uint32"); break;
    case 1: boxes<int32_t>(r, m, "int32"); break;
    case 2: boxes<int64_t>(r, m, "int64"); break;
    case 3: boxes<double>(r, m, "double"); break;
    case 4: boxes<uint64_t>(r, m, "uint64"); break;
    case 5: plain_events<int32_t, int32_t>(r, m, {0, 1, -1, 2147483647, std::numeric_limits<int32_t>::min()}, {0, 1, -5}, "int"); break;
    case 6: plain_events<std::string, std::string>(r, m, {"", "a", "b", "aa", "A", "\xff", "z", std::string("a\0", 2), std::string("a\0b", 3), std::string(600, 'l') + "1", std::string(600, 'l') + "2"}, {"", "a", "\xc3\xa9", "b", std::string("b\0", 2)}, "string"); break;
    case 7: plain_events<std::string, int64_t>(r, m, {"x", "y"}, {-1, 0, 1, 1LL << 62}, "mixed"); break;
    default: matches(r, m);
  }
}

int main(int argc, char **argv) { return run(argc, argv, one); }
