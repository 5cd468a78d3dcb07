// C07: histories of an event set against a plain set.
#include "ev.h"

using namespace mon;
using kws::core::Event;
using kws::core::EventSet;

typedef Event<std::string, std::string> StrRef;
struct PStr {
  std::string q, l;
  bool operator==(const PStr &o) const { return q == o.q && l == o.l; }
  bool operator<(const PStr &o) const { return q != o.q ? q < o.q : l < o.l; }
};
static PStr plain(const StrRef &e) { return PStr{e.Query(), e.Location()}; }
static std::string show(const PStr &p) { return p.q + " " + p.l; }

// Boxes of other coordinate types, and integer queries.
template <class Q, class T> using AnyBox = kws::core::ShapedEvent<Q, kws::core::DocumentBoundingBox<T>>;
static std::string as_name(const std::string &s) { return s; }
static std::string as_name(int q) { return mon::str((char)('m' + (q > 0) - (q < 0)), q < 0 ? -(q + 1) : q); }
template <class Q, class T> static PBox plain(const AnyBox<Q, T> &e) {
  const auto &l = e.Location();
  return PBox{as_name(e.Query()), l.document, (int64_t)l.x, (int64_t)l.y, (int64_t)l.w, (int64_t)l.h};
}

// What a query must return, in order.
static std::vector<PBox> want(const std::set<PBox> &s, const PBox &q) {
  std::vector<std::pair<__int128, PBox>> a;
  for (const auto &e : s)
    if (e.q == q.q) {
      const __int128 c = common_area(e, q);
      if (c > 0) a.push_back(std::make_pair(c, e));
    }
  std::sort(a.begin(), a.end(), [](const std::pair<__int128, PBox> &x, const std::pair<__int128, PBox> &y) {
    return x.first != y.first ? x.first > y.first : y.second < x.second;
  });
  std::vector<PBox> o;
  for (auto &x : a) o.push_back(x.second);
  return o;
}
template <class P> std::vector<P> want(const std::set<P> &s, const P &q) {
  return s.count(q) ? std::vector<P>{q} : std::vector<P>();
}

template <class E, class P, class S>
void query(const S &set, const std::set<P> &model, const E &probe, Mon &m, const std::string &hist) {
  const P pp = plain(probe);
  const auto w = want(model, pp);
  for (int k = 0; k < 2; ++k) {   // twice: a query changes nothing
    std::vector<P> got;
    for (const E &e : set.FindOverlapping(probe)) got.push_back(plain(e));
    if (!(got == w)) {
      std::string a, b;
      for (auto &x : got) a += "(" + show(x) + ")";
      for (auto &x : w) b += "(" + show(x) + ")";
      CHECK(got == w, got.size() != w.size() ? "query-members" : "query-order", "query ", show(pp), " got ", a, " want ", b, " after ", hist);
    }
  }
  CHECK(set.Size() == model.size(), "size-after-query", set.Size(), " want ", model.size(), " after ", hist);
  m.count("queries");
  m.count("events_returned", w.size());
  if (w.size() > 1) m.count("queries_returning_several");
}

template <class E, class P, class Gen>
void history(Rng &r, Mon &m, Gen gen, const char *kind) {
  typedef EventSet<E> Set;
  std::set<P> model;
  std::vector<E> known;      // everything ever used
  std::string hist = kind;
  std::unique_ptr<Set> set;
  auto fresh = [&]() -> E {
    if (!known.empty() && r.chance(45)) return r.pick(known);
    E e = gen();
    if (!known.empty() && r.chance(25)) {      // the location of one event under the query of another
      const E &k = r.pick(known);
      e = r.chance(50) ? E(e.Query(), k.Location()) : E(k.Query(), e.Location());
    }
    known.push_back(e);
    return e;
  };
  if (r.chance(35)) {
    std::vector<E> v;
    for (int i = r.below(12); i > 0; --i) v.push_back(fresh());
    for (auto &e : v) { model.insert(plain(e)); hist += " range(" + show(plain(e)) + ")"; }
    if (r.chance(50)) set.reset(new Set(v.begin(), v.end()));
    else { std::list<E> l(v.begin(), v.end()); set.reset(new Set(l.begin(), l.end())); }
    m.count("built_from_range");
  } else {
    set.reset(new Set());
  }
  CHECK(set->Size() == model.size(), "size-initial", set->Size(), " want ", model.size(), " after ", hist);
  const int ops = 1 + r.below(r.chance(10) ? 150 : 30);
  uint64_t changed = 0, removed = 0;
  for (int i = 0; i < ops; ++i) {
    const unsigned t = r.below(100);
    if (t < 42) {
      const E e = fresh();
      set->Insert(e);
      changed += model.insert(plain(e)).second;
      hist += " +(" + show(plain(e)) + ")";
      m.count("insert");
    } else if (t < 60) {
      const E e = fresh();
      set->Remove(e);
      const bool did = model.erase(plain(e));
      changed += did; removed += did;
      hist += " -(" + show(plain(e)) + ")";
      m.count(did ? "remove_present" : "remove_absent");
    } else if (t < 62) {
      set->Clear();
      model.clear();
      hist += " clear";
      m.count("clear");
    } else if (t < 64) {
      std::unique_ptr<Set> copy(new Set(*set));     // an independent copy
      const E e = fresh();
      copy->Insert(e);
      copy->Remove(r.pick(known));
      if (r.chance(50)) { *copy = *set; set.swap(copy); }
      hist += " copy";
      m.count("copy");
    } else {
      query<E, P>(*set, model, fresh(), m, hist);
    }
    CHECK(set->Size() == model.size(), "size", set->Size(), " want ", model.size(), " after ", hist);
  }
  for (size_t i = 0; i < known.size() && i < 40; ++i) query<E, P>(*set, model, known[i], m, hist);
  if (changed >= 2 && removed) m.nontrivial();
  m.id(hist);
  if (m.wants_sample()) m.sample(str(hist.substr(0, 300), " -> ", model.size(), " events"));
}

// Many events that overlap in one document, or many queries and documents.
static void crowd(Rng &r, Mon &m) {
  typedef EventSet<BoxRef> Set;
  Set set;
  std::set<PBox> model;
  const bool heap = r.chance(12);              // everything on top of everything else
  const bool wide = !heap && r.chance(40);
  const size_t n = heap ? 1100 + r.below(2500) : wide ? 200 + r.below(1200) : 60 + r.below(600);
  const size_t nq = heap ? 1 : wide ? 1 + r.below(400) : 1 + r.below(2), nd = heap ? 1 : wide ? 1 + r.below(400) : 1 + r.below(6);
  const int side = !heap && r.chance(40) ? 8 : r.chance(60) ? 300 : 5000;
  auto gen = [&] {
    return BoxRef(str("q", r.below(nq)), DocBox(str("d", r.below(nd)), r.below(side), r.below(side), 1 + r.below(2 * side), 1 + r.below(2 * side)));
  };
  std::vector<BoxRef> all;
  for (size_t i = 0; i < n; ++i) { all.push_back(gen()); set.Insert(all.back()); model.insert(plain(all.back())); }
  const std::string hist = str("crowd of ", n, " in ", nq, " queries, ", nd, " documents, side ", side);
  for (int round = 0; round < 3; ++round) {
    CHECK(set.Size() == model.size(), "size", set.Size(), " want ", model.size(), " after ", hist);
    for (int k = 0; k < 4; ++k) {
      BoxRef p = r.chance(50) ? r.pick(all) : gen();
      if (r.chance(50)) { DocBox b(p.Location().document, 0, 0, 4 * side, 4 * side); p = BoxRef(p.Query(), b); }
      query<BoxRef, PBox>(set, model, p, m, hist);
    }
    if (r.chance(25)) {
      set.Clear(); model.clear();
      m.count("crowds_cleared");
      for (int k = 0; k < 4; ++k) query<BoxRef, PBox>(set, model, r.pick(all), m, hist + " cleared");
      for (size_t k = r.below(3); k > 0; --k) { const BoxRef &e = r.pick(all); set.Insert(e); model.insert(plain(e)); }
    }
    for (size_t k = r.below(all.size()); k > 0; --k) { const BoxRef &e = r.pick(all); set.Remove(e); model.erase(plain(e)); }
    for (size_t k = r.below(n / 2); k > 0; --k) { all.push_back(gen()); set.Insert(all.back()); model.insert(plain(all.back())); }
  }
  m.nontrivial();
  m.id(hist); m.id(model.size());
  m.count("crowds"); m.count("crowd_events", n);
  if (heap) m.count("crowds_of_thousands");
}

// Boxes whose areas need the whole width of the coordinate type.
template <class T> static kws::core::DocumentBoundingBox<T> vast(Rng &r, int docs) {
  const int bits = std::numeric_limits<T>::digits;                 // a few sizes, so that areas tie too
  const T w = (T)std::ldexp(1.0, bits / 2) - 1 - (T)r.below(3), h = (T)std::ldexp(1.0, bits - bits / 2) - 1 - (T)r.below(4);
  const T side = r.chance(50) ? 8 : w / 2;
  const T x = (T)r.below((uint64_t)side), y = (T)r.below((uint64_t)side);
  const bool neg = std::numeric_limits<T>::is_signed && r.chance(30);
  return kws::core::DocumentBoundingBox<T>(r.below(docs) ? "d" : "dd", neg ? (T)(x - side) : x, neg ? (T)(y - side) : y,
                                           r.chance(20) ? (T)(w / 2) : w, r.chance(20) ? (T)(h / 2) : h);
}
template <class T> static kws::core::DocumentBoundingBox<T> near_origin(Rng &r, int docs) {
  const int lo = std::numeric_limits<T>::is_signed ? -3 : 0;
  return kws::core::DocumentBoundingBox<T>(r.below(docs) ? "d" : "dd", (T)r.in(lo, 3), (T)r.in(lo, 3), (T)r.below(5), (T)r.below(5));
}
template <class Q, class T> static void other_type(Rng &r, Mon &m, const char *kind, const std::vector<Q> &qs, bool big) {
  const int docs = 1 + r.below(2);
  big = big && r.chance(60);
  history<AnyBox<Q, T>, PBox>(r, m, [&] { return AnyBox<Q, T>(r.pick(qs), big ? vast<T>(r, docs) : near_origin<T>(r, docs)); }, kind);
  m.count(std::string(big ? "vast." : "typed.") + kind);
}

static void one(Rng &r, Mon &m) {
  if (r.chance(20)) {
    switch (r.below(6)) {
      case 0: return other_type<std::string, uint32_t>(r, m, "uint32", {"a", "b"}, true);
      case 1: return other_type<int, int32_t>(r, m, "int32", {0, -1, 7}, true);
      case 2: return other_type<int, int64_t>(r, m, "int64", {0, 1}, true);
      case 3: return other_type<std::string, double>(r, m, "double", {"a", "b"}, false);
      case 4: return other_type<std::string, uint16_t>(r, m, "uint16", {"a"}, true);
      default: return other_type<int, uint64_t>(r, m, "uint64", {5, 6}, false);
    }
  }
  if (r.below(60) == 0) return crowd(r, m);
  const int q = 1 + r.below(4), docs = 1 + r.below(3), style = r.below(5);
  switch (r.below(4)) {
    case 0: {
      const int nl = 1 + r.below(6);
      history<IntRef, PInt>(r, m, [&] { return IntRef((int)r.below(q) - 1, (int)r.below(nl)); }, "int:");
      break;
    }
    case 1:
      history<StrRef, PStr>(r, m, [&] { return StrRef(name(r, q), name(r, 4)); }, "string:");
      break;
    default:
      history<BoxRef, PBox>(r, m, [&] { return BoxRef(name(r, q), gen_box(r, docs, style == 4 ? r.below(4) : style)); }, "box:");
  }
}

int main(int argc, char **argv) { return run(argc, argv, one); }
