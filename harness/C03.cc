// C03: areas, intersections and unions against cell counting and exact interval arithmetic.
#include "ev.h"

using namespace mon;
using kws::core::BoundingBox;
using kws::core::DocumentBoundingBox;
using kws::core::ScoredEvent;
using kws::core::ShapedEvent;
typedef __int128 Big;

struct B { Big x, y, w, h; };

static Big inter(const B &a, const B &b) {
  const Big w = std::min(a.x + a.w, b.x + b.w) - std::max(a.x, b.x);
  const Big h = std::min(a.y + a.h, b.y + b.h) - std::max(a.y, b.y);
  return w > 0 && h > 0 ? w * h : 0;
}
static Big cells(const B &a, const B &b) {
  Big n = 0;
  for (Big i = a.x; i < a.x + a.w; ++i)
    for (Big j = a.y; j < a.y + a.h; ++j)
      if (i >= b.x && i < b.x + b.w && j >= b.y && j < b.y + b.h) ++n;
  return n;
}
static std::string show(const B &b) {
  return str((double)b.x, ",", (double)b.y, " ", (double)b.w, "x", (double)b.h);
}

// Coordinates are multiples of `unit` (exact in floating types).
template <class T> struct Ty {
  static Big lo() { return std::numeric_limits<T>::is_integer ? (Big)std::numeric_limits<T>::lowest() : -fl(); }
  static Big hi() { return std::numeric_limits<T>::is_integer ? (Big)std::numeric_limits<T>::max() : fl(); }
  static Big fl() { return (Big)1 << (sizeof(T) == 4 ? 12 : 26); }
  static Big area() { return std::numeric_limits<T>::is_integer ? hi() / 2 : (Big)1 << (sizeof(T) == 4 ? 22 : 50); }
};

template <class T> struct Pair {
  typedef BoundingBox<T> BB;
  typedef DocumentBoundingBox<T> DB;
  typedef ShapedEvent<std::string, DB> EV;
  typedef ScoredEvent<EV> SE;
  typedef ShapedEvent<int, BB> EB;

  // Two different document names, some of them alike.
  static std::pair<std::string, std::string> names() {
    static unsigned k = 0;
    static const std::vector<std::pair<std::string, std::string>> v = {
      {"doc", "Doc"}, {std::string("d\0a", 3), std::string("d\0b", 3)}, {"d", std::string("d\0", 2)}, {"", "d"}, {"doc", "doc "}, {"doc", "docs"},
      {std::string(70, 'x') + "1", std::string(70, 'x') + "2"}, {std::string(3000, 'x') + "1", std::string(3000, 'x') + "2"},
      {"\xc3\xa9", "\xc3\xa8"}, {"a.jpg", "a.png"}, {"01", "1"}, {"1", "1.0"}, {"ab", "ba"}};
    return v[k++ % v.size()];
  }

  static void check(Mon &m, const B &a, const B &b, double unit, const std::string &ty, bool cellcount, bool events) {
    const T ax = (T)a.x * (T)unit, ay = (T)a.y * (T)unit, aw = (T)a.w * (T)unit, ah = (T)a.h * (T)unit;
    const T bx = (T)b.x * (T)unit, by = (T)b.y * (T)unit, bw = (T)b.w * (T)unit, bh = (T)b.h * (T)unit;
    const Big wi = inter(a, b), wa = a.w * a.h, wb = b.w * b.h, wu = wa + wb - wi;
    const T sq = (T)unit * (T)unit;
    const T ti = (T)wi * sq, ta = (T)wa * sq, tb = (T)wb * sq, tu = (T)wu * sq;
    const std::string at = ty + " " + show(a) + " and " + show(b);
    if (cellcount) CHECK(cells(a, b) == wi, "model", "the two models disagree: ", at);
    const BB p(ax, ay, aw, ah), q(bx, by, bw, bh);
    CHECK(p.Area() == ta, "area", at, ": ", p.Area(), " instead of ", ta);
    CHECK(q.Area() == tb, "area", at, ": ", q.Area(), " instead of ", tb);
    CHECK(p.IntersectionArea(q) == ti, "intersection", at, ": ", p.IntersectionArea(q), " instead of ", ti);
    CHECK(q.IntersectionArea(p) == ti, "intersection-symmetry", at, ": ", q.IntersectionArea(p), " instead of ", ti);
    CHECK(p.UnionArea(q) == tu, "union", at, ": ", p.UnionArea(q), " instead of ", tu);
    CHECK(q.UnionArea(p) == tu, "union-symmetry", at);
    CHECK(IntersectionArea(p, q) == ti, "free-intersection", at);
    CHECK(UnionArea(p, q) == tu, "free-union", at);
    CHECK(p.IntersectionArea(p) == ta, "self-intersection", at);
    CHECK(q.UnionArea(q) == tb, "self-union", at);
    m.count("pairs." + ty);
    if (wi == 0) {
      const bool touch = a.w > 0 && a.h > 0 && b.w > 0 && b.h > 0 &&
          a.x <= b.x + b.w && b.x <= a.x + a.w && a.y <= b.y + b.h && b.y <= a.y + a.h;
      m.count(touch ? "pairs_touching" : "pairs_disjoint_or_empty");
    } else {
      m.count(wi == wa || wi == wb ? "pairs_nested" : "pairs_partial");
      m.nontrivial();
    }
    if (!events) return;
    const auto nm = names();
    const DB d1(nm.first, ax, ay, aw, ah), d2(nm.first, bx, by, bw, bh), d3(nm.second, bx, by, bw, bh);
    CHECK(d1.IntersectionArea(d2) == ti && d2.IntersectionArea(d1) == ti && IntersectionArea(d1, d2) == ti,
          "document-intersection", at);
    CHECK(d1.UnionArea(d2) == tu && d2.UnionArea(d1) == tu && UnionArea(d1, d2) == tu, "document-union", at);
    CHECK(d1.IntersectionArea(d3) == 0 && d3.IntersectionArea(d1) == 0 && IntersectionArea(d1, d3) == 0,
          "other-document-intersection", at);
    CHECK(d1.UnionArea(d3) == (T)(ta + tb) && UnionArea(d3, d1) == (T)(ta + tb), "other-document-union", at);
    CHECK(d1.Area() == ta, "document-area", at);
    const EV e1("q", d1), e2("other", d2), e3("q", d3);
    const SE s1("q", d1, 0.5f), s2("q", d2, -1.0f);
    CHECK(e1.Area() == ta && s2.Area() == tb, "event-area", at);
    CHECK(IntersectionArea(e1, e2) == ti && IntersectionArea(e1, s2) == ti && IntersectionArea(s2, e1) == ti &&
              IntersectionArea(s1, s2) == ti, "event-intersection", at);
    CHECK(UnionArea(e1, e2) == tu && UnionArea(e1, s2) == tu && UnionArea(s1, s2) == tu, "event-union", at);
    CHECK(IntersectionArea(e1, e3) == 0 && UnionArea(e1, e3) == (T)(ta + tb), "event-other-document", at);
    const EB b1(1, p), b2(2, q);
    CHECK(b1.Area() == ta && IntersectionArea(b1, b2) == ti && UnionArea(b2, b1) == tu, "plain-box-event", at);
    m.count("event_pairs");
  }

  static void grid(Rng &r, Mon &m, const std::string &ty) {
    // one box against all placements of another on a small grid, shifted anywhere in the range
    static const double units[] = {1, 0.5, 4, 1.0 / (1 << 20), 1.0 / (1 << 30), 1.0 / (1ll << 55), (double)(1 << 30), (double)(1ll << 58)};
    const double unit = std::numeric_limits<T>::is_integer ? 1 : units[r.below(8)];
    Big sx = 0, sy = 0;
    if (r.chance(50)) {
      sx = r.chance(50) ? Ty<T>::hi() - 9 : Ty<T>::lo();     // (8-bit areas fit: at most 4 x 4 twice)
      sy = r.chance(50) ? Ty<T>::hi() - 9 : Ty<T>::lo();
    }
    B a = {sx + (Big)r.below(5), sy + (Big)r.below(5), (Big)r.below(5), (Big)r.below(5)};
    const bool ev = r.chance(8);
    for (int k = 0; k < 625; ++k) {
      const B b = {sx + k % 5, sy + k / 5 % 5, k / 25 % 5, k / 125};
      check(m, a, b, unit, ty, true, ev);
    }
    m.id(ty); m.id((uint64_t)(a.x - sx)); m.id((uint64_t)(a.y - sy)); m.id((uint64_t)a.w); m.id((uint64_t)a.h);
    m.id((uint64_t)sx); m.id((uint64_t)sy);
  }

  static void wide(Rng &r, Mon &m, const std::string &ty) {
    for (int tries = 0; tries < 40; ++tries) {
      B v[2];
      const Big hi = Ty<T>::hi(), lo = Ty<T>::lo(), span = hi - lo;
      for (auto &b : v) {
        const int kind = r.below(5);
        auto rnd = [&](Big n) -> Big { return n <= 0 ? (Big)0 : (Big)(((((unsigned __int128)r.next()) << 64) | r.next()) % ((unsigned __int128)n + 1)); };
        // log-uniform sizes
        const int bits = sizeof(T) * 8 - 1;
        b.w = rnd(((Big)1 << r.below(bits)));
        const Big cap = Ty<T>::area();
        Big maxh = b.w > 0 ? cap / b.w : cap;
        b.h = std::min(maxh, rnd((Big)1 << r.below(bits)));
        if (kind == 0) { b.w = maxh ? cap / std::max<Big>(1, maxh) : 0; b.h = maxh; }
        b.w = std::min(b.w, span); b.h = std::min(b.h, span);
        if (b.w * b.h > cap) b.h = b.w ? cap / b.w : b.h;
        b.x = kind == 1 ? hi - b.w : kind == 2 ? lo : lo + rnd(span - b.w);
        b.y = kind == 1 ? hi - b.h : kind == 2 ? lo : lo + rnd(span - b.h);
      }
      if (r.chance(60)) {   // place the second one on the first
        auto mid = [&](Big p, Big s) -> Big { return p + (s > 0 ? (Big)(r.next() % (uint64_t)std::min<Big>(s, (Big)1 << 62)) : 0); };
        v[1].x = std::min(mid(v[0].x, v[0].w), hi - v[1].w);
        v[1].y = std::min(mid(v[0].y, v[0].h), hi - v[1].h);
      }
      check(m, v[0], v[1], 1, ty, false, tries < 4);
      // the same pair moved
      B u[2] = {v[0], v[1]};
      const Big right = hi - std::max(v[0].x + v[0].w, v[1].x + v[1].w), left = std::min(v[0].x, v[1].x) - lo;
      const Big dx = r.chance(50) ? right : -left;
      u[0].x += dx; u[1].x += dx;
      check(m, u[0], u[1], 1, ty, false, false);
      m.id((uint64_t)v[0].w); m.id((uint64_t)v[1].h);
    }
    m.id(ty);
  }
};

static void one(Rng &r, Mon &m) {
  const bool g = r.chance(40);
  switch (r.below(10)) {
    case 8: r.chance(50) ? (g ? Pair<int8_t>::grid(r, m, "int8") : Pair<int8_t>::wide(r, m, "int8"))
                         : (g ? Pair<uint8_t>::grid(r, m, "uint8") : Pair<uint8_t>::wide(r, m, "uint8")); break;
    case 0: g ? Pair<uint32_t>::grid(r, m, "uint32") : Pair<uint32_t>::wide(r, m, "uint32"); break;
    case 1: g ? Pair<int32_t>::grid(r, m, "int32") : Pair<int32_t>::wide(r, m, "int32"); break;
    case 2: g ? Pair<int64_t>::grid(r, m, "int64") : Pair<int64_t>::wide(r, m, "int64"); break;
    case 3: g ? Pair<uint64_t>::grid(r, m, "uint64") : Pair<uint64_t>::wide(r, m, "uint64"); break;
    case 4: g ? Pair<float>::grid(r, m, "float") : Pair<float>::wide(r, m, "float"); break;
    case 5: g ? Pair<double>::grid(r, m, "double") : Pair<double>::wide(r, m, "double"); break;
    case 6: g ? Pair<int16_t>::grid(r, m, "int16") : Pair<int16_t>::wide(r, m, "int16"); break;
    case 7: g ? Pair<uint16_t>::grid(r, m, "uint16") : Pair<uint16_t>::wide(r, m, "uint16"); break;
    default: g ? Pair<uint32_t>::grid(r, m, "uint32") : Pair<uint32_t>::wide(r, m, "uint32"); break;
  }
  if (m.wants_sample()) {
    DocBox a = gen_box(r, 2, 2), b = gen_box(r, 2, 2);
    m.sample(str("e.g. ", a, " and ", b, ": intersection ", a.IntersectionArea(b), ", union ", a.UnionArea(b)));
  }
}

int main(int argc, char **argv) { return run(argc, argv, one); }
