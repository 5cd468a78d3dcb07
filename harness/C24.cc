// C24: boxes and events print and read back unchanged; incomplete or wrong text fails.
#include "ev.h"
using namespace mon;
using namespace kws::core;

template <class T> T coordinate(Rng &r) {
  switch (r.below(6)) {
    case 0: return 0;
    case 1: return std::numeric_limits<T>::max() - (T)r.below(3);
    case 2: return std::numeric_limits<T>::lowest() + (T)r.below(3);
    case 3: return (T)r.next();
    case 4: return (T)(r.next() >> r.below(63));
    default: return (T)r.below(2000);
  }
}
// At most six significant digits.
static double short_real(Rng &r, int maxexp) {
  static const double few[] = {0, 1, 0.5, 0.1, 999999, 0.000123456, 1e6, 123456e10, 1e-5, 0.99999, 0.333333};
  if (r.chance(30)) return (r.chance(50) ? -1 : 1) * few[r.below(11)];
  return strtod(str(r.chance(50) ? "-" : "", r.below(1000000), "e", (int)r.in(-maxexp, maxexp)).c_str(), 0);
}
template <> float coordinate<float>(Rng &r) { return (float)short_real(r, 25); }
template <> double coordinate<double>(Rng &r) { return short_real(r, 200); }

static std::string word(Rng &r) {
  static const std::vector<std::string> v = {"a", "#", "1", "-1", "1.5", "word", "\xc3\xa9", "a#b", "\"x\"", "nan", "a,b", "--", "0x1", "\xff\x01", "1e5",
                                             "a-name-longer-than-what-small-strings-hold"};
  if (r.chance(3)) return std::string((1u << r.in(4, 16)) - 2 + r.below(5), 'a' + (char)r.below(26));   // as long as buffers get
  return r.chance(60) ? r.pick(v) : str("q", r.below(1000));
}
template <class T> BoundingBox<T> make(Rng &r, const BoundingBox<T> *) { return BoundingBox<T>(coordinate<T>(r), coordinate<T>(r), coordinate<T>(r), coordinate<T>(r)); }
template <class T> DocumentBoundingBox<T> make(Rng &r, const DocumentBoundingBox<T> *) {
  const std::string w = word(r);
  const auto b = make(r, (BoundingBox<T> *)0);
  return DocumentBoundingBox<T>(w, b.x, b.y, b.w, b.h);
}
static std::string make(Rng &r, const std::string *) { return word(r); }
static int32_t make(Rng &r, const int32_t *) { return coordinate<int32_t>(r); }
static uint64_t make(Rng &r, const uint64_t *) { return coordinate<uint64_t>(r); }
template <class Q, class L> Event<Q, L> make(Rng &r, const Event<Q, L> *) { const Q q = make(r, (Q *)0); return Event<Q, L>(q, make(r, (L *)0)); }
template <class Q, class L> ShapedEvent<Q, L> make(Rng &r, const ShapedEvent<Q, L> *) { const Q q = make(r, (Q *)0); return ShapedEvent<Q, L>(q, make(r, (L *)0)); }
template <class E> ScoredEvent<E> make(Rng &r, const ScoredEvent<E> *) { const E e = make(r, (E *)0); return ScoredEvent<E>(e, (float)short_real(r, 25)); }

// The contents, independent of the operators under test.
template <class T> std::string fields(const T &v) { return str(v); }
static std::string fields(const std::string &v) { return v; }
template <class T> std::string fields(const BoundingBox<T> &b) { return str(+b.x, " ", +b.y, " ", +b.w, " ", +b.h); }
template <class T> std::string fields(const DocumentBoundingBox<T> &b) { return b.document + " " + str(+b.x, " ", +b.y, " ", +b.w, " ", +b.h); }
template <class Q, class L> std::string fields(const Event<Q, L> &e) { return fields(e.Query()) + " " + fields(e.Location()); }
template <class Q, class L> std::string fields(const ShapedEvent<Q, L> &e) { return fields(e.Query()) + " " + fields(e.Location()); }
template <class E> std::string fields(const ScoredEvent<E> &e) { return fields(static_cast<const E &>(e)) + " " + str(e.Score()); }

// Which fields hold numbers ('i' integer, 'r' real) and words.
template <class T> std::string kinds(const BoundingBox<T> *) { return std::string(4, std::numeric_limits<T>::is_integer ? 'i' : 'r'); }
template <class T> std::string kinds(const DocumentBoundingBox<T> *) { return "w" + kinds((BoundingBox<T> *)0); }
static std::string kinds(const std::string *) { return "w"; }
static std::string kinds(const int32_t *) { return "i"; }
static std::string kinds(const uint64_t *) { return "i"; }
template <class Q, class L> std::string kinds(const Event<Q, L> *) { return kinds((Q *)0) + kinds((L *)0); }
template <class Q, class L> std::string kinds(const ShapedEvent<Q, L> *) { return kinds((Q *)0) + kinds((L *)0); }
template <class E> std::string kinds(const ScoredEvent<E> *) { return kinds((E *)0) + "r"; }

static std::string blank(Rng &r) {
  static const std::vector<std::string> v = {" ", "\n", "\t", "  ", " \n", "\r\n", "\n\n", "\v", "\f "};
  return r.chance(50) ? "\n" : r.pick(v);
}
static std::vector<std::string> split(const std::string &s) { std::istringstream i(s); std::vector<std::string> o; std::string w; while (i >> w) o.push_back(w); return o; }

template <class V> void judge(Rng &r, Mon &m, const char *what) {
  const std::string kind = kinds((V *)0);
  // Several values in one stream.
  std::vector<V> v;
  std::ostringstream os;
  std::string lead = r.chance(30) ? blank(r) : "", at = str(what, ":");
  os << lead;
  const size_t n = 1 + r.below(4);
  std::vector<std::string> seps;
  for (size_t i = 0; i < n; ++i) {
    v.push_back(make(r, (V *)0));
    const std::string f = fields(v[i]);
    at += " [" + f + "]";
    os << v[i];
    CHECK((bool)os, "print-failed", at);
    CHECK(fields(v[i]) == f, "print-modified", at);
    seps.push_back(i + 1 < n || r.chance(50) ? blank(r) : "");
    os << seps.back();
  }
  const std::string text = os.str(), tail = r.chance(30) && !seps.back().empty() ? "rest of it" : "";
  {
    // The fields printed are the value's, in order.
    size_t at_field = 0;
    const auto words = split(text);
    CHECK(words.size() == n * kind.size(), "print-fields", "'", text, "' of ", at);
    for (size_t i = 0; i < n; ++i) {
      const auto f = split(fields(v[i]));
      for (size_t k = 0; k < f.size(); ++k, ++at_field)
        if (kind[k] == 'r') CHECK(near(strtod(words[at_field].c_str(), 0), strtod(f[k].c_str(), 0), 1e-6, 0), "print-field", words[at_field], " want ", f[k], " of ", at);
        else CHECK(words[at_field] == f[k], "print-field", words[at_field], " want ", f[k], " of ", at);
    }
  }
  std::istringstream is(text + tail);
  V back = make(r, (V *)0);
  size_t expect = lead.size();
  for (size_t i = 0; i < n; ++i) {
    if (r.chance(50)) back = make(r, (V *)0);      // into whatever it held
    is >> back;
    CHECK(!is.fail(), "read-failed", "value ", i, " of '", text, "'");
    CHECK(back == v[i] && !(back != v[i]) && fields(back) == fields(v[i]), "read-back", "value ", i, " ", fields(back), " of '", text, "'");
    // Nothing of what follows was taken.
    std::ostringstream one;
    one << v[i];
    expect += one.str().size();
    const std::streamoff pos = is.eof() ? (std::streamoff)(text + tail).size() : (std::streamoff)is.tellg();
    CHECK(pos == (std::streamoff)expect, "consumed", "after value ", i, " at ", pos, " want ", expect, " of '", text, tail, "'");
    expect += seps[i].size();
  }
  if (!tail.empty()) {
    std::string w;
    std::getline(is >> std::ws, w);
    CHECK(w == tail, "rest", "'", w, "' of '", text, tail, "'");
  } else {
    V more;
    is >> more;
    CHECK(is.fail(), "read-beyond-end", "'", text, "'");
  }
  m.count(str(what, ".values"), n);
  m.id(text); m.id(what);
  m.nontrivial();
  if (m.wants_sample()) m.sample(at);

  // The same fields with any blanks between them, as a file may have.
  std::string loose = r.chance(30) ? blank(r) : "", after = r.chance(50) ? blank(r) + "next" : "";
  const auto fs = split([&] { std::ostringstream o; o << v[0]; return o.str(); }());
  for (size_t k = 0; k < fs.size(); ++k) loose += (k ? blank(r) + (r.chance(20) ? blank(r) : "") : "") + fs[k];
  std::istringstream il(loose + after);
  V free = make(r, (V *)0);
  il >> free;
  CHECK(!il.fail(), "loose-read-failed", "'", loose, "'");
  CHECK(fields(free) == fields(v[0]), "loose-read-back", fields(free), " of '", loose, "'");
  const std::streamoff lp = il.eof() ? (std::streamoff)(loose + after).size() : (std::streamoff)il.tellg();
  CHECK(lp == (std::streamoff)loose.size(), "loose-consumed", "at ", lp, " of '", loose, after, "'");

  // Text that lacks a field, or has something else where a number has to be.
  auto w = split([&] { std::ostringstream o; o << v[0]; return o.str(); }());
  std::string why;
  if (r.chance(40) || kind.find_first_not_of('w') == std::string::npos) {
    const size_t keep = r.below(w.size());
    w.resize(keep);
    why = str("only ", keep, " fields");
  } else {
    std::vector<size_t> num;
    for (size_t k = 0; k < kind.size(); ++k) if (kind[k] != 'w') num.push_back(k);
    const size_t k = r.pick(num);
    static const std::vector<std::string> junk = {"x", "abc", "-", "+", ".", "e5", "\xc3\xa9", "#", "--1", "nan", "inf", "NULL", ",", "'1'", "$1"};
    static const std::vector<std::string> tails = {"x", ",", ";", "#", ")", ":", "px", "_", "'", "%", "\xc2\xa0", "\xff", "/2"};
    static const std::vector<std::string> ints = {"99999999999999999999999", "x1", "18446744073709551616"};
    w[k] = r.chance(80) ? r.pick(junk) : kind[k] == 'i' ? r.pick(ints) : std::string("1e99999");
    const size_t box = std::min(kind.find("iiii"), kind.find("rrrr"));
    if (r.chance(30) && box != std::string::npos && k >= box && k < box + 4) w[k] = fs[k] + r.pick(tails);   // a coordinate ends with its digits
    why = str("field ", k, " is ", w[k]);
  }
  std::string bad = r.chance(20) ? blank(r) : "";
  for (auto &x : w) bad += x + blank(r);
  std::istringstream ib(bad);
  V got = make(r, (V *)0);
  ib >> got;
  CHECK(ib.fail(), "bad-accepted", what, " ", why, " '", bad, "' read as ", fields(got));
  m.count("refused_texts");
}

static void one(Rng &r, Mon &m) {
  typedef ShapedEvent<std::string, DocumentBoundingBox<uint32_t>> SE;
  switch (r.below(20)) {
    case 0: judge<BoundingBox<int32_t>>(r, m, "box<int32>"); break;
    case 1: judge<BoundingBox<uint32_t>>(r, m, "box<uint32>"); break;
    case 2: judge<BoundingBox<int64_t>>(r, m, "box<int64>"); break;
    case 3: judge<BoundingBox<uint64_t>>(r, m, "box<uint64>"); break;
    case 4: judge<BoundingBox<float>>(r, m, "box<float>"); break;
    case 5: judge<BoundingBox<double>>(r, m, "box<double>"); break;
    case 6: judge<BoundingBox<int16_t>>(r, m, "box<int16>"); break;
    case 7: judge<DocumentBoundingBox<uint32_t>>(r, m, "docbox<uint32>"); break;
    case 8: judge<DocumentBoundingBox<int64_t>>(r, m, "docbox<int64>"); break;
    case 9: judge<DocumentBoundingBox<double>>(r, m, "docbox<double>"); break;
    case 10: judge<Event<std::string, std::string>>(r, m, "event<words>"); break;
    case 11: judge<Event<int32_t, uint64_t>>(r, m, "event<numbers>"); break;
    case 12: judge<Event<std::string, DocumentBoundingBox<int32_t>>>(r, m, "event<docbox>"); break;
    case 13: judge<SE>(r, m, "shaped"); break;
    case 14: judge<ScoredEvent<SE>>(r, m, "scored-shaped"); break;
    case 15: judge<ScoredEvent<Event<std::string, std::string>>>(r, m, "scored<words>"); break;
    case 16: judge<BoundingBox<int8_t>>(r, m, "box<int8>"); break;
    case 17: judge<DocumentBoundingBox<uint8_t>>(r, m, "docbox<uint8>"); break;
    case 18: judge<ScoredEvent<ShapedEvent<std::string, DocumentBoundingBox<int16_t>>>>(r, m, "scored-shaped<int16>"); break;
    default: judge<ScoredEvent<Event<int32_t, int32_t>>>(r, m, "scored<numbers>");
  }
}
int main(int argc, char **argv) { return run(argc, argv, one); }
