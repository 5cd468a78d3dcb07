// C19: matches under copies, assignments and moves, with counted contents; error counts under addition.
#include "errs.h"
#include "core/Match.h"
using namespace mon;
using namespace kws::core;

// Contents whose live instances are counted.
static int64_t live = 0;
struct Tag {
  int v;
  std::unique_ptr<int> canary;
  Tag(int x = 0) : v(x), canary(new int(x)) { ++live; }
  Tag(const Tag &o) : v(o.v), canary(new int(*o.canary)) { ++live; }
  Tag &operator=(const Tag &o) { v = o.v; canary.reset(new int(*o.canary)); return *this; }
  ~Tag() { --live; }
  bool operator==(const Tag &o) const { return v == o.v && *canary == *o.canary; }
  bool operator!=(const Tag &o) const { return !(*this == o); }
  bool operator<(const Tag &o) const { return v < o.v; }
};
static std::ostream &operator<<(std::ostream &o, const Tag &t) { return o << t.v; }
typedef Event<Tag, Tag> TRef;
typedef ScoredEvent<TRef> THyp;
typedef Match<TRef, THyp> TMatch;

struct Want { bool hr, hh; int rq, rl, hq, hl; float s, fp, fn; };
static bool is(const TMatch &m, const Want &w) {
  if (m.GetError().FP() != w.fp || m.GetError().FN() != w.fn || m.HasRef() != w.hr || m.HasHyp() != w.hh) return false;
  if (w.hr && (m.GetRef().Query().v != w.rq || m.GetRef().Location().v != w.rl || *m.GetRef().Query().canary != w.rq)) return false;
  if (w.hh && (m.GetHyp().Query().v != w.hq || m.GetHyp().Location().v != w.hl || m.GetHyp().Score() != w.s || *m.GetHyp().Location().canary != w.hl)) return false;
  return true;
}
static std::string show(const Want &w) {
  return str("ref ", w.hr ? str(w.rq, ",", w.rl) : "-", " hyp ", w.hh ? str(w.hq, ",", w.hl, ",", w.s) : "-", " fp ", w.fp, " fn ", w.fn);
}

static void matches(Rng &r, Mon &m) {
  const int64_t live0 = live;
  {
    std::vector<std::unique_ptr<TMatch>> v;
    std::vector<Want> w;
    std::string hist;
    static const float fr[] = {0.0f, 1.0f, 0.5f, 0.25f};
    auto fresh_want = [&]() {
      return Want{r.chance(60), r.chance(60), (int)r.below(9), (int)r.below(9), (int)r.below(9), (int)r.below(9), (float)r.below(5), fr[r.below(4)], fr[r.below(4)]};
    };
    auto check_all = [&](const char *what) {
      int64_t tags = 0;
      for (size_t i = 0; i < v.size(); ++i) {
        CHECK(is(*v[i], w[i]), what, "match ", i, " want ", show(w[i]), " after ", hist);
        tags += (w[i].hr ? 2 : 0) + (w[i].hh ? 2 : 0);
      }
      CHECK(live - live0 == tags, "live-objects", live - live0, " want ", tags, " after ", hist);
    };
    const int steps = 3 + r.below(40);
    uint64_t effective = 0;
    for (int i = 0; i < steps; ++i) {
      const unsigned t = r.below(100);
      if (v.empty() || (t < 20 && v.size() < 8)) {
        Want x = fresh_want();
        const unsigned how = r.below(5);
        if (how == 0) { v.emplace_back(new TMatch()); x = Want{false, false, 0, 0, 0, 0, 0, 0, 0}; hist += " new()"; }
        else if (how == 1) { x.hr = x.hh = true; v.emplace_back(new TMatch(TRef(x.rq, x.rl), THyp(x.hq, x.hl, x.s), MatchError(x.fp, x.fn))); hist += " new(ref,hyp)"; }
        else if (how == 2) { x.hr = false; x.hh = true; x.fp = 1; x.fn = 0; v.emplace_back(new TMatch(TMatch::MakeFalsePositive(THyp(x.hq, x.hl, x.s)))); hist += " false-positive"; }
        else if (how == 3) { x.hr = true; x.hh = false; x.fp = 0; x.fn = 1; v.emplace_back(new TMatch(TMatch::MakeFalseNegative(TRef(x.rq, x.rl)))); hist += " missed"; }
        else { v.emplace_back(new TMatch(x.fp, x.fn)); if (x.hr) v.back()->SetRef(TRef(x.rq, x.rl)); if (x.hh) v.back()->SetHyp(THyp(x.hq, x.hl, x.s)); hist += " new(fp,fn)"; }
        w.push_back(x);
        check_all("construction");
      } else if (t < 32 && v.size() < 8) {
        const size_t a = r.below(v.size());
        v.emplace_back(new TMatch(*v[a])); { const Want c = w[a]; w.push_back(c); }
        hist += str(" copy(", a, ")"); ++effective;
        check_all("copy");
        CHECK(*v.back() == *v[a] && !(*v.back() != *v[a]), "copy-equal", hist);
      } else if (t < 55) {
        const size_t a = r.below(v.size()), b = r.chance(25) ? a : r.below(v.size());
        TMatch &dst = *v[a];
        TMatch &ret = (dst = *v[b]);
        w[a] = w[b];
        hist += str(" ", a, "=", b); ++effective;
        CHECK(&ret == &dst, "assignment-result", hist);
        check_all(a == b ? "self-assignment" : "assignment");
        CHECK(*v[a] == *v[b], "assignment-equal", hist);
        m.count(a == b ? "self_assignments" : "assignments");
      } else if (t < 68 && v.size() > 1) {
        const size_t a = r.below(v.size());
        size_t b = r.below(v.size());
        if (a == b) b = (b + 1) % v.size();
        *v[a] = std::move(*v[b]);
        w[a] = w[b];
        hist += str(" ", a, "=move(", b, ")"); ++effective;
        v.erase(v.begin() + b); w.erase(w.begin() + b);         // what is left of the source is not specified
        check_all("move-assignment");
        m.count("moves");
      } else if (t < 72 && v.size() > 1) {
        const size_t a = r.below(v.size());
        hist += str(" move-construct(", a, ")");
        {
          TMatch x(std::move(*v[a]));
          CHECK(is(x, w[a]), "move-construction", show(w[a]), " after ", hist);
          *v[a] = x;
        }
        check_all("assign-after-move");
      } else if (t < 80) {
        const size_t a = r.below(v.size());
        if (r.chance(35)) { w[a].hr = true; w[a].rq = r.below(9); w[a].rl = r.below(9); v[a]->SetRef(TRef(w[a].rq, w[a].rl)); }
        else if (r.chance(50)) { w[a].hh = true; w[a].hq = r.below(9); w[a].hl = r.below(9); w[a].s = (float)r.below(5); v[a]->SetHyp(THyp(w[a].hq, w[a].hl, w[a].s)); }
        else { w[a].fp = fr[r.below(4)]; w[a].fn = fr[r.below(4)]; v[a]->SetError(MatchError(w[a].fp, w[a].fn)); }
        hist += str(" set(", a, ")"); ++effective;
        check_all("set");                                       // and no other changed
      } else if (t < 86 && v.size() > 1) {
        const size_t a = r.below(v.size());
        v.erase(v.begin() + a); w.erase(w.begin() + a);
        hist += str(" destroy(", a, ")");
        check_all("destruction");
      } else if (t < 92) {
        // in and out of a vector that grows, shrinks and is sorted
        std::vector<TMatch> u;
        for (auto &x : v) u.push_back(*x);
        u.insert(u.begin(), u.back());
        u.erase(u.begin() + (u.size() > 1 ? 1 : 0));
        std::reverse(u.begin(), u.end());
        std::vector<TMatch> u2 = u;
        u.clear();
        hist += " vector";
        CHECK(u2.size() == v.size(), "vector-size", hist);
        CHECK(is(u2[0], w[v.size() - 1]) || v.size() == 1, "vector", hist);
        u2.clear();
        check_all("vector-round-trip");
        m.count("vectors");
      } else {
        const size_t a = r.below(v.size()), b = r.below(v.size());
        if (a != b) { std::swap(*v[a], *v[b]); std::swap(w[a], w[b]); hist += str(" swap(", a, ",", b, ")"); check_all("swap"); }
      }
    }
    m.id(hist);
    for (auto &x : w) m.id(show(x));
    m.count("steps", steps);
    if (effective > 2) m.nontrivial();
    if (m.wants_sample()) m.sample(hist);
  }
  CHECK(live == live0, "leaked-objects", live - live0);
}

static void counts(Rng &r, Mon &m) {
  // One error: how many of each it stands for.
  const double fp = frac(r), fn = frac(r);
  struct { double fp, fn; size_t nh, nr; const char *what; } one[] = {
    {0, 0, 1, 1, "accepted pair"}, {1, 0, 1, 0, "false positive"}, {0, 1, 0, 1, "missed"}, {fp, fn, 1, 1, "partial pair"}};
  for (auto &x : one) {
    const MatchError e((float)x.fp, (float)x.fn);
    CHECK(e.NH() == x.nh && e.NR() == x.nr, "counts-of-error", x.what, " ", x.fp, " ", x.fn, " nh ", e.NH(), " nr ", e.NR());
    const MatchErrorCounts c(e);
    CHECK(c.FP() == e.FP() && c.FN() == e.FN() && c.NH() == x.nh && c.NR() == x.nr, "counts-from-error", x.what, " ", x.fp, " ", x.fn);
  }
  // Sums, in two orders and two ways.
  const bool large = r.below(400) == 0;
  const auto v = gen_entries(r, large || r.chance(50), r.below(6), large ? large_size(r) : r.below(30));
  if (large) m.count("large_sums");
  std::vector<Ent> p = v;
  for (size_t i = p.size(); i > 1; --i) std::swap(p[i - 1], p[r.below(i)]);
  Ent s{0, 0, 0, 0};
  for (auto &e : v) { s.fp += e.fp; s.fn += e.fn; s.nh += e.nh; s.nr += e.nr; }
  MatchErrorCounts a, b;
  CHECK(a.FP() == 0 && a.FN() == 0 && a.NH() == 0 && a.NR() == 0, "zero", a);
  for (auto &e : v) a += to_error(e, (const MatchError *)nullptr);
  for (auto &e : p) {
    const MatchErrorCounts c(to_error(e, (const MatchError *)nullptr)), k = b;
    const MatchErrorCounts t = r.chance(50) ? b + c : c + b;
    CHECK(b == k && c.NH() == e.nh && c.NR() == e.nr, "operand-changed", c);
    b = t;
  }
  const std::string at = show(v);
  auto ok = [&](const MatchErrorCounts &x) { return near(x.FP(), s.fp, 1e-6, 1e-9) && near(x.FN(), s.fn, 1e-6, 1e-9) && x.NH() == s.nh && x.NR() == s.nr; };
  CHECK(ok(a), "sum", a, " want ", s.fp, " ", s.fn, " ", s.nh, " ", s.nr, " of ", at);
  CHECK(ok(b), "sum-plus", b, " want ", s.fp, " ", s.fn, " ", s.nh, " ", s.nr, " of ", at);
  // Counts added to counts.
  MatchErrorCounts c = a;
  c += b;
  CHECK(near(c.FP(), 2 * s.fp, 1e-6, 1e-9) && near(c.FN(), 2 * s.fn, 1e-6, 1e-9) && c.NH() == 2 * s.nh && c.NR() == 2 * s.nr, "sum-of-counts", c, " of twice ", at);
  c = a;
  c += c;
  CHECK(c.NH() == 2 * s.nh && c.NR() == 2 * s.nr && near(c.FP(), 2 * s.fp, 1e-6, 1e-9), "sum-with-itself", c, " of twice ", at);
  // Numbers that no narrow type holds: all exact, as powers of two times small ones.
  std::vector<Ent> big = gen_counts(r, true, r.below(6), r.below(8));
  scale(&big, r.below(41));
  Ent t{0, 0, 0, 0};
  MatchErrorCounts d, back;
  for (auto &e : big) {
    const MatchErrorCounts k = to_error(e, (const MatchErrorCounts *)nullptr);
    CHECK(k.NH() == e.nh && k.NR() == e.nr && k.FP() == (float)e.fp && k.FN() == (float)e.fn, "big-counts", k, " want ", e.fp, " ", e.fn, " ", e.nh, " ", e.nr);
    d += k;
    t.fp += e.fp; t.fn += e.fn; t.nh += e.nh; t.nr += e.nr;
  }
  for (size_t i = big.size(); i > 0; --i) back = back + to_error(big[i - 1], (const MatchErrorCounts *)nullptr);
  for (const MatchErrorCounts *x : {&d, &back})
    CHECK(near(x->FP(), t.fp, 1e-6, 0) && near(x->FN(), t.fn, 1e-6, 0) && x->NH() == t.nh && x->NR() == t.nr, "big-sum", *x, " want ", t.fp, " ", t.fn, " ", t.nh, " ", t.nr, " of ", show(big));
  // Single errors of every kind added to totals of every size, by either operator and from either side.
  const std::vector<Ent> few = gen_entries(r, false, r.below(6), 1 + r.below(12));
  auto size = [&r] { return r.chance(50) ? frac(r) * 8 : frac(r) + (double)(1ull << r.below(36)) - (double)r.below(2); };
  Ent w{size(), size(), r.chance(50) ? r.below(5000) : (uint64_t)large_size(r), r.chance(50) ? r.below(5000) : (uint64_t)large_size(r)};
  MatchErrorCounts total = MatchErrorCounts(w.fp, w.fn, w.nh, w.nr);
  for (auto &e : few) {
    const MatchError x = to_error(e, (const MatchError *)nullptr);
    const Ent old = w;
    switch (r.below(4)) {
      case 0: total += x; break;
      case 1: total = total + MatchErrorCounts(x); break;
      case 2: total = MatchErrorCounts(x) + total; break;
      default: { MatchErrorCounts y(x); y += total; total = y; }
    }
    w.fp += e.fp; w.fn += e.fn; w.nh += e.nh; w.nr += e.nr;
    CHECK(near(total.FP(), w.fp, 1e-12, 1e-12) && near(total.FN(), w.fn, 1e-12, 1e-12) && total.NH() == w.nh && total.NR() == w.nr, "running-total",
          total, " want ", w.fp, " ", w.fn, " ", w.nh, " ", w.nr, " after adding ", show(std::vector<Ent>(1, e)), " to ", show(std::vector<Ent>(1, old)));
    m.count("running_totals");
  }
  if (v.size() > 2) m.nontrivial();
  m.id("counts"); m.id(show(few)); m.id(at); m.id(show(big));
  m.count("sums");
}

static void one(Rng &r, Mon &m) { if (r.chance(70)) matches(r, m); else counts(r, m); }
int main(int argc, char **argv) { return run(argc, argv, one); }
