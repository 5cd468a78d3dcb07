// C22: grouping, sorting and collapsing of matches conserve them; pooled and mean statistics over groups.
#include "errs.h"
#include "core/Statistic.h"
using namespace mon;
using namespace kws::core;

typedef std::vector<std::vector<IntMatch>> Groups;

static std::string show_map(const std::map<int, int> &g) {
  std::string o = "{";
  for (auto &kv : g) if (o.size() < 2000) o += str(kv.first, "->", kv.second, " ");
  return o + "}";
}
static std::vector<std::vector<Item>> model_groups(const std::vector<Item> &v, const std::map<int, int> &q2g) {
  std::vector<std::vector<Item>> o;
  std::map<int, size_t> names;
  for (auto &x : v) {
    const auto it = q2g.find(x.q);
    const int g = it == q2g.end() ? x.q : it->second;
    const size_t pos = names.emplace(g, names.size()).first->second;
    if (pos == o.size()) o.emplace_back();
    o[pos].push_back(x);
  }
  return o;
}
static std::vector<IntMatch> matches_of(const std::vector<Item> &v) { return to_matches(v); }
static Groups groups_of(const std::vector<std::vector<Item>> &v) { Groups o; for (auto &g : v) o.push_back(to_matches(g)); return o; }
static std::string show_groups(const Groups &g) {
  std::string o;
  for (auto &x : g) { if (o.size() > 2000) break; o += "("; for (auto &m : x) o += show_match(m) + " "; o += ")"; }
  return o.substr(0, 2000);
}
static double ap(const std::vector<Ent> &e, bool interp, bool trap) {
  std::vector<double> pr, rc;
  model_curve(e, interp, &pr, &rc);
  return model_ap(pr, rc, trap);
}
static std::vector<Item> by_score(std::vector<Item> v) {
  std::stable_sort(v.begin(), v.end(), [](const Item &a, const Item &b) {
    return (a.e.nh > 0) != (b.e.nh > 0) ? a.e.nh > 0 : a.e.nh && a.score > b.score; });
  return v;
}
static bool distinct_scores(const std::vector<Item> &v) {
  std::set<float> s;
  for (auto &x : v) if (x.e.nh && !s.insert(x.score).second) return false;
  return true;
}

// ---- grouping: with queries of words, too
static void group(Rng &r, Mon &m) {
  const bool large = r.below(500) == 0;
  if (large) m.count("large_groupings");
  const int nq = 1 + r.below(large ? (r.chance(50) ? 100000 : 700) : r.chance(10) ? 300 : 7);
  const std::vector<Item> v = gen_items(r, r.chance(50), large ? large_size(r) : r.below(r.chance(10) ? 400 : 25), nq, r.below(kTies), r.chance(50));
  std::map<int, int> q2g;
  const int style = r.below(5);
  for (int q = 0; q < nq; ++q)
    switch (style) {
      case 0: break;                                                        // no groups
      case 1: q2g[q] = q; break;
      case 2: q2g[q] = (int)r.below(3); break;                              // groups called as some query
      case 3: if (r.chance(60)) q2g[q] = 1000 + (int)r.below(3); break;
      default: if (r.chance(50)) q2g[q] = (int)r.below(nq) - 1; break;      // some without group, sharing names
    }
  const std::string at = show(v) + " groups " + show_map(q2g);
  const auto want = model_groups(v, q2g);
  const auto in = matches_of(v);
  const auto keep = in;
  Groups got(r.below(3), std::vector<IntMatch>(r.below(3)));
  std::unordered_map<int, int> u(q2g.begin(), q2g.end());
  if (r.chance(50)) GroupMatchesByQueryGroup(in, q2g, &got);
  else GroupMatchesByQueryGroup(in, u, &got);
  CHECK(same_matches(in, keep), "group-input-modified", at);
  CHECK(same_groups(got, groups_of(want)), "groups", show_groups(got), " of ", at);

  // The same of named queries.
  typedef Event<std::string, int> SRef; typedef ScoredEvent<SRef> SHyp; typedef Match<SRef, SHyp> SMatch;
  auto nm = [](int q) { return q < 0 ? std::string("") : q % 3 ? str("query number ", q, " of all the queries") : str("q", q); };
  std::vector<SMatch> sin;
  for (auto &x : v) {
    SMatch s((float)x.e.fp, (float)x.e.fn);
    if (x.e.nh) s.SetHyp(SHyp(nm(x.q), x.id, x.score));
    if (x.e.nr) s.SetRef(SRef(nm(x.q), x.id));
    sin.push_back(s);
  }
  std::map<std::string, std::string> sg;
  for (auto &kv : q2g) sg[nm(kv.first)] = nm(kv.second);
  std::vector<std::vector<SMatch>> sgot;
  GroupMatchesByQueryGroup(sin, sg, &sgot);
  CHECK(sgot.size() == want.size(), "named-groups", sgot.size(), " groups of ", at);
  for (size_t i = 0; i < want.size(); ++i) {
    CHECK(sgot[i].size() == want[i].size(), "named-groups", "group ", i, " of ", at);
    for (size_t j = 0; j < want[i].size(); ++j) {
      const auto &s = sgot[i][j];
      const Item &x = want[i][j];
      CHECK((s.HasHyp() ? s.GetHyp().Location() : s.GetRef().Location()) == x.id && s.HasHyp() == (x.e.nh > 0) && s.HasRef() == (x.e.nr > 0) &&
            (s.HasHyp() ? s.GetHyp().Query() : s.GetRef().Query()) == nm(x.q), "named-groups", "group ", i, " entry ", j, " of ", at);
    }
  }
  m.count("grouped_matches", v.size()); m.count("groups", want.size());
  m.id(at); if (want.size() > 1 && want.size() < v.size()) m.nontrivial();
  if (m.wants_sample() && want.size() > 1 && v.size() < 8) m.sample(str(at, " -> ", want.size(), " groups"));
}

static void sort_and_collapse(Rng &r, Mon &m) {
  const bool large = r.below(500) == 0;
  if (large) m.count("large_sorts");
  std::vector<Item> v = gen_items(r, r.chance(50), large ? large_size(r) : r.below(r.chance(10) ? 400 : 25), 3, r.below(kTies), r.chance(30));
  for (size_t i = 0; i < v.size(); ++i) v[i].id = (int)i;
  const bool infinite = !large && r.chance(15);   // sorting takes any order of scores; collapsing, finite ones
  if (infinite) for (auto &x : v) if (x.e.nh && r.chance(40)) x.score = (r.chance(50) ? 1 : -1) * std::numeric_limits<float>::infinity();
  if (infinite) m.count("sorts_of_infinite_scores");
  const std::string at = show(v);
  auto s = matches_of(v);
  SortMatchesDecreasingScore(&s);
  CHECK(s.size() == v.size(), "sort-size", s.size(), " of ", at);
  std::vector<bool> seen(v.size(), false);
  std::vector<Item> order;
  for (size_t i = 0; i < s.size(); ++i) {
    const int id = s[i].HasHyp() ? s[i].GetHyp().Location() : s[i].HasRef() ? s[i].GetRef().Location() : -1;
    CHECK(id >= 0 && id < (int)v.size() && !seen[id], "sort-permutation", "entry ", i, " ", show_match(s[i]), " of ", at);
    seen[id] = true;
    CHECK(same_match(s[i], to_match(v[id])), "sort-changed", show_match(s[i]), " of ", at);
    order.push_back(v[id]);
    if (i) {
      const Item &a = order[i - 1], &b = order[i];
      CHECK(a.e.nh || !b.e.nh, "sort-misses-last", "entry ", i, " of ", at);
      CHECK(!a.e.nh || !b.e.nh || a.score >= b.score, "sort-order", "entry ", i, " of ", at);
    }
  }
  m.count("sorted_matches", v.size());
  if (infinite) { m.id(at); return; }
  // Collapsing, of the list as it is and of the sorted one.
  for (int k = 0; k < 2; ++k) {
    const std::vector<Item> &l = k ? order : v;
    const auto in = matches_of(l);
    const auto got = CollapseMatches(in);
    const auto want = collapse(l);
    CHECK(same_matches(in, matches_of(l)), "collapse-input-modified", show(l));
    CHECK(got.size() == want.size(), "collapse-entries", got.size(), " want ", want.size(), " of ", show(l));
    double fp = 0, fn = 0, wfp = 0, wfn = 0; uint64_t nh = 0, nr = 0, wnh = 0, wnr = 0;
    for (size_t i = 0; i < got.size(); ++i) {
      const MatchErrorCounts &g = got[i];
      CHECK(near(g.FP(), want[i].fp, 1e-9, 1e-9) && near(g.FN(), want[i].fn, 1e-9, 1e-9) && g.NH() == want[i].nh && g.NR() == want[i].nr,
            "collapse-entry", i, ": ", g.FP(), ",", g.FN(), ",", g.NH(), ",", g.NR(), " want ", show(want), " of ", show(l));
      fp += g.FP(); fn += g.FN(); nh += g.NH(); nr += g.NR();
    }
    for (auto &x : l) { wfp += x.e.fp; wfn += x.e.fn; wnh += x.e.nh; wnr += x.e.nr; }
    CHECK(near(fp, wfp, 1e-9, 1e-9) && near(fn, wfn, 1e-9, 1e-9) && nh == wnh && nr == wnr, "collapse-totals", show(l));
    if (got.size() < l.size() && got.size() > 1) m.nontrivial();
    m.count("collapsed_from", l.size()); m.count("collapsed_to", got.size());
    // The plain errors, one for each match.
    const auto errs = GetMatchErrors(in);
    CHECK(errs.size() == l.size(), "errors", errs.size());
    for (size_t i = 0; i < l.size(); ++i)
      CHECK(errs[i].FP() == (float)l[i].e.fp && errs[i].FN() == (float)l[i].e.fn && errs[i].NH() == l[i].e.nh && errs[i].NR() == l[i].e.nr, "error", i, " of ", show(l));
  }
  m.id(at);
}

static void statistics(Rng &r, Mon &m) {
  const bool crisp = r.chance(50), col = r.chance(50), interp = r.chance(50), trap = r.chance(50), sort = r.chance(60);
  std::vector<std::vector<Item>> g;
  std::vector<Item> all;
  const int ties = r.below(kTies);
  const bool many = r.below(500) == 0;
  if (many) m.count("statistics_of_many_groups");
  for (size_t k = many ? (r.chance(25) ? 65000 + r.below(3000) : large_size(r) / 2) : r.below(6), i = 0; i < k; ++i) {
    g.push_back(gen_items(r, crisp || many, many ? r.below(4) : r.below(14), 2, ties, r.chance(50)));
    for (auto &x : g.back()) all.push_back(x);
  }
  const std::string at = str("collapse ", col, " interpolate ", interp, " trapezoid ", trap, " sort ", sort, " groups ", [&] { std::string o; for (auto &x : g) if (o.size() < 3000) o += "(" + show(x) + ") "; return o; }());
  const Groups in = groups_of(g);
  auto value = [&](const std::vector<Item> &l, bool *known) {
    const auto s = sort ? by_score(l) : l;
    *known = !sort || col || distinct_scores(l);
    return ap(col ? collapse(s) : ents(s), interp, trap);
  };
  bool known_all = true, known_mean = true;
  const double want_g = value(all, &known_all);
  double want_m = 0;
  for (auto &x : g) { bool k; want_m += value(x, &k); known_mean = known_mean && k; }
  if (!g.empty()) want_m /= g.size();
  const GlobalAP<IntMatch> gap(col, interp, trap);
  const MeanAP<IntMatch> map(col, interp, trap);
  const Statistic<IntMatch> &sg = gap, &sm = map;
  const double got_g = r.chance(50) ? ComputeGlobalAP(in, col, interp, trap, sort) : sg(in, sort);
  const double got_m = r.chance(50) ? ComputeMeanAP(in, col, interp, trap, sort) : sm(in, sort);
  CHECK(same_groups(in, groups_of(g)), "statistic-input-modified", at);
  if (known_all) { CHECK(near(got_g, want_g, 1e-5, 1e-6), "pooled-ap", got_g, " want ", want_g, " ", at); m.count("pooled_ap"); }
  if (known_mean) { CHECK(near(got_m, want_m, 1e-5, 1e-6), "mean-ap", got_m, " want ", want_m, " ", at); m.count("mean_ap"); }
  if (!sort || all.empty()) {
    const double flat = r.chance(50) ? ComputeGlobalAP(matches_of(all), col, interp, trap) : gap(matches_of(all));
    CHECK(near(flat, got_g, 1e-9, 1e-12), "pooled-differs-from-flat", flat, " ", got_g, " ", at);
  }
  CHECK(std::isfinite(got_g) && std::isfinite(got_m), "not-finite", got_g, " ", got_m, " ", at);
  m.id(at); if (g.size() > 1 && all.size() > 2 && (want_g != 0 || want_m != 0)) m.nontrivial();
}

static void one(Rng &r, Mon &m) {
  switch (r.below(3)) {
    case 0: group(r, m); break;
    case 1: sort_and_collapse(r, m); break;
    default: statistics(r, m);
  }
}
int main(int argc, char **argv) { return run(argc, argv, one); }
