// C09: NDCG against its definition and its order properties.
#include "errs.h"
using namespace mon;
using namespace kws::core;

template <class ME> void lists(Rng &r, Mon &m, bool counts) {
  const bool crisp = r.chance(60);
  const bool large = r.below(400) == 0;
  const size_t n = large ? large_size(r) : r.chance(5) ? r.below(400) : r.below(20);
  const int mix = r.below(6);
  auto v = counts ? gen_counts(r, crisp, mix, large ? n / 8 : n) : gen_entries(r, crisp, mix, n);
  if (counts && r.below(300) == 0 && v.size() < 30) { scale(&v, 1 + r.below(13)); m.count("scaled_counts"); }
  if (counts && r.below(300) == 0) {                       // many hypotheses of one score
    const uint64_t k = large_size(r);
    v.insert(v.begin() + r.below(v.size() + 1), Ent{(double)r.below(k + 1), 0, k, r.below(3)});
    Ent &e = *std::max_element(v.begin(), v.end(), [](const Ent &a, const Ent &b) { return a.nh < b.nh; });
    e.nr = e.nh - (uint64_t)e.fp;
    m.count("large_entries");
  }
  if (large) m.count("large_lists");
  const std::string at = str(counts ? "counts " : "errors ", show(v));
  const auto errs = to_errors<ME>(v);
  double reach = 0;
  const double got = ComputeNDCG<double>(errs), want = model_ndcg(v, &reach);
  CHECK(near(got, want, 2e-6, 2e-7 + reach), "ndcg", got, " want ", want, " ", at);
  const uint64_t tr = total_refs(v);
  if (!tr) CHECK(got == 0, "no-references", got, " ", at);
  if (crisp && tr) {
    CHECK(got >= 0 && got <= 1 + 1e-12, "range", got, " ", at);
    uint64_t top = 0;
    for (auto &e : v) { if (e.fp > 0) break; top += e.nh; }
    const bool perfect = top >= tr;
    CHECK(perfect == (got > 1 - 1e-12), "one-iff-perfect", got, " perfect ", perfect, " ", at);
    m.count(perfect ? "perfect" : "imperfect");
  }
  if (crisp && !counts) {
    // move a hit one place up
    for (int k = 0; k < 3 && v.size() > 1; ++k) {
      const size_t i = 1 + r.below(v.size() - 1);
      if (v[i].fp == 0 && v[i].nh == 1 && v[i - 1].fp == 1) {
        const double before = ComputeNDCG<double>(to_errors<ME>(v));
        std::swap(v[i], v[i - 1]);
        const double after = ComputeNDCG<double>(to_errors<ME>(v));
        CHECK(after > before, "hit-moved-up", "at ", i, " ", before, " -> ", after, " ", at);
        m.count("hits_moved_up");
      }
    }
    // entries without hypotheses take no rank wherever they are
    std::vector<Ent> w;
    for (auto &e : v) if (!e.nh) w.push_back(e);
    for (auto &e : v) if (e.nh) w.push_back(e);
    const double a = ComputeNDCG<double>(to_errors<ME>(v)), b = ComputeNDCG<double>(to_errors<ME>(w));
    CHECK(near(a, b, 1e-12, 1e-15), "missed-take-rank", a, " ", b, " ", at);
  }
  if (v.size() >= 2 && tr) m.nontrivial();
  m.id(at); m.id(v.size()); m.idf(got);
  m.count("entries", v.size());
  if (m.wants_sample()) m.sample(str(at, " -> ", got));
}

static void grouped(Rng &r, Mon &m) {
  const bool crisp = r.chance(60), col = r.chance(50);
  const bool sort = r.chance(60);
  const int ngroups = r.below(6);
  std::vector<std::vector<Item>> g;
  std::vector<std::vector<IntMatch>> gm;
  std::string at = str("collapse ", col, " sort ", sort, " ");
  // pooled order is determined if scores differ or collapsing merges ties
  int id = 0;
  const int ties = col ? (int)r.below(kTies) : 0;
  for (int k = 0; k < ngroups; ++k) {
    auto v = gen_items(r, crisp, r.below(12), 2, ties, !sort && r.chance(50));
    for (auto &x : v) { x.id = id++; if (ties == 0) x.score += k * 0.001f; }
    if (sort) for (size_t i = v.size(); i > 1; --i) std::swap(v[i - 1], v[r.below(i)]);
    at += str("{", show(v), "}");
    g.push_back(v);
    gm.push_back(to_matches(v));
  }
  auto keep = gm;
  auto order = [](std::vector<Item> v) {
    std::stable_sort(v.begin(), v.end(), [](const Item &a, const Item &b) {
      return (a.e.nh > 0) != (b.e.nh > 0) ? a.e.nh > 0 : a.e.nh && a.score > b.score; });
    return v;
  };
  const double rel = 2e-6, abs = 2e-7;
  if (col && crisp && r.below(150) == 0) {                   // more groups than 16 bits count
    for (size_t k = 65530 + r.below(3000); k > 0; --k) {
      g.push_back(gen_items(r, true, 1 + r.below(3), 2, 1, true)); gm.push_back(to_matches(g.back()));
    }
    keep = gm;
    m.count("many_groups");
  } else if (ngroups && r.below(400) == 0) {                        // a large group
    auto v = gen_items(r, crisp, large_size(r), 2, col ? 1 : 0, true);
    for (auto &x : v) { x.id = id++; if (!col) x.score += 0.25f; }
    g.push_back(v); gm.push_back(to_matches(v));
    keep = gm;
    m.count("large_groups");
  }
  double reach = 0;
  auto value = [&](const std::vector<Item> &v) {
    const auto o = sort ? order(v) : v;
    double e = 0;
    const double x = model_ndcg(col ? collapse(o) : ents(o), &e);
    reach = std::max(reach, e);
    return x;
  };
  std::vector<Item> all;
  double mean = 0;
  for (auto &v : g) { all.insert(all.end(), v.begin(), v.end()); mean += value(v); }
  mean = g.empty() ? 0 : mean / g.size();
  value(all);
  const double got_g = ComputeGlobalNDCG(gm, col, sort), got_m = ComputeMeanNDCG(gm, col, sort);
  CHECK(near(got_g, value(all), rel, abs + reach), "global", got_g, " want ", value(all), " ", at);
  CHECK(near(got_m, mean, rel, abs + reach), "mean", got_m, " want ", mean, " ", at);
  if (!sort) {
    const double flat = ComputeGlobalNDCG(to_matches(all), col);
    CHECK(near(flat, value(all), rel, abs + reach), "flat", flat, " want ", value(all), " ", at);
  }
  CHECK(same_groups(gm, keep), "input-modified", at);
  if (ngroups > 1 && total_refs(ents(all))) m.nontrivial();
  m.id(at);
  m.count("grouped");
}

static void one(Rng &r, Mon &m) {
  switch (r.below(5)) {
    case 0: case 1: lists<MatchError>(r, m, false); break;
    case 2: lists<MatchErrorCounts>(r, m, true); break;
    default: grouped(r, m);
  }
}
int main(int argc, char **argv) { return run(argc, argv, one); }
