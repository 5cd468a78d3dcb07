// C13: percentile intervals, with a scripted and recorded statistic and sampler, and through the grouped overload.
#include "errs.h"
#include "core/Bootstrapping.h"
using namespace mon;
using namespace kws::core;

// Positions floor(f R) capped to the last one; two of them when rounding decides.
static std::set<size_t> positions(long double f, size_t R) {
  const long double x = f * R;
  std::set<size_t> o;
  for (const long double y : {x - 1e-9L, x, x + 1e-9L})
    o.insert(std::min<size_t>(y < 0 ? 0 : (size_t)floorl(y), R - 1));
  return o;
}

static void judge(double got, double lo, double up, double obs, std::vector<double> diffs, size_t R, double alpha, const std::string &at) {
  CHECK(got == obs, "point-estimate", got, " want ", obs, " ", at);
  if (R == 0) {
    CHECK(lo == obs && up == obs, "no-samples", lo, " ", up, " want ", obs, " ", at);
    return;
  }
  std::sort(diffs.begin(), diffs.end());
  bool l = false, u = false;
  std::string want;
  for (size_t p : positions(1.0L - (long double)alpha / 2, R)) { l |= near(lo, obs - diffs[p], 1e-12, 1e-12); want += str(obs - diffs[p], " "); }
  want += "..";
  for (size_t p : positions((long double)alpha / 2, R)) { u |= near(up, obs - diffs[p], 1e-12, 1e-12); want += str(" ", obs - diffs[p]); }
  CHECK(l, "lower-bound", lo, " want ", want, " ", at);
  CHECK(u, "upper-bound", up, " want ", want, " ", at);
  CHECK(lo <= up, "bounds-order", lo, " ", up, " ", at);
}

static const std::vector<double> kAlphas = {0.0, 1.0, 0.05, 0.1, 0.01, 0.5, 0.95, 1e-9, 0.999999, 0.2, 0.3333};

static void scripted(Rng &r, Mon &m) {
  const size_t R = r.chance(15) ? r.below(3) : r.below(300) == 0 ? large_size(r) : r.chance(10) ? 1000 + r.below(1000) : r.below(60);
  if (R > 2000) m.count("R_large");
  const int spread = r.below(4);
  std::vector<double> values;        // statistic of sample k
  for (size_t k = 0; k < R; ++k) values.push_back(spread == 0 ? 0.5 : spread == 1 ? (double)r.below(3) / 2 : r.unit() * (spread == 2 ? 1 : -1e3));
  const double obs = r.chance(20) ? 0.0 : r.unit();
  typedef std::vector<int> Data;     // a sample is {k}, the data {-1, ...}
  const Data data = {-1, 5, 6};
  size_t calls = 0, drawn = 0, on_data = 0;
  bool foreign = false;
  struct Sampler {
    const Data *data; size_t *drawn; bool *foreign;
    void operator()(const Data &o, Data *s) { if (o != *data) *foreign = true; s->assign(1, (int)(*drawn)++); }
  } sampler{&data, &drawn, &foreign};
  auto stat = [&](const Data &d) -> double {
    ++calls;
    if (d == data) { ++on_data; return obs; }
    if (d.size() != 1 || d[0] < 0 || (size_t)d[0] >= values.size()) { foreign = true; return 0; }
    return values[d[0]];
  };
  std::vector<double> diffs;
  for (double v : values) diffs.push_back(v - obs);
  double plo = 0, pup = 0;
  bool first = true;
  std::vector<double> alphas = {r.pick(kAlphas), r.unit(), r.chance(30) && R ? 2.0 * r.below(R + 1) / R : r.unit()};
  if (R && r.chance(40)) {          // next to, but not at, where a position changes
    static const double d[] = {1e-6, -1e-6, 1e-5, -1e-5, 1e-4, -1e-4, 1e-3, -1e-3};
    const double a = 2.0 * (r.below(R / 2 + 1) + d[r.below(8)]) / R;
    if (a > 0 && a < 1) alphas.push_back(a);
    m.count("alphas_near_a_position");
  }
  for (auto &a : alphas) a = std::min(1.0, a);
  std::sort(alphas.begin(), alphas.end());
  for (double alpha : alphas) {
    calls = drawn = on_data = 0;
    double lo = 99, up = -99;
    const std::string at = str("R ", R, " alpha ", alpha, " observed ", obs, " spread ", spread);
    const double got = ComputePercentileBootstrapCI(data, R, alpha, stat, &sampler, &lo, &up);
    CHECK(!foreign, "foreign-sample", at);
    CHECK(drawn == R, "sample-count", drawn, " want ", R, " ", at);
    CHECK(on_data >= 1, "data-not-evaluated", at);
    judge(got, lo, up, obs, diffs, R, alpha, at);
    if (!first) CHECK(lo >= plo && up <= pup, "nested", plo, " ", pup, " then ", lo, " ", up, " ", at);
    first = false; plo = lo; pup = up;
    m.id(at);
    m.count(R < 2 ? "R_0_or_1" : "R_2_or_more");
    if (lo < up) m.count("with_width");
    if (m.wants_sample()) m.sample(str(at, " -> [", lo, ", ", up, "]"));
  }
  for (double v : values) m.idf(v);
  std::set<double> dv(values.begin(), values.end());
  if (dv.size() > 1 || R < 2 || alphas.front() == 0 || alphas.back() == 1) m.nontrivial();
}

static void grouped(Rng &r, Mon &m) {
  const int n = 1 + r.below(5);
  std::vector<std::vector<IntMatch>> g;
  int id = 0;
  for (int i = 0; i < n; ++i) {
    g.push_back(to_matches(gen_items(r, true, 1 + r.below(8), 1, r.below(kTies), true)));
    for (auto &x : g.back()) {
      IntMatch y(x.GetError().FP(), x.GetError().FN());
      if (x.HasHyp()) y.SetHyp(IntHyp(i, id, x.GetHyp().Score()));
      if (x.HasRef()) y.SetRef(IntRef(i, id));
      x = y;
      ++id;
    }
  }
  const auto keep = g;
  const size_t R = r.below(40);
  const uint64_t seed = 1 + r.below(2147483645);
  const double alpha = r.pick(kAlphas);
  const int which = r.below(4);
  std::vector<double> log;
  size_t on_data = 0;
  double obs = 0;
  auto stat = [&](const std::vector<std::vector<IntMatch>> &s) -> double {
    double v = which == 0 ? ComputeGlobalAP(s, true, true, true, true) : which == 1 ? ComputeMeanAP(s, true, true, true, true)
             : which == 2 ? ComputeGlobalNDCG(s, true, true) : 0;
    if (which == 3) for (auto &x : s) for (auto &y : x) v = v * 0.9 + (y.HasHyp() ? y.GetHyp().Location() : y.GetRef().Location());
    if (&s == &g) { ++on_data; obs = v; } else log.push_back(v);
    return v;
  };
  const std::string at = str("seed ", seed, " R ", R, " alpha ", alpha, " statistic ", which, " groups ", n, " matches ", id);
  double lo = 99, up = -99, lo2 = 98, up2 = -98;
  const double got = ComputePercentileBootstrapCI(g, R, alpha, seed, stat, &lo, &up);
  if (on_data == 0 && log.size() == R + 1) {        // the data were evaluated from a copy
    obs = log[0]; log.erase(log.begin());
  }
  CHECK(log.size() == R, "sample-count", log.size(), " want ", R, " ", at);
  std::vector<double> diffs;
  for (double v : log) diffs.push_back(v - obs);
  judge(got, lo, up, obs, diffs, R, alpha, at);
  CHECK(same_groups(g, keep), "data-modified", at);
  const double again = ComputePercentileBootstrapCI(g, R, alpha, seed, stat, &lo2, &up2);
  CHECK(again == got && lo2 == lo && up2 == up, "not-repeatable", lo, " ", up, " then ", lo2, " ", up2, " ", at);
  // The samples differ among themselves, and with the seed.
  if (which == 3 && id >= 8 && n >= 2 && R >= 6) {
    CHECK(std::set<double>(log.begin(), log.begin() + R).size() > 1, "samples-equal", at);
    std::vector<double> first(log.begin(), log.begin() + R);
    log.clear();
    double a, b;
    ComputePercentileBootstrapCI(g, R, alpha, seed > 1000 ? seed - 17 : seed + 17, stat, &a, &b);
    if (log.size() > R) log.erase(log.begin());
    CHECK(log != first, "seed-ignored", at);
    m.count("seed_pairs");
  }
  std::set<double> dv(diffs.begin(), diffs.end());
  if (dv.size() > 1 || R < 2) m.nontrivial();
  m.id(at);
  m.count("grouped");
  if (lo < up) m.count("grouped_with_width");
}

static void one(Rng &r, Mon &m) { if (r.chance(75)) scripted(r, m); else grouped(r, m); }
int main(int argc, char **argv) { return run(argc, argv, one); }
