// C14: sampling of curves at evenly spaced points, and writing them.
#include "errs.h"
#include <fstream>
using namespace mon;
using namespace kws::core;

static void one(Rng &r, Mon &m) {
  // A curve: of an evaluation, or any one with non-decreasing x.
  std::vector<double> x, y;
  std::string at;
  if (r.chance(50)) {
    const bool interp = r.chance(50);
    const auto v = r.chance(50) ? gen_entries(r, true, r.below(6), r.below(1000) == 0 ? large_size(r) : r.below(20)) : gen_counts(r, true, r.below(6), r.below(8));
    ComputePrecisionAndRecall(to_errors<MatchErrorCounts>(v), interp, &y, &x);
    at = str("evaluation ", interp, " ", show(v));
    m.count("evaluated_curves");
  } else {
    double p = r.chance(30) ? 0.0 : r.below(8) / 16.0;
    for (size_t n = r.below(12); n > 0; --n) {
      x.push_back(p); y.push_back(r.below(1025) / 1024.0);
      if (!r.chance(35)) p = std::min(1.0, p + r.below(16) / 32.0);
    }
    at = "curve";
    for (size_t i = 0; i < x.size(); ++i) at += str(" (", x[i], ",", y[i], ")");
  }
  const size_t n = r.chance(25) ? r.below(4) : r.chance(10) ? 1000 : r.chance(3) ? large_size(r) : 2 + r.below(70);
  if (n > 1 && r.chance(25)) {                       // points next to those asked for
    std::vector<double> g;
    GetEvenlyDistributedPoints01Interval(n, &g);
    for (size_t k = 1 + r.below(6); k > 0; --k) {
      const double c = g[r.below(g.size())];
      double p = c;
      switch (r.below(5)) {
        case 0: p = std::nextafter(c, 2.0); break;
        case 1: p = std::nextafter(c, -1.0); break;
        case 2: break;
        default: { static const double d[] = {1e-15, 1e-12, 1e-10, 1e-9, 1e-8, 1e-7, 1e-6, 1e-5, 1e-4}; p = c + d[r.below(9)] * (r.chance(50) ? 1 : -1); }
      }
      if (p < 0 || p > 1) continue;
      const size_t at_x = std::upper_bound(x.begin(), x.end(), p) - x.begin();
      x.insert(x.begin() + at_x, p); y.insert(y.begin() + at_x, r.below(1025) / 1024.0);
    }
    at += " near";
    for (size_t i = 0; i < x.size() && i < 40; ++i) at += str(" (", x[i], ",", y[i], ")");
    m.count("near_points");
  }
  std::vector<double> px(r.below(4), 5.0), py(r.below(4), 5.0);
  GetEvenlyDistributedPoints01Interval(n, &px);
  at += str(" sampled at ", n);
  CHECK(px.size() == (n > 1 ? n : 0), "points", px.size(), " ", at);
  for (size_t k = 0; k < px.size(); ++k) CHECK(near(px[k], (double)k / (n - 1), 1e-12, 1e-15), "spacing", k, " ", px[k], " ", at);
  if (!px.empty()) CHECK(px[0] == 0 && px.back() == 1, "ends", px[0], " ", px.back(), " ", at);
  const bool linear = r.chance(50);
  const auto kx = x, ky = y, kp = px;
  SampleCurveAtGivenPoints(x, y, px, &py, linear);
  CHECK(x == kx && y == ky && px == kp, "input-modified", at);
  CHECK(py.size() == px.size(), "values", py.size(), " want ", px.size(), " ", at);
  uint64_t beyond = 0, between = 0;
  for (size_t k = 0; k < px.size(); ++k) {
    const size_t j = std::lower_bound(x.begin(), x.end(), px[k]) - x.begin();
    double want;
    if (j == x.size()) { want = 0; ++beyond; }
    else if (!linear || j == 0) want = y[j];
    else {
      const long double t = ((long double)x[j] - px[k]) / ((long double)x[j] - x[j - 1]);
      want = (double)(t * y[j - 1] + (1 - t) * y[j]);
      ++between;
    }
    CHECK(near(py[k], want, 1e-9, 1e-9), "value", "at ", px[k], " linear ", linear, " ", py[k], " want ", want, " ", at);
    CHECK(py[k] >= 0 && py[k] <= 1, "range", "at ", px[k], " ", py[k], " ", at);
  }
  if (px.size() >= 2 && x.size() >= 2) m.nontrivial();
  m.id(at); m.id(linear);
  m.count("points", px.size()); m.count("points_beyond", beyond); m.count("points_interpolated", between);
  if (m.wants_sample() && px.size() > 1) m.sample(str(at, " linear ", linear, " -> ", py[0], " .. ", py.back()));
}
int main(int argc, char **argv) { return run(argc, argv, one); }
