// C08: curves and average precision against their definitions.
#include "errs.h"
using namespace mon;
using namespace kws::core;

template <class Real, class ME>
void lists(Rng &r, Mon &m, bool counts) {
  const bool crisp = r.chance(60), interp = r.chance(50), trap = r.chance(50);
  const bool large = sizeof(Real) == 8 && r.below(400) == 0;
  const size_t n = large ? large_size(r) : r.chance(5) ? r.below(400) : r.below(20);
  const int mix = r.below(6);
  auto v = counts ? gen_counts(r, crisp, mix, n) : gen_entries(r, crisp, mix, n);
  if (counts && r.chance(15)) { scale(&v, 1 + r.below(40)); m.count("scaled_counts"); }
  if (large) m.count("large_lists");
  const auto errs = to_errors<ME>(v);
  const std::string at = str(counts ? "counts " : "errors ", interp, trap, " ", show(v));
  const double tol = sizeof(Real) == 4 ? 2e-4 : 1e-9;
  std::vector<Real> pr(r.below(5), (Real)7), rc(r.below(5), (Real)-7);
  ComputePrecisionAndRecall(errs, interp, &pr, &rc);
  std::vector<double> wp, wr;
  model_curve(v, interp, &wp, &wr);
  CHECK(pr.size() == v.size() && rc.size() == v.size(), "points", pr.size(), " ", rc.size(), " ", at);
  for (size_t i = 0; i < v.size(); ++i) {
    CHECK(near(pr[i], wp[i], 0, tol), "precision", "point ", i, " ", pr[i], " want ", wp[i], " ", at);
    CHECK(near(rc[i], wr[i], 0, tol), "recall", "point ", i, " ", rc[i], " want ", wr[i], " ", at);
    if (crisp) {
      CHECK(pr[i] >= 0 && pr[i] <= 1 + tol, "precision-range", "point ", i, " ", pr[i], " ", at);
      CHECK(rc[i] >= 0 && rc[i] <= 1 + tol, "recall-range", "point ", i, " ", rc[i], " ", at);
      CHECK(!i || rc[i] >= rc[i - 1], "recall-decreases", "point ", i, " ", rc[i - 1], " ", rc[i], " ", at);
    }
    if (interp && i) CHECK(pr[i - 1] >= pr[i], "interpolation", "point ", i, " ", at);
  }
  const Real ap = ComputeAP(pr, rc, trap);
  CHECK(near(ap, model_ap(wp, wr, trap), 0, tol * 10), "ap", ap, " want ", model_ap(wp, wr, trap), " ", at);
  if (crisp) {
    CHECK(ap >= -tol && ap <= 1 + tol, "ap-range", ap, " ", at);
    const Real ap2 = ComputeAP(errs, pr, trap);
    CHECK(near(ap, ap2, 0, tol * 10), "ap-from-hits", ap, " ", ap2, " ", at);
    m.count("all_or_nothing");
  }
  // The same curve again, over the outputs of the first call.
  std::vector<Real> pr2 = rc, rc2 = pr;
  ComputePrecisionAndRecall(errs, interp, &pr2, &rc2);
  CHECK(pr2 == pr && rc2 == rc, "repeat", at);
  m.count("points", v.size());
  if (v.size() >= 2 && total_refs(v)) m.nontrivial();
  m.id(at); m.id(v.size()); m.idf(ap);
  if (m.wants_sample()) m.sample(str(at, " -> AP ", ap));
}

// AP of arbitrary curves
template <class Real> void free_curve(Rng &r, Mon &m) {
  std::vector<Real> pr, rc;
  std::vector<double> wp, wr;
  Real x = 0;
  std::string at = "curve ";
  for (size_t n = r.below(30); n > 0; --n) {
    x += (Real)(r.chance(30) ? 0 : r.below(64) / 2048.0);
    rc.push_back(x); pr.push_back((Real)(r.below(1025) / 1024.0));
    wr.push_back(x); wp.push_back(pr.back());
    at += str("(", x, ",", pr.back(), ")");
  }
  const bool trap = r.chance(50);
  const double tol = sizeof(Real) == 4 ? 1e-4 : 1e-10;
  const Real ap = ComputeAP(pr, rc, trap);
  CHECK(near(ap, model_ap(wp, wr, trap), 0, tol), "ap-of-curve", trap, " ", ap, " want ", model_ap(wp, wr, trap), " ", at);
  if (pr.size() > 1) m.nontrivial();
  m.id(at); m.id(trap);
  m.count("free_curves");
}

// From matches, collapsed or not
static void matches(Rng &r, Mon &m) {
  const bool crisp = r.chance(60), col = r.chance(50), interp = r.chance(50), trap = r.chance(50);
  const bool large = r.below(500) == 0;
  const double tol = 1e-8;
  if (large) m.count("large_match_lists");
  const auto items = gen_items(r, crisp, large ? large_size(r) : r.below(25), 1 + r.below(3), r.below(kTies), r.chance(70));
  const auto v = to_matches(items);
  const auto keep = to_matches(items);
  const auto e = col ? collapse(items) : ents(items);
  std::vector<double> pr(3, 9), rc(2, 9), wp, wr;
  ComputePrecisionAndRecall(v, col, interp, &pr, &rc);
  model_curve(e, interp, &wp, &wr);
  const std::string at = str(col, interp, trap, " ", show(items));
  CHECK(pr.size() == wp.size() && rc.size() == wr.size(), "match-points", pr.size(), " want ", wp.size(), " ", at);
  for (size_t i = 0; i < wp.size(); ++i) {
    CHECK(near(pr[i], wp[i], 0, tol), "match-precision", "point ", i, " ", pr[i], " want ", wp[i], " ", at);
    CHECK(near(rc[i], wr[i], 0, tol), "match-recall", "point ", i, " ", rc[i], " want ", wr[i], " ", at);
  }
  const double ap = ComputeGlobalAP(v, col, interp, trap);
  CHECK(near(ap, model_ap(wp, wr, trap), 0, tol), "global-ap", ap, " want ", model_ap(wp, wr, trap), " ", at);
  CHECK(same_matches(v, keep), "matches-modified", at);
  if (items.size() >= 2) m.nontrivial();
  m.id(at);
  m.count("match_lists");
}

static void one(Rng &r, Mon &m) {
  switch (r.below(7)) {
    case 0: case 1: lists<double, MatchError>(r, m, false); break;
    case 2: case 3: lists<double, MatchErrorCounts>(r, m, true); break;
    case 4: lists<float, MatchError>(r, m, false); break;
    case 5: if (r.chance(50)) free_curve<double>(r, m); else free_curve<float>(r, m); break;
    default: matches(r, m);
  }
}
int main(int argc, char **argv) { return run(argc, argv, one); }
