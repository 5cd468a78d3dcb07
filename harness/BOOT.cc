// Intervals of one evaluation, computed with the library: what the tools must print.
// Usage: BOOT icdar|simple REF HYP ORDER COLLAPSE INTERPOLATE TRAPEZOID R ALPHA SEED
#include "ev.h"
#include "core/Assessment.h"
#include "core/Bootstrapping.h"
#include "core/Statistic.h"
#include "mapper/ScoredEventMapper.h"
#include "mapper/StringEventToIntMapper.h"
#include "matcher/SimpleMatcher.h"
#include "reader/PlainTextMapEventReader.h"
#include "reader/PlainTextReader.h"
#include "scorer/IntersectionOverHypothesisAreaScorer.h"
#include "scorer/TrivialScorer.h"
using namespace kws::core;

template <class RE, class HE, class S>
void go(std::vector<RE> refs, std::vector<HE> hyps, S *scorer, char **a) {
  const std::string order = a[4];
  if (order == "desc") std::sort(hyps.begin(), hyps.end(), std::greater<HE>());
  if (order == "asc") std::sort(hyps.begin(), hyps.end(), std::less<HE>());
  const bool col = atoi(a[5]), in = atoi(a[6]), tr = atoi(a[7]);
  const size_t R = strtoull(a[8], 0, 10), seed = strtoull(a[10], 0, 10);
  const double alpha = strtod(a[9], 0);
  typedef Match<RE, HE> M;
  kws::matcher::SimpleMatcher<RE, HE> matcher(scorer);
  const auto matches = matcher.Match(refs, hyps);
  std::vector<std::vector<M>> g;
  typedef typename RE::QType Q;
  GroupMatchesByQueryGroup(matches, std::map<Q, Q>(), &g);
  std::vector<std::unique_ptr<Statistic<M>>> st;
  st.emplace_back(new GlobalAP<M>(col, in, tr));
  st.emplace_back(new MeanAP<M>(col, in, tr));
  st.emplace_back(new GlobalNDCG<M>(col));
  st.emplace_back(new MeanNDCG<M>(col));
  for (auto &s : st) {
    auto f = [&](const std::vector<std::vector<M>> &x) -> double { return (*s)(x, true); };
    double lo = 0, up = 0;
    const double v = ComputePercentileBootstrapCI(g, R, alpha, seed, f, &lo, &up);
    printf("%.9g %.9g %.9g\n", v, lo, up);
  }
}

int main(int, char **a) {
  using namespace kws::mapper;
  using namespace kws::reader;
  if (std::string(a[1]) == "icdar") {
    std::vector<BoxRef> r; std::vector<BoxHyp> h;
    if (!PlainTextReader<BoxRef>().Read(std::string(a[2]), &r) || !PlainTextReader<BoxHyp>().Read(std::string(a[3]), &h)) return 1;
    kws::scorer::IntersectionOverHypothesisAreaScorer<BoxRef, BoxHyp> s(0.5);
    go(r, h, &s, a);
  } else {
    StringToIntMapper<int32_t> names;
    StringEventToIntMapper<int32_t> rm(&names);
    ScoredEventMapper<StringEventToIntMapper<int32_t>> hm(&rm);
    std::vector<IntRef> r; std::vector<IntHyp> h;
    if (!PlainTextMapEventReader<StringEventToIntMapper<int32_t>>(&rm).Read(std::string(a[2]), &r) ||
        !PlainTextMapEventReader<ScoredEventMapper<StringEventToIntMapper<int32_t>>>(&hm).Read(std::string(a[3]), &h)) return 1;
    kws::scorer::TrivialScorer<IntRef, IntHyp> s;
    go(r, h, &s, a);
  }
}
