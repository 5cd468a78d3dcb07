// C02: the result of Match() against an independent greedy matching, and conservation of events.
#include "ev.h"
#include "matcher/SimpleMatcher.h"
#include "scorer/IntersectionOverHypothesisAreaScorer.h"
#include "scorer/IntersectionOverUnionAreaScorer.h"
#include "scorer/SoftBoundingBoxScorer.h"
#include "scorer/TrivialScorer.h"

using namespace mon;
using kws::matcher::SimpleMatcher;
using kws::scorer::Scorer;

// Errors out of a table that depends on nothing but the pair's contents.
template <class RE, class HE>
struct TableScorer : Scorer<RE, HE> {
  uint64_t salt; int mode;
  TableScorer(uint64_t s, int m) : salt(s), mode(m) {}
  MatchError operator()(const RE &ref, const HE &hyp) override {
    std::ostringstream o;
    o << static_cast<const RE &>(ref) << "|" << static_cast<const RE &>(hyp);
    uint64_t h = salt;
    for (char c : o.str()) h = mix(h ^ (unsigned char)c);
    static const float v[] = {0.0f, 0.0f, 1.0f, 0.5f, 0.99999994f, 0.25f, 1.0f, 0.0f};
    switch (mode) {
      case 0: return (h & 1) ? MatchError(0, 0) : MatchError(1, 1);
      case 1: return (h & 7) ? MatchError(0, 0) : MatchError(1, 1);
      case 2: return (h & 7) ? MatchError(1, 1) : MatchError(0, 0);
      default: return MatchError(v[h & 7], v[(h >> 3) & 7]);
    }
  }
};

// Records what the matcher asked for.
template <class RE, class HE>
struct LogScorer : Scorer<RE, HE> {
  Scorer<RE, HE> *in; uint64_t calls = 0;
  explicit LogScorer(Scorer<RE, HE> *s) : in(s) {}
  MatchError operator()(const RE &ref, const HE &hyp) override { ++calls; return (*in)(ref, hyp); }
};

static bool overlap(const PBox &r, const PBox &h, __int128 *a) {
  *a = r.q == h.q ? common_area(r, h) : 0;
  return *a > 0;
}
static bool overlap(const PInt &r, const PInt &h, __int128 *a) { *a = 1; return r == h; }

template <class RE, class HE>
void judge(Mon &m, const std::vector<RE> &refs, const std::vector<HE> &hyps, Scorer<RE, HE> *scorer,
           const std::string &what) {
  typedef decltype(plain(refs[0])) P;
  typedef kws::core::Match<RE, HE> MT;
  LogScorer<RE, HE> log(scorer);
  SimpleMatcher<RE, HE> matcher(&log);
  const std::vector<RE> refs0 = refs;
  const std::vector<HE> hyps0 = hyps;
  const std::vector<MT> res = matcher.Match(refs, hyps);
  const std::vector<MT> rep = matcher.GetRepeatedMatches();
  m.count("scorer_calls", log.calls);

  std::map<P, const RE *> distinct;
  for (const RE &r : refs) distinct[plain(r)] = &r;
  std::set<P> freer;
  for (auto &kv : distinct) freer.insert(kv.first);

  size_t at = 0;
  uint64_t nhit = 0, nfp = 0, nrep = 0, contended = 0;
  std::multiset<std::pair<P, float>> aside;
  for (size_t i = 0; i < hyps.size(); ++i) {
    const P hp = plain(hyps[i]);
    std::vector<std::pair<__int128, P>> cand;
    for (auto &kv : distinct) {
      __int128 a;
      if (overlap(kv.first, hp, &a)) cand.push_back(std::make_pair(a, kv.first));
    }
    std::sort(cand.begin(), cand.end(), [](const std::pair<__int128, P> &x, const std::pair<__int128, P> &y) {
      return x.first != y.first ? x.first > y.first : y.second < x.second;
    });
    bool acceptable = false;
    const P *take = nullptr;
    size_t oks = 0;
    for (auto &c : cand) {
      if ((*scorer)(*distinct[c.second], hyps[i]).FP() < 1.0f) {
        acceptable = true; ++oks;
        if (!take && freer.count(c.second)) take = &c.second;
      }
    }
    if (oks > 1) ++contended;
    if (acceptable && !take) { ++nrep; aside.insert(std::make_pair(hp, hyps[i].Score())); continue; }
    CHECK(at < res.size(), "entry-missing", what, ": no entry for hypothesis ", i, " ", show(hp));
    const MT &e = res[at];
    CHECK(e.HasHyp() && plain(e.GetHyp()) == hp && e.GetHyp().Score() == hyps[i].Score(), "entry-order",
          what, ": entry ", at, " is ", show_match(e), " instead of hypothesis ", i, " ", show(hp));
    if (take) {
      CHECK(e.HasRef(), "pair-lost", what, ": ", show_match(e), " should be paired with ", show(*take));
      CHECK(plain(e.GetRef()) == *take, "wrong-reference", what, ": ", show_match(e), " instead of ", show(*take));
      const MatchError want = (*scorer)(*distinct[*take], hyps[i]);
      CHECK(e.GetError().FP() == want.FP() && e.GetError().FN() == want.FN(), "pair-error", what, ": ",
            show_match(e), " instead of ", want);
      const P t = *take;
      freer.erase(t);
      ++nhit;
    } else {
      CHECK(!e.HasRef(), "false-positive-paired", what, ": ", show_match(e));
      CHECK(e.GetError().FP() == 1.0f && e.GetError().FN() == 0.0f, "false-positive-error", what, ": ", show_match(e));
      ++nfp;
    }
    ++at;
  }
  std::set<P> missed;
  for (; at < res.size(); ++at) {
    const MT &e = res[at];
    CHECK(!e.HasHyp() && e.HasRef(), "tail", what, ": entry ", at, " ", show_match(e), " after the hypotheses");
    CHECK(e.GetError().FP() == 0.0f && e.GetError().FN() == 1.0f, "miss-error", what, ": ", show_match(e));
    CHECK(missed.insert(plain(e.GetRef())).second, "missed-twice", what, ": ", show_match(e));
  }
  CHECK(missed == freer, "missed-set", what, ": ", missed.size(), " missed references instead of ", freer.size());
  // The repetitions: every hypothesis set aside is there, every one there is acceptable.
  std::set<std::pair<P, float>> in_rep, given;
  for (const HE &h : hyps) given.insert(std::make_pair(plain(h), h.Score()));
  for (const MT &e : rep) {
    CHECK(e.HasHyp() && e.HasRef(), "repetition-incomplete", what, ": ", show_match(e));
    __int128 a;
    CHECK(given.count(std::make_pair(plain(e.GetHyp()), e.GetHyp().Score())) && distinct.count(plain(e.GetRef())) &&
              overlap(plain(e.GetRef()), plain(e.GetHyp()), &a) && e.GetError().FP() < 1.0f,
          "repetition-unacceptable", what, ": ", show_match(e));
    in_rep.insert(std::make_pair(plain(e.GetHyp()), e.GetHyp().Score()));
  }
  for (auto &x : aside)
    CHECK(in_rep.count(x), "repetition-lost", what, ": ", show(x.first), " is in no entry and no repetition");
  // Inputs untouched.
  CHECK(refs.size() == refs0.size() && hyps.size() == hyps0.size(), "input-changed", what);
  for (size_t i = 0; i < refs.size(); ++i) CHECK(plain(refs[i]) == plain(refs0[i]), "input-changed", what);
  for (size_t i = 0; i < hyps.size(); ++i)
    CHECK(plain(hyps[i]) == plain(hyps0[i]) && hyps[i].Score() == hyps0[i].Score(), "input-changed", what);

  m.count("hits", nhit); m.count("false_positives", nfp); m.count("repetitions", nrep);
  m.count("misses", missed.size()); m.count("hyps_with_several_acceptable_refs", contended);
  m.count("scorer." + what);
  if (nhit && (nfp || nrep || missed.size())) m.nontrivial();
  m.id(nhit); m.id(nfp); m.id(nrep); m.id(missed.size()); m.id(refs.size());
  if (m.wants_sample() && contended > 2)
    m.sample(str(what, ": ", refs.size(), " refs, ", hyps.size(), " hyps -> ", nhit, " hits, ", nfp,
                 " false positives, ", nrep, " repetitions, ", missed.size(), " misses; ", contended,
                 " hyps with several acceptable refs"));
}

// One query and document with hundreds of references under each hypothesis.
static void crowd(Rng &r, Mon &m) {
  const bool heap = r.chance(8);
  const int nr = heap ? r.in(1100, 2500) : r.in(80, 500), side = !heap && r.chance(50) ? 12 : 200;
  std::vector<BoxRef> refs;
  std::vector<BoxHyp> hyps;
  const int nq = heap || r.chance(70) ? 1 : 2;
  for (int i = 0; i < nr; ++i)
    refs.push_back(BoxRef(str("q", r.below(nq)), DocBox("d", r.below(side), r.below(side), 1 + r.below(side), 1 + r.below(side))));
  const int nh = heap || r.chance(50) ? r.in(1, 12) : r.in(100, 400);
  for (int i = 0; i < nh; ++i) {
    if (nh > 50 && r.chance(70)) hyps.push_back(BoxHyp(r.pick(refs), gen_score(r, 3)));
    else hyps.push_back(BoxHyp(str("q", r.below(nq)), DocBox("d", r.below(side), r.below(side), 1 + r.below(2 * side), 1 + r.below(2 * side)), gen_score(r, 3)));
  }
  m.count("crowds");
  switch (r.below(4)) {
    case 0: { kws::scorer::IntersectionOverHypothesisAreaScorer<BoxRef, BoxHyp> s(0.5f); return judge<BoxRef, BoxHyp>(m, refs, hyps, &s, "crowd-over-hypothesis"); }
    case 1: { kws::scorer::SoftIntersectionOverHypothesisAreaScorer<BoxRef, BoxHyp> s; return judge<BoxRef, BoxHyp>(m, refs, hyps, &s, "crowd-soft"); }
    case 2: { TableScorer<BoxRef, BoxHyp> s(r.next(), 2); return judge<BoxRef, BoxHyp>(m, refs, hyps, &s, "crowd-table"); }
    default: { kws::scorer::TrivialScorer<BoxRef, BoxHyp> s; return judge<BoxRef, BoxHyp>(m, refs, hyps, &s, "crowd-trivial"); }
  }
}

static void one(Rng &r, Mon &m) {
  if (r.below(150) == 0) return crowd(r, m);
  const bool big = r.chance(4);
  const int nr = big ? r.in(60, 200) : r.in(0, r.chance(50) ? 6 : 25);
  const int nh = big ? r.in(60, 200) : r.in(0, r.chance(50) ? 8 : 40);
  if (r.chance(70)) {
    const int style = r.below(4), docs = 1 + r.below(3), nq = 1 + r.below(3);
    std::vector<BoxRef> refs;
    std::vector<BoxHyp> hyps;
    for (int i = 0; i < nr; ++i) {
      if (!refs.empty() && r.chance(12)) refs.push_back(BoxRef(r.pick(refs)));
      else refs.push_back(BoxRef(name(r, nq), gen_box(r, docs, style)));
    }
    const int ss = r.below(4);
    for (int i = 0; i < nh; ++i) {
      if (!refs.empty() && r.chance(30)) {
        BoxRef b = r.pick(refs);
        hyps.push_back(BoxHyp(b, gen_score(r, ss)));
      } else {
        hyps.push_back(BoxHyp(name(r, nq), gen_box(r, docs, style), gen_score(r, ss)));
      }
    }
    switch (r.below(5)) {
      case 0: {
        static const float th[] = {0.5f, 0.0f, 1.0f, 0.25f, 0.1f};
        kws::scorer::IntersectionOverHypothesisAreaScorer<BoxRef, BoxHyp> s(th[r.below(5)]);
        return judge<BoxRef, BoxHyp>(m, refs, hyps, &s, "over-hypothesis");
      }
      case 1: {
        static const float th[] = {0.5f, 0.0f, 0.75f, 0.1f};
        kws::scorer::IntersectionOverUnionAreaScorer<BoxRef, BoxHyp> s(th[r.below(4)]);
        return judge<BoxRef, BoxHyp>(m, refs, hyps, &s, "over-union");
      }
      case 2: {
        kws::scorer::SoftIntersectionOverHypothesisAreaScorer<BoxRef, BoxHyp> s;
        return judge<BoxRef, BoxHyp>(m, refs, hyps, &s, "soft");
      }
      case 3: {
        kws::scorer::TrivialScorer<BoxRef, BoxHyp> s;
        return judge<BoxRef, BoxHyp>(m, refs, hyps, &s, "trivial-boxes");
      }
      default: {
        TableScorer<BoxRef, BoxHyp> s(r.next(), r.below(4));
        return judge<BoxRef, BoxHyp>(m, refs, hyps, &s, "table-boxes");
      }
    }
  } else {
    const int range = 1 + r.below(6);
    std::vector<IntRef> refs;
    std::vector<IntHyp> hyps;
    for (int i = 0; i < nr; ++i) refs.push_back(IntRef(r.in(-range, range), r.in(-range, range)));
    for (int i = 0; i < nh; ++i)
      hyps.push_back(IntHyp(r.in(-range, range), r.in(-range, range), gen_score(r, r.below(4))));
    if (r.chance(60)) {
      kws::scorer::TrivialScorer<IntRef, IntHyp> s;
      return judge<IntRef, IntHyp>(m, refs, hyps, &s, "trivial");
    }
    TableScorer<IntRef, IntHyp> s(r.next(), r.below(4));
    return judge<IntRef, IntHyp>(m, refs, hyps, &s, "table");
  }
}

int main(int argc, char **argv) { return run(argc, argv, one); }
