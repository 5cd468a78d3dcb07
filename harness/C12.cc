// C12: bootstrap samplers, observed sample by sample and over many draws.
#include "errs.h"
#include "core/Bootstrapping.h"
using namespace mon;
using namespace kws::core;

typedef std::vector<IntMatch> Flat;
typedef std::vector<Flat> Groups;

// Every match has its own id, kept in the location.
static IntMatch make(Rng &r, int id, int q) {
  const unsigned t = r.below(3);
  IntMatch m(t == 1 ? 1.0f : (float)r.below(4) / 8, t == 2 ? 1.0f : (float)r.below(4) / 8);
  if (t != 2) m.SetHyp(IntHyp(q, id, gen_score(r, 1)));
  if (t != 1) m.SetRef(IntRef(q, id));
  return m;
}
static int id_of(const IntMatch &m) { return m.HasHyp() ? m.GetHyp().Location() : m.GetRef().Location(); }

static std::string ids(const Flat &f) { std::string o; for (auto &m : f) o += str(id_of(m), " "); return o.substr(0, 300); }

// Is the count of a draw of probability p, over n draws, within reach of chance?
static bool plausible(uint64_t k, uint64_t n, double p) { return std::fabs(k - n * p) <= 7.0 * std::sqrt(n * p * (1 - p)) + 4; }

static std::vector<int> trace(const Groups &g) {
  std::vector<int> o;
  for (auto &x : g) { o.push_back(-1); for (auto &m : x) o.push_back(id_of(m)); }
  return o;
}
static std::vector<int> trace(const Flat &f) { std::vector<int> o; for (auto &m : f) o.push_back(id_of(m)); return o; }

template <class C, class S> void reproducible(Rng &r, Mon &m, const C &orig, uint64_t seed, bool varied) {
  // another seed: near, or differing in a single bit
  uint64_t seed2 = seed < 1000 ? seed + 1 + r.below(1000) : seed - 1 - r.below(998);
  if (r.chance(60)) { const uint64_t s = seed ^ (1ull << r.below(31)); if (s >= 1 && s <= 2147483645) seed2 = s; }
  S a(seed), b(seed), c(seed2);
  bool succ = false, other = false;
  std::vector<int> prev;
  for (int k = 0; k < 6; ++k) {
    C x, y, z;
    a(orig, &x);
    b(orig, &y);
    c(orig, &z);
    CHECK(trace(x) == trace(y), "same-seed", "seed ", seed, " sample ", k);
    other |= trace(x) != trace(z);
    if (k) succ |= trace(x) != prev;
    prev = trace(x);
  }
  if (varied) {
    CHECK(succ, "successive-samples-equal", "seed ", seed);
    CHECK(other, "seeds-equal", "seeds ", seed, " ", seed2);
    m.count("seed_pairs");
  }
}

static void grouped(Rng &r, Mon &m) {
  const bool mid = r.below(50) == 0;             // every match of groups of a few hundred
  const bool wide = mid && r.chance(40);         // or thousand
  const int n = wide ? 1 + r.below(2) : mid ? 1 + r.below(4) : r.chance(5) ? 0 : 1 + r.below(8);
  Groups g;
  std::vector<int> group_of;
  int id = 0;
  const bool large = !mid && r.below(50) == 0;
  std::vector<int> first;                        // id of the first match of a group
  for (int i = 0; i < n; ++i) {
    g.emplace_back();
    const int k = wide ? 200 + (int)r.below(r.chance(50) ? 2400 : 900) : mid ? 20 + (int)r.below(180) : large ? (int)r.below(n < 3 ? 9000 : 3000) : r.chance(10) ? r.below(40) : r.below(6);
    first.push_back(id);
    for (int j = 0; j < k; ++j) { g.back().push_back(make(r, id++, i)); group_of.push_back(i); }
  }
  if (large) m.count("large_groups");
  Groups keep = g;
  const uint64_t seed = 1 + r.below(2147483645);
  MatchesByQuerySampler<IntRef, IntHyp> s(seed);
  std::string at = str("seed ", seed, " groups ");
  for (auto &x : g) at += str(x.size(), " ");
  const int draws = large ? 6 : wide ? 80 : mid ? 400 : r.chance(8) ? 1500 : 12;
  std::vector<uint64_t> drawn(n, 0), picked(id, 0), from(n, 0);
  uint64_t repeated = 0, chosen = 0;
  std::map<std::pair<int, int>, uint64_t> held;   // (place, group it holds)
  for (int k = 0; k < draws; ++k) {
    Groups out;
    if (r.chance(50)) { out.resize(r.below(2 * n + 2)); for (auto &x : out) x.resize(r.below(3)); m.count("dirty_outputs"); }
    s(g, &out);
    CHECK(out.size() == g.size(), "group-count", out.size(), " want ", g.size(), " ", at);
    for (size_t place = 0; place < out.size(); ++place) {
      auto &x = out[place];
      ++chosen;
      if (x.empty()) {
        bool any = false;
        for (auto &y : g) any |= y.empty();
        CHECK(any, "empty-group", "an empty group, none is empty; ", at);
        continue;
      }
      const int i0 = id_of(x[0]);
      CHECK(i0 >= 0 && i0 < id, "alien-match", i0, " ", at);
      const int src = group_of[i0];
      CHECK(x.size() == g[src].size(), "group-size", x.size(), " want ", g[src].size(), " ", at);
      ++drawn[src]; ++held[std::make_pair((int)place, src)];
      std::set<int> seen;
      for (auto &mm : x) {
        const int i1 = id_of(mm);
        CHECK(i1 >= 0 && i1 < id, "alien-match", i1, " ", at);
        CHECK(group_of[i1] == src, "mixed-groups", ids(x), " ", at);
        CHECK(same_match(g[src][i1 - first[src]], mm), "altered-match", i1, " ", at);
        if (!seen.insert(i1).second) ++repeated;
        ++picked[i1]; ++from[src];
      }
      // 24! / 24^24 is less than 1e-9
      if (x.size() >= 24) { CHECK(seen.size() < x.size(), "match-never-twice", "in a sample of ", x.size(), " ", at); m.count("long_group_samples"); }
    }
  }
  CHECK(same_groups(g, keep), "original-modified", at);
  // by position: every eighth of a large group is drawn as often as the others
  for (int i = 0; i < n && large; ++i) {
    const size_t gs = g[i].size();
    if (gs < 200 || from[i] < 500) continue;
    uint64_t part[8] = {0};
    size_t width[8] = {0};
    for (size_t j = 0; j < gs; ++j) { part[j * 8 / gs] += picked[first[i] + j]; ++width[j * 8 / gs]; }
    for (int k = 0; k < 8; ++k)
      CHECK(plausible(part[k], from[i], (double)width[k] / gs), "part-frequency", "group ", i, " part ", k, " drawn ", part[k], " of ", from[i], " ", at);
    m.count("part_frequency_tests");
  }
  // of m matches one is drawn by none of m * k draws with probability exp(-k)
  for (int i = 0; i < n && wide; ++i) {
    if (from[i] < 35 * g[i].size()) continue;
    for (auto &mm : g[i]) CHECK(picked[id_of(mm)] > 0, "match-never-drawn", "match ", id_of(mm) - first[i], " of group ", i, " in ", from[i], " draws, ", at);
    m.count("whole_group_tests");
  }
  if (draws >= 400) {
    for (int i = 0; i < n; ++i) {
      if (!g[i].empty()) CHECK(plausible(drawn[i], chosen, 1.0 / n), "group-frequency", "group ", i, " drawn ", drawn[i], " of ", chosen, " ", at);
      for (auto &mm : g[i])
        CHECK(plausible(picked[id_of(mm)], from[i], 1.0 / g[i].size()), "match-frequency", "match ", id_of(mm), " drawn ", picked[id_of(mm)], " of ", from[i], " ", at);
    }
    for (int i = 0; i < n; ++i)
      for (int j = 0; j < n; ++j)
        if (!g[j].empty())
          CHECK(plausible(held[std::make_pair(i, j)], draws, 1.0 / n), "place-frequency", "place ", i, " held group ", j, " ", held[std::make_pair(i, j)], " times of ", draws, " ", at);
    m.count("frequency_tests", 1);
    if (id > n && n) CHECK(repeated > 0, "no-repetition", at);
  }
  bool varied = id >= 8 && n >= 2;
  reproducible<Groups, MatchesByQuerySampler<IntRef, IntHyp>>(r, m, g, seed, varied);
  if (n >= 2 && id >= 3) m.nontrivial();
  m.id(at); m.id(id);
  m.count("samples", draws); m.count("repeated_draws", repeated);
  if (m.wants_sample()) m.sample(str(at, draws, " samples, ", repeated, " repeated draws"));
}

// Many groups: some group is drawn twice, others are not drawn, and no place is bound to one group.
static void many_groups(Rng &r, Mon &m) {
  const int n = 24 + (int)r.below(r.chance(20) ? 5000 : 200);
  Groups g(n);
  int id = 0;
  for (int i = 0; i < n; ++i) { const int k = 1 + (int)r.below(3); for (int j = 0; j < k; ++j) g[i].push_back(make(r, id++, i)); }
  std::vector<int> group_of;
  for (int i = 0; i < n; ++i) group_of.insert(group_of.end(), g[i].size(), i);
  const uint64_t seed = 1 + r.below(2147483645);
  const std::string at = str("seed ", seed, " ", n, " groups of ", id, " matches");
  MatchesByQuerySampler<IntRef, IntHyp> s(seed);
  uint64_t in_place = 0, lower = 0, draws = 8;
  for (uint64_t k = 0; k < draws; ++k) {
    Groups out;
    s(g, &out);
    CHECK((int)out.size() == n, "group-count", out.size(), " want ", n, " ", at);
    std::set<int> seen;
    for (int i = 0; i < n; ++i) {
      CHECK(!out[i].empty(), "empty-group", at);
      const int i0 = id_of(out[i][0]);
      CHECK(i0 >= 0 && i0 < id, "alien-match", i0, " ", at);
      const int src = group_of[i0];
      CHECK(out[i].size() == g[src].size(), "group-size", out[i].size(), " want ", g[src].size(), " ", at);
      for (auto &mm : out[i]) CHECK(id_of(mm) >= 0 && id_of(mm) < id && group_of[id_of(mm)] == src, "mixed-groups", ids(out[i]), " ", at);
      seen.insert(src);
      in_place += src == i; lower += src < n / 2;
    }
    CHECK((int)seen.size() < n, "group-never-twice", at);
  }
  CHECK(plausible(in_place, draws * n, 1.0 / n), "place-bound", in_place, " of ", draws * n, " ", at);
  CHECK(plausible(lower, draws * n, (double)(n / 2) / n), "part-frequency", lower, " of ", draws * n, " in the first half ", at);
  m.nontrivial();
  m.id(at);
  m.count("many_groups"); m.count("samples", draws);
}

static void flat(Rng &r, Mon &m) {
  const bool large = r.below(40) == 0;
  const bool mid = !large && r.below(25) == 0;
  const int n = large ? (int)large_size(r) / 2 : mid ? 40 + (int)r.below(300) : r.chance(5) ? 0 : 1 + r.below(12);
  Flat f;
  for (int i = 0; i < n; ++i) f.push_back(make(r, i, r.below(3)));
  const Flat keep = f;
  const uint64_t seed = 1 + r.below(2147483645);
  MatchesSampler<IntRef, IntHyp> s(seed);
  const std::string at = str("seed ", seed, " flat ", n);
  const int draws = large ? 2 : mid ? 300 : r.chance(8) ? 2000 : 12;
  std::vector<uint64_t> picked(n, 0);
  std::map<std::pair<int, int>, uint64_t> joint;
  uint64_t repeated = 0;
  for (int k = 0; k < draws; ++k) {
    Flat out;
    if (r.chance(50)) { out.resize(r.below(2 * n + 2)); m.count("dirty_outputs"); }
    s(f, &out);
    CHECK((int)out.size() == n, "sample-size", out.size(), " want ", n, " ", at);
    std::set<int> seen;
    for (auto &mm : out) {
      CHECK(mm.HasHyp() || mm.HasRef(), "alien-match", "an empty match; ", at);
      const int i = id_of(mm);
      CHECK(i >= 0 && i < n, "alien-match", i, " ", at);
      CHECK(same_match(f[i], mm), "altered-match", i, " ", at);
      repeated += !seen.insert(i).second;
      ++picked[i];
    }
    if (n >= 24) CHECK((int)seen.size() < n, "match-never-twice", at);
    if (n >= 2) ++joint[std::make_pair(id_of(out[0]), id_of(out[1]))];
  }
  CHECK(same_matches(f, keep), "original-modified", at);
  if (large) {
    uint64_t part[8] = {0}, width[8] = {0};
    for (int64_t j = 0; j < n; ++j) { part[j * 8 / n] += picked[j]; ++width[j * 8 / n]; }
    for (int k = 0; k < 8; ++k)
      CHECK(plausible(part[k], (uint64_t)draws * n, (double)width[k] / n), "part-frequency", "part ", k, " drawn ", part[k], " of ", draws * n, " ", at);
    m.count("part_frequency_tests");
  }
  if (draws >= 300) {
    for (int i = 0; i < n; ++i)
      CHECK(plausible(picked[i], (uint64_t)draws * n, 1.0 / n), "match-frequency", "match ", i, " drawn ", picked[i], " of ", draws * n, " ", at);
    if (n >= 2 && !mid)
      for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j)
        CHECK(plausible(joint[std::make_pair(i, j)], draws, 1.0 / n / n), "pair-frequency", "matches ", i, " ", j, " ", joint[std::make_pair(i, j)], " of ", draws, " ", at);
    if (n >= 2) CHECK(repeated > 0, "no-repetition", at);
    m.count("frequency_tests");
  }
  reproducible<Flat, MatchesSampler<IntRef, IntHyp>>(r, m, f, seed, n >= 8);
  if (n >= 3) m.nontrivial();
  m.id(at);
  m.count("samples", draws); m.count("repeated_draws", repeated);
}

static void one(Rng &r, Mon &m) { if (r.chance(3)) many_groups(r, m); else if (r.chance(65)) grouped(r, m); else flat(r, m); }
int main(int argc, char **argv) { return run(argc, argv, one); }
