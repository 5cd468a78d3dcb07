// C20: used objects against fresh ones (C20_MODE=reuse), and separate objects in concurrent threads against a sequential run (C20_MODE=threads).
#include "errs.h"
#include <atomic>
#include <thread>
#include <sys/syscall.h>
#include "cmd/Parser.h"
#include "core/Bootstrapping.h"
#include "core/Statistic.h"
#include "core/TypeInfo.h"
#include "mapper/ScoredEventMapper.h"
#include "mapper/StringEventToIntMapper.h"
#include "mapper/StringToIntMapper.h"
#include "matcher/SimpleMatcher.h"
#include "reader/PlainTextReader.h"
#include "scorer/IntersectionOverHypothesisAreaScorer.h"
#include "scorer/IntersectionOverUnionAreaScorer.h"
#include "scorer/SoftBoundingBoxScorer.h"
#include "scorer/TrivialScorer.h"

using namespace mon;
using namespace kws::core;
using kws::matcher::SimpleMatcher;
using kws::reader::PlainTextReader;
using kws::scorer::Scorer;

static std::string bits(double d) { char b[40]; snprintf(b, sizeof b, "%a", d); return b; }

struct World { std::vector<BoxRef> refs; std::vector<BoxHyp> hyps; std::string rt, ht; };
static World world(Rng &r, bool tiny = false) {
  World w;
  const bool large = !tiny && r.below(40) == 0, mid = !tiny && !large && r.chance(20);
  const int style = r.below(3), docs = 1 + r.below(3), nq = 1 + r.below(large ? 60 : 3);
  for (size_t n = large ? 50 + r.below(250) : r.below(tiny ? 3 : mid ? 60 : 10); n > 0; --n) w.refs.push_back(BoxRef(str("q", r.below(nq)), gen_box(r, docs, style)));
  for (size_t n = large ? 50 + r.below(300) : r.below(tiny ? 3 : mid ? 60 : 14); n > 0; --n) {
    BoxHyp h(str("q", r.below(nq)), gen_box(r, docs, style), gen_score(r, 1 + r.below(3)));
    if (!w.refs.empty() && r.chance(60)) { const BoxRef &e = r.pick(w.refs); h.Query() = e.Query(); h.Location() = e.Location(); }
    w.hyps.push_back(h);
  }
  std::ostringstream a, b;
  for (auto &e : w.refs) a << e << "\n";
  for (auto &e : w.hyps) b << e << "\n";
  w.rt = a.str(); w.ht = b.str();
  if (r.chance(15)) w.ht += "q d 1 2 3\n";                       // and texts that fail
  if (r.chance(10)) w.rt = "# only\n\n";
  return w;
}

static std::unique_ptr<Scorer<BoxRef, BoxHyp>> scorer_of(int k) {
  typedef std::unique_ptr<Scorer<BoxRef, BoxHyp>> P;
  switch (k) {
    case 0: return P(new kws::scorer::IntersectionOverHypothesisAreaScorer<BoxRef, BoxHyp>(0.5));
    case 1: return P(new kws::scorer::IntersectionOverUnionAreaScorer<BoxRef, BoxHyp>(0.3));
    case 2: return P(new kws::scorer::SoftIntersectionOverHypothesisAreaScorer<BoxRef, BoxHyp>());
    default: return P(new kws::scorer::TrivialScorer<BoxRef, BoxHyp>());
  }
}

// A file whose content is replaced, under one name.
struct File {
  int fd; std::string path;
  File() : fd((int)syscall(SYS_memfd_create, "kws", 0u)), path(str("/proc/self/fd/", fd)) {}
  ~File() { close(fd); }
  void put(const std::string &s) { if (ftruncate(fd, 0) || pwrite(fd, s.data(), s.size(), 0) != (ssize_t)s.size()) fail("harness", "no file"); }
  File(const File &) = delete;
};

// Objects that a pipeline keeps. One step: read, match, group, all statistics, a bootstrap; everything as one text.
struct Pipeline {
  PlainTextReader<BoxRef> rr; PlainTextReader<BoxHyp> hr;
  std::unique_ptr<Scorer<BoxRef, BoxHyp>> scorer;
  SimpleMatcher<BoxRef, BoxHyp> matcher;
  std::vector<BoxRef> refs; std::vector<BoxHyp> hyps;
  std::vector<std::vector<BoxMatch>> groups;
  std::vector<double> pr, rc, px, py;
  File rf, hf;
  explicit Pipeline(int k) : scorer(scorer_of(k)), matcher(scorer.get()) {}

  std::string step(const World &w, bool col, bool interp, bool trap, size_t seed, Mon *m) {
    std::ostringstream o;
    std::istringstream ir(w.rt), ih(w.ht);
    o << rr.Read(&ir, &refs) << refs.size() << hr.Read(&ih, &hyps) << hyps.size();
    for (auto &e : refs) o << e << ";";
    for (auto &e : hyps) o << e << ";";
    rf.put(w.rt); hf.put(w.ht);
    o << "files" << rr.Read(rf.path, &refs) << refs.size() << hr.Read(hf.path, &hyps) << hyps.size();
    for (auto &e : refs) o << e << ";";
    for (auto &e : hyps) o << e << ";";
    const auto refs0 = w.refs; const auto hyps0 = w.hyps;
    const auto ms = matcher.Match(w.refs, w.hyps);
    bool same = refs0.size() == w.refs.size() && hyps0.size() == w.hyps.size();
    for (size_t i = 0; same && i < refs0.size(); ++i) same = plain(refs0[i]) == plain(w.refs[i]);
    for (size_t i = 0; same && i < hyps0.size(); ++i) same = plain((const BoxRef &)hyps0[i]) == plain((const BoxRef &)w.hyps[i]) && hyps0[i].Score() == w.hyps[i].Score();
    if (!same) o << "INPUT MODIFIED";
    for (auto &x : ms) o << show_match(x);
    o << "repeated";
    for (auto &x : matcher.GetRepeatedMatches()) o << show_match(x);
    std::map<std::string, std::string> q2g = {{"q0", "g"}, {"q1", "g"}};
    GroupMatchesByQueryGroup(ms, q2g, &groups);
    const auto keep = groups;
    for (auto &g : groups) o << "/" << g.size();
    o << bits(ComputeGlobalAP(ms, col, interp, trap)) << bits(ComputeGlobalAP(groups, col, interp, trap, true)) << bits(ComputeMeanAP(groups, col, interp, trap, false))
      << bits(ComputeGlobalNDCG(ms, col)) << bits(ComputeGlobalNDCG(groups, col, true)) << bits(ComputeMeanNDCG(groups, col, true));
    const MeanAP<BoxMatch> map(col, interp, trap);
    const GlobalNDCG<BoxMatch> gnd(col);
    o << bits(map(groups, true)) << bits(gnd(groups, false)) << bits(gnd(ms));
    ComputePrecisionAndRecall(ms, col, interp, &pr, &rc);
    GetEvenlyDistributedPoints01Interval(9, &px);
    SampleCurveAtGivenPoints(rc, pr, px, &py, trap);
    for (double x : py) o << bits(x) << ",";
    double lo = 0, hi = 0;
    if (!groups.empty())
      o << bits(ComputePercentileBootstrapCI(groups, 7, 0.3, seed, [&](const std::vector<std::vector<BoxMatch>> &s) { return map(s, true); }, &lo, &hi)) << bits(lo) << bits(hi);
    if (groups.size() != keep.size()) o << "GROUPS MODIFIED";
    for (size_t g = 0; g < keep.size() && g < groups.size(); ++g) {
      if (groups[g].size() != keep[g].size()) { o << "GROUP MODIFIED"; continue; }
      for (size_t i = 0; i < keep[g].size(); ++i) if (show_match(groups[g][i]) != show_match(keep[g][i])) o << "MATCH MODIFIED";
    }
    if (m) { m->count("matches", ms.size()); m->count("events_read", refs.size() + hyps.size()); }
    return o.str();
  }
};

// Integer events through mappers, a parser and type names: what has static or shared state.
static std::string side(Rng r) {
  std::ostringstream o;
  typedef kws::mapper::StringToIntMapper<int32_t> SM;
  SM sm;
  for (int k = r.below(20); k > 0; --k) o << sm(str("n", r.below(9))) << " ";
  SM copy(sm), assigned;
  assigned = sm;
  o << copy("n1") << assigned("new") << sm("new");
  kws::mapper::StringEventToIntMapper<int32_t> em(&sm);
  const auto e = em(Event<std::string, std::string>("n2", "n3"));
  o << (e.Query() == sm("n2")) << (e.Location() == sm("n3"));
  o << TypeInfo<bool>::Name() << TypeInfo<std::string>::Name() << TypeInfo<float>::Name() << TypeInfo<double>::Name() << TypeInfo<uint64_t>::Name()
    << TypeInfo<int8_t>::Name() << TypeInfo<int16_t>::Name() << TypeInfo<uint8_t>::Name() << TypeInfo<uint16_t>::Name() << TypeInfo<int32_t>::Name()
    << TypeInfo<int64_t>::Name() << TypeInfo<uint32_t>::Name();
  kws::cmd::Parser p("prog", "d");
  bool b = false; int i = 3; double d = 0.5; std::string s = "x"; uint64_t u = 1;
  p.RegisterOption("b", "h", &b); p.RegisterOption("i", "h", &i); p.RegisterOption("d", "h", &d); p.RegisterOption("u", "h", &u); p.RegisterArgument("s", "h", &s);
  const std::string iv = str(r.below(100)), dv = str(r.below(100), ".5");
  const char *argv[] = {"prog", "--i", iv.c_str(), "--b", "--d", dv.c_str(), "word"};
  o << p.Parse(7, argv) << i << b << d << s << p.Help();
  EventSet<BoxRef> es;
  for (int k = r.below(12); k > 0; --k) { BoxRef e(str("q", r.below(2)), gen_box(r, 2, 0)); if (r.chance(75)) es.Insert(e); else es.Remove(e); }
  o << es.Size();
  for (auto &e : es.FindOverlapping(BoxRef("q0", DocBox("d", 0, 0, 9, 9)))) o << e << ";";
  EventSet<IntRef> is;
  for (int k = r.below(12); k > 0; --k) { IntRef e(r.below(3), r.below(3)); if (r.chance(75)) is.Insert(e); else is.Remove(e); }
  o << is.Size();
  MatchesSampler<IntRef, IntHyp> sampler(r.next());
  std::vector<IntMatch> in = to_matches(gen_items(r, true, 1 + r.below(9), 2, 1, false)), out;
  sampler(in, &out);
  SortMatchesDecreasingScore(&out);
  for (auto &x : out) o << show_match(x);
  return o.str();
}

static std::string diff(const std::string &a, const std::string &b) {
  size_t i = 0;
  while (i < a.size() && i < b.size() && a[i] == b[i]) ++i;
  const size_t f = i > 60 ? i - 60 : 0;
  return str("at ", i, ": ...", a.substr(f, 160), "... against ...", b.substr(f, 160));
}

static void reuse(Rng &r, Mon &m) {
  const int k = r.below(4);
  Pipeline used(k);
  const bool lengthy = r.below(100) == 0;            // a long history of small steps
  const size_t steps = lengthy ? 270 : 2 + r.below(5);
  if (lengthy) m.count("long_histories");
  bool some = false;
  std::vector<World> past;
  std::string sizes;
  for (size_t i = 0; i < steps; ++i) {
    const World w = !past.empty() && r.chance(30) ? r.pick(past) : world(r, lengthy);
    past.push_back(w);
    const bool col = r.chance(50), interp = r.chance(50), trap = r.chance(50);
    const size_t seed = r.below(1000);
    Pipeline fresh(k);
    Capture c(std::cerr);
    const std::string a = used.step(w, col, interp, trap, seed, &m), b = fresh.step(w, col, interp, trap, seed, nullptr);
    CHECK(a == b, "used-differs-from-fresh", "scorer ", k, " step ", i, " ", diff(a, b), " references ", w.rt, " hypotheses ", w.ht);
    CHECK(a.find("MODIFIED") == std::string::npos, "input-modified", diff(a, ""), " references ", w.rt, " hypotheses ", w.ht);
    some = some || (w.refs.size() && w.hyps.size());
    m.id(a);
    m.count("steps");
  }
  const Rng s(r.next());
  const std::string a = side(s), b = side(s);
  CHECK(a == b, "history-changes-result", diff(a, b));
  if (some) m.nontrivial();
  if (m.wants_sample() && some) m.sample(str("scorer ", k, ", ", steps, " steps, the last of references ", past.back().rt, " and hypotheses ", past.back().ht));
}

static void threads(Rng &r, Mon &m) {
  const size_t T = 8;
  struct Job { std::vector<World> w; int k; uint64_t seed; std::string got, want; };
  std::vector<Job> jobs(T);
  const bool equal = r.chance(40);                  // the same inputs (by value) in all threads
  const World common_world = world(r);
  for (size_t t = 0; t < T; ++t) {
    Job &j = jobs[t];
    j.k = equal ? 0 : (int)r.below(4);
    j.seed = equal ? 5 : r.next();
    for (int n = 0; n < 3; ++n) j.w.push_back(equal ? common_world : world(r));
  }
  const uint64_t delays = r.next();
  auto work = [delays](Job *j, size_t t, bool delay) {
    Pipeline p(j->k);
    Rng d(delays + t);
    std::string o;
    for (size_t n = 0; n < j->w.size(); ++n) {
      if (delay) { if (d.chance(30)) std::this_thread::yield(); for (volatile uint64_t x = d.below(3000); x > 0; --x) {} }
      o += side(Rng(j->seed + n));
      o += p.step(j->w[n], n & 1, n & 2, (n + t) & 1, j->seed % 1000 + n, nullptr);
    }
    return o;
  };
  // A message of the reader goes through the standard stream, which may be used from several threads; what is behind it
  // here has no state.
  struct Nothing : std::streambuf {
    int overflow(int c) override { return c == EOF ? 0 : c; }
    std::streamsize xsputn(const char *, std::streamsize n) override { return n; }
    int sync() override { return 0; }
  } nothing;
  struct Restore { std::streambuf *b; ~Restore() { std::cerr.rdbuf(b); } } restore{std::cerr.rdbuf(&nothing)};
  std::atomic<size_t> ready(0);
  std::vector<uint64_t> order(T);
  std::atomic<uint64_t> ends(0);
  std::vector<std::thread> th;
  const bool first = r.chance(50);                  // sequential run before or after: static state set up by whom
  auto sequential = [&] { for (size_t t = 0; t < T; ++t) jobs[t].want = work(&jobs[t], t, false); };
  if (first) sequential();
  for (size_t t = 0; t < T; ++t)
    th.emplace_back([&, t] {
      ++ready;
      while (ready.load() < T) std::this_thread::yield();
      jobs[t].got = work(&jobs[t], t, true);
      order[t] = ends++;
    });
  for (auto &x : th) x.join();
  if (!first) sequential();
  for (size_t t = 0; t < T; ++t)
    CHECK(jobs[t].got == jobs[t].want, "concurrent-differs", "thread ", t, " ", diff(jobs[t].got, jobs[t].want));
  uint64_t h = 0;
  for (auto x : order) h = h * T + x;
  m.id(h); m.id(jobs[0].want);
  m.nontrivial();
  m.count("thread_runs", T);
  if (m.wants_sample()) m.sample(str("8 threads, order of ends ", h));
}

int main(int argc, char **argv) {
  const char *mode = getenv("C20_MODE");
  return run(argc, argv, mode && !strcmp(mode, "threads") ? threads : reuse);
}
