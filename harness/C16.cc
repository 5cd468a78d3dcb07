// C16: name tables against a map of first appearances, through every kind of mapper sharing them.
#include "ev.h"
#include "mapper/ScoredEventMapper.h"
#include "mapper/StringEventToIntMapper.h"
#include "mapper/StringToIntMapper.h"
using namespace mon;
using namespace kws::mapper;
using kws::core::Event;
using kws::core::ScoredEvent;

static std::string word(Rng &r, int pool) {
  static const std::vector<std::string> odd = {"", " ", "0", "-1", "1", "a", "A", "a ", std::string("a\0b", 3), std::string("a\0", 2), "\xff", "\xc3\xa9",
    "a name longer than small strings", "a name longer than small strings ", "q"};
  const unsigned k = r.below(pool);
  if (k < odd.size() && r.chance(80)) return odd[k];
  if (k % 7 == 3) return std::string(60 + 100 * (k % 3), 'p') + std::string(k % 14 == 3 ? 4000 : 0, 'p') + str(k);   // alike for long
  if (k % 7 == 4) return str(k) + std::string(60 + 100 * (k % 3), 's');
  return str("w", k);
}

template <class Int> struct Model {
  std::map<std::string, Int> m;
  static constexpr uint64_t cap() { return (uint64_t)std::numeric_limits<Int>::max() + (std::numeric_limits<Int>::max() == std::numeric_limits<uint64_t>::max() ? 0 : 1); }
  bool known(const std::string &s) const { return m.count(s) > 0; }
  bool full() const { return m.size() >= cap(); }
  Int get(const std::string &s) { return m.emplace(s, (Int)m.size()).first->second; }
};

template <class Int> void table(Rng &r, Mon &m, const char *ty) {
  typedef StringToIntMapper<Int> Names;
  typedef StringEventToIntMapper<Int> Events;
  typedef ScoredEventMapper<Events> Scored;
  typedef Event<std::string, std::string> SE;
  const bool fill = sizeof(Int) == 1 && r.chance(60);
  const int pool = fill ? 600 : 1 + r.below(r.chance(20) ? 400 : 30);
  const int steps = fill ? 900 : 5 + r.below(r.chance(10) ? 600 : 60);
  // an owning table first, so that the copies stay valid as long as it
  std::unique_ptr<Names> root(new Names());
  std::vector<std::unique_ptr<Names>> names;
  names.emplace_back(new Names(*root));
  Events by_table(root.get());
  Events by_copy(by_table);
  Events owner;                       // with a table of its own
  Events borrowed(owner);
  Model<Int> model, own_model;
  uint64_t thrown = 0, fresh = 0, repeated = 0;
  std::string hist = ty;
  auto expect = [&](Model<Int> &md, const std::string &w, const std::function<Int()> &f, const char *how) {
    const bool must_throw = !md.known(w) && md.full();
    bool did = false;
    Int got = 0;
    const size_t before = md.m.size();
    try { got = f(); } catch (const std::range_error &) { did = true; }
    CHECK(did == must_throw, must_throw ? "no-range-error" : "range-error", ty, " ", how, " after ", before, " names, known ", md.known(w), " word '", w, "'");
    if (did) { ++thrown; return; }
    (md.known(w) ? repeated : fresh)++;
    const Int want = md.get(w);
    CHECK(got == want, "number", ty, " ", how, " '", w, "' got ", (long long)got, " want ", (long long)want, " after ", before, " names");
  };
  for (int i = 0; i < steps; ++i) {
    const unsigned t = r.below(100);
    if (t < 55) {
      const std::string w = word(r, pool);
      Names &n = r.chance(40) ? *root : *r.pick(names);
      expect(model, w, [&] { return n(w); }, "name");
      m.id(w);
    } else if (t < 62 && names.size() < 6) {
      names.emplace_back(new Names(r.chance(50) ? *root : *r.pick(names)));
      m.count("copies");
    } else if (t < 66 && names.size() > 1) {
      names.erase(names.begin() + r.below(names.size()));   // dropping a copy changes nothing
      m.count("copies_dropped");
    } else if (t < 70) {
      Names &n = *r.pick(names);
      if (r.chance(30)) n = n; else n = r.chance(50) ? *root : *r.pick(names);
      m.count("assignments");
    } else if (t < 72) {
      Names other;                                           // an owner that is made to share
      other("x"); other("y");
      other = *root;
      const std::string w = word(r, pool);
      expect(model, w, [&] { return other(w); }, "assigned");
    } else {
      // Events: query and location share the table. Their order of appearance is not specified if both are new:
      // make one of them known first.
      Model<Int> &md = r.chance(70) ? model : own_model;
      Events &ev = &md == &model ? (r.chance(50) ? by_table : by_copy) : (r.chance(50) ? owner : borrowed);
      const std::string q = word(r, pool), l = r.chance(20) ? q : word(r, pool);
      const bool two_new = !md.known(q) && !md.known(l) && q != l;
      const float s = gen_score(r, r.below(4));
      const bool scored = r.chance(50);
      Event<Int, Int> out;
      float so = s;
      const size_t before = md.m.size();
      const bool must_throw = md.m.size() + (!md.known(q)) + (!md.known(l) && l != q) > Model<Int>::cap();
      bool did = false;
      try {
        if (scored) { const ScoredEvent<Event<Int, Int>> o = Scored(&ev)(ScoredEvent<SE>(SE(q, l), s)); out = o; so = o.Score(); }
        else out = ev(SE(q, l));
      } catch (const std::range_error &) { did = true; }
      CHECK(did == must_throw, must_throw ? "event-no-range-error" : "event-range-error", ty, " after ", before, " names");
      if (did) {
        ++thrown;
        if (two_new && md.m.size() < Model<Int>::cap()) {    // one of the two may have taken the last number
          Names probe(*ev.GetMapper());
          bool has_q = true;
          try { probe(q); } catch (const std::range_error &) { has_q = false; }
          md.get(has_q ? q : l);
        }
        continue;
      }
      if (two_new) {
        const Int a = out.Query(), b = out.Location();
        CHECK((a == (Int)before && b == (Int)(before + 1)) || (b == (Int)before && a == (Int)(before + 1)), "event-new-numbers",
              ty, " got ", (long long)a, " ", (long long)b, " after ", before, " names");
        md.get(a < b ? q : l); md.get(a < b ? l : q);
        fresh += 2;
      } else {
        const Int wq = md.known(q) || q == l || !md.known(q) ? md.get(q) : 0;
        const Int wl = md.get(l);
        CHECK(out.Query() == wq && out.Location() == wl, "event-numbers", ty, " '", q, "' '", l, "' got ", (long long)out.Query(), " ",
              (long long)out.Location(), " want ", (long long)wq, " ", (long long)wl);
      }
      CHECK(memcmp(&so, &s, 4) == 0, "event-score", ty, " ", so, " want ", s);
      m.count(scored ? "scored_events" : "events");
      m.id(q); m.id(l);
    }
  }
  // Everything seen keeps its number, through every mapper.
  for (auto &kv : model.m) {
    CHECK((*root)(kv.first) == kv.second, "stable", ty, " '", kv.first, "'");
    CHECK((*r.pick(names))(kv.first) == kv.second, "stable-copy", ty, " '", kv.first, "'");
  }
  std::set<Int> values;
  for (auto &kv : model.m) { CHECK(kv.second >= 0, "negative", ty); values.insert(kv.second); }
  CHECK(values.size() == model.m.size(), "injective", ty);
  if (fill && model.full()) {
    bool did = false;
    try { (*root)("a name never seen before"); } catch (const std::range_error &) { did = true; }
    CHECK(did, "no-range-error", ty, " full");
    m.count("filled_tables");
  }
  m.id(hist); m.id(model.m.size());
  m.count("new_names", fresh); m.count("names_seen_again", repeated); m.count("range_errors", thrown);
  if (fresh > 2 && repeated > 1) m.nontrivial();
  if (m.wants_sample()) m.sample(str(ty, ": ", steps, " steps, ", model.m.size(), " names, ", thrown, " range errors"));
}

// The whole range of 16-bit integers, rarely.
template <class Int> void whole_range(Mon &m, const char *ty) {
  StringToIntMapper<Int> n;
  const uint64_t cap = (uint64_t)std::numeric_limits<Int>::max() + 1;
  for (uint64_t i = 0; i < cap; ++i) {
    const Int v = n(str("n", i));
    CHECK((uint64_t)v == i, "number", ty, " ", i, " got ", (long long)v);
  }
  for (int k = 0; k < 3; ++k) {
    bool did = false;
    try { n(str("more", k)); } catch (const std::range_error &) { did = true; }
    CHECK(did, "no-range-error", ty, " full");
  }
  for (uint64_t i = 0; i < cap; i += 97) CHECK((uint64_t)n(str("n", i)) == i, "stable", ty, " ", i);
  m.id(ty); m.nontrivial();
  m.count("whole_ranges");
}

// More names than 16 bits number, in wider tables.
template <class Int> void many_names(Rng &r, Mon &m, const char *ty) {
  StringToIntMapper<Int> n, copy(n);
  StringEventToIntMapper<Int> ev(&n);
  const uint64_t total = 66000 + r.below(80000);
  auto w = [](uint64_t i) { return str("name ", i * 2654435761u % 4294967291u, "/", i); };
  uint64_t next = 0;
  std::vector<std::unique_ptr<StringToIntMapper<Int>>> late;     // made of a table that is large already
  while (next < total) {
    const unsigned t = r.below(10);
    if (r.below(9000) == 0 && late.size() < 8) {
      late.emplace_back(new StringToIntMapper<Int>(r.chance(70) || late.empty() ? n : *r.pick(late)));
      if (r.chance(40)) { late.back().reset(new StringToIntMapper<Int>()); (*late.back())("something else"); *late.back() = n; }
      m.count("late_copies");
    }
    if (!late.empty() && r.below(200) == 0) {                    // new through a late copy, then seen by all
      CHECK((uint64_t)(*r.pick(late))(w(next)) == next && (uint64_t)n(w(next)) == next, "late-copy", ty, " ", next);
      ++next;
      const uint64_t k = r.below(next);
      CHECK((uint64_t)(*r.pick(late))(w(k)) == k, "late-copy-stable", ty, " ", k);
      continue;
    }
    if (t < 7) {
      const Int v = (t & 1 ? copy : n)(w(next));
      CHECK((uint64_t)v == next, "number", ty, " ", next, " got ", (long long)v);
      ++next;
    } else if (t < 9) {
      const std::string q = w(next);                          // a new location of a known query, or the same name twice
      const std::string l = next && r.chance(50) ? w(r.below(next)) : q;
      const auto e = ev(Event<std::string, std::string>(q, l));
      CHECK((uint64_t)e.Query() == next, "event-number", ty, " ", next, " got ", (long long)e.Query());
      CHECK(l != q || e.Location() == e.Query(), "event-number", ty, " twice ", q);
      ++next;
    } else if (next) {
      const uint64_t k = r.below(next);
      CHECK((uint64_t)(r.chance(50) ? copy : n)(w(k)) == k, "stable", ty, " ", k);
    }
  }
  for (uint64_t i = 0; i < total; i += 13) CHECK((uint64_t)n(w(i)) == i, "stable", ty, " ", i);
  m.id(ty); m.id(total); m.nontrivial();
  m.count("tables_of_many_names"); m.count("new_names", total);
}

// More names than single precision counts.
static void giant(Rng &r, Mon &m) {
  StringToIntMapper<uint32_t> n, copy(n);
  const uint64_t total = (1u << 24) + 70000 + r.below(1000);
  char w[32];
  auto word = [&](uint64_t i) { snprintf(w, sizeof w, "%llx", (unsigned long long)i * 7); return std::string(w); };
  for (uint64_t i = 0; i < total; ++i) {
    const uint64_t v = (i & 1 ? copy : n)(word(i));
    CHECK(v == i, "number", "uint32 ", i, " got ", v);
  }
  for (uint64_t i = 0; i < total; i += 1009) CHECK(n(word(i)) == i, "stable", "uint32 ", i);
  for (uint64_t i = total - 1000; i < total; ++i) CHECK(copy(word(i)) == i, "stable", "uint32 ", i);
  m.id("giant"); m.id(total); m.nontrivial();
  m.count("tables_of_millions"); m.count("new_names", total);
}

static void one(Rng &r, Mon &m) {
  if (getenv("VERIF_GIANT")) return giant(r, m);
  if (r.below(400) == 0)
    switch (r.below(4)) {
      case 0: return many_names<int32_t>(r, m, "int32");
      case 1: return many_names<uint32_t>(r, m, "uint32");
      case 2: return many_names<int64_t>(r, m, "int64");
      default: return many_names<uint64_t>(r, m, "uint64");
    }
  if (r.below(400) == 0) { if (r.chance(50)) whole_range<int16_t>(m, "int16"); else whole_range<uint16_t>(m, "uint16"); return; }
  switch (r.below(9)) {
    case 0: table<int8_t>(r, m, "int8"); break;
    case 1: table<uint8_t>(r, m, "uint8"); break;
    case 2: table<int16_t>(r, m, "int16"); break;
    case 3: table<uint16_t>(r, m, "uint16"); break;
    case 4: table<int32_t>(r, m, "int32"); break;
    case 5: table<uint32_t>(r, m, "uint32"); break;
    case 6: table<int64_t>(r, m, "int64"); break;
    case 7: table<uint64_t>(r, m, "uint64"); break;
    default: table<int32_t>(r, m, "int32");
  }
}
int main(int argc, char **argv) { return run(argc, argv, one); }
