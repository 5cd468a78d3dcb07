// Common part of the library harnesses: seeded case loop, counters, distinct
// case hashes, samples and violation records. Everything is printed on stdout
// in a line protocol that lib/common.py reads.
#ifndef VERIF_MON_H_
#define VERIF_MON_H_

#include <algorithm>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <functional>
#include <iostream>
#include <limits>
#include <list>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <sys/mman.h>
#include <tuple>
#include <type_traits>
#include <unistd.h>
#include <unordered_map>
#include <unordered_set>
#include <utility>
#include <vector>

namespace mon {

inline uint64_t mix(uint64_t x) {
  x += 0x9e3779b97f4a7c15ULL;
  x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ULL;
  x = (x ^ (x >> 27)) * 0x94d049bb133111ebULL;
  return x ^ (x >> 31);
}

struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed) : s(seed) {}
  uint64_t next() { s += 0x9e3779b97f4a7c15ULL; return mix(s); }
  // uniform in [0, n)
  uint64_t below(uint64_t n) { return n ? next() % n : 0; }
  // uniform in [a, b]
  int64_t in(int64_t a, int64_t b) { return a + (int64_t)below((uint64_t)(b - a) + 1); }
  bool chance(unsigned percent) { return below(100) < percent; }
  double unit() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
  template <class V> const typename V::value_type &pick(const V &v) { return v[below(v.size())]; }
};

struct Violation : std::exception {
  std::string key, detail;
  Violation(const std::string &k, const std::string &d) : key(k), detail(d) {}
  const char *what() const noexcept override { return key.c_str(); }
};

struct Mon {
  std::map<std::string, uint64_t> stat;
  std::unordered_set<uint64_t> distinct;
  std::vector<std::string> samples;
  uint64_t h = 0;
  bool nontriv = false;
  void count(const std::string &k, uint64_t n = 1) { stat[k] += n; }
  // Mix what identifies the case into its hash.
  void id(uint64_t x) { h = mix(h ^ mix(x)); }
  void id(const std::string &s) { for (unsigned char c : s) h = (h ^ c) * 0x100000001b3ULL; h = mix(h); }
  void idf(double x) { uint64_t u; memcpy(&u, &x, 8); id(u); }
  void nontrivial() { nontriv = true; }
  void sample(const std::string &s) { if (samples.size() < 3) samples.push_back(s.substr(0, 600)); }
  bool wants_sample() const { return samples.size() < 3; }
};

inline void fail(const std::string &key, const std::string &detail) { throw Violation(key, detail); }

template <class... A> std::string str(const A &... a) {
  std::ostringstream o;
  o.precision(17);
  int d[] = {0, ((o << a), 0)...};
  (void)d;
  return o.str();
}

#define CHECK(cond, key, ...) \
  do { if (!(cond)) mon::fail(key, mon::str("[" #cond "] ", __VA_ARGS__)); } while (0)

inline std::string clean(std::string s) {
  std::string o;
  for (unsigned char c : s) {
    if (c == '\n') o += "\\n";
    else if (c == '\t') o += "\\t";
    else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\x%02x", c); o += b; }
    else o += (char)c;
  }
  return o.substr(0, 3000);
}

// Redirects a stream for as long as it lives.
struct Capture {
  std::ostream &os;
  std::ostringstream buf;
  std::streambuf *old;
  explicit Capture(std::ostream &o) : os(o), old(o.rdbuf(buf.rdbuf())) {}
  ~Capture() { os.rdbuf(old); }
  std::string text() const { return buf.str(); }
};

typedef void (*CaseFn)(Rng &, Mon &);

// Runs cases [start, start+cases) of the seed, or the single one of --case.
inline int run(int argc, char **argv, CaseFn fn) {
  uint64_t seed = 1, start = 0, cases = 100, one = 0;
  bool single = false;
  const char *progress = nullptr, *hashes = nullptr;
  for (int i = 1; i + 1 < argc; i += 2) {
    const std::string a = argv[i];
    if (a == "--seed") seed = strtoull(argv[i + 1], 0, 0);
    else if (a == "--start") start = strtoull(argv[i + 1], 0, 0);
    else if (a == "--cases") cases = strtoull(argv[i + 1], 0, 0);
    else if (a == "--case") { one = strtoull(argv[i + 1], 0, 0); single = true; }
    else if (a == "--progress") progress = argv[i + 1];
    else if (a == "--hashes") hashes = argv[i + 1];
  }
  volatile uint64_t *prog = nullptr;
  if (progress) {
    int fd = open(progress, O_RDWR | O_CREAT, 0644);
    if (fd >= 0 && ftruncate(fd, 8) == 0)
      prog = (volatile uint64_t *)mmap(0, 8, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
    if (prog == MAP_FAILED) prog = nullptr;
    if (fd >= 0) close(fd);
  }
  Mon m;
  uint64_t viols = 0, evals = 0;
  for (uint64_t i = single ? one : start; i < (single ? one + 1 : start + cases); ++i) {
    if (prog) *prog = i;
    m.h = 0; m.nontriv = false;
    Rng r(mix(seed * 0x51ed2701ULL + i));
    try {
      fn(r, m);
    } catch (const Violation &v) {
      printf("VIOL\t%s\t%llu\t%s\n", v.key.c_str(), (unsigned long long)i, clean(v.detail).c_str());
      if (++viols >= 5) { ++evals; break; }
    } catch (const std::exception &e) {
      printf("VIOL\tunexpected-exception\t%llu\t%s\n", (unsigned long long)i, clean(e.what()).c_str());
      if (++viols >= 5) { ++evals; break; }
    }
    ++evals;
    if (m.nontriv) m.distinct.insert(m.h);
  }
  for (auto &kv : m.stat) printf("STAT\t%s\t%llu\n", kv.first.c_str(), (unsigned long long)kv.second);
  for (auto &s : m.samples) printf("SAMPLE\t%s\n", clean(s).c_str());
  printf("EVALS\t%llu\n", (unsigned long long)evals);
  if (hashes) {
    FILE *f = fopen(hashes, "wb");
    if (f) { for (uint64_t x : m.distinct) fwrite(&x, 8, 1, f); fclose(f); }
  }
  printf("DONE\n");
  fflush(stdout);
  return 0;
}

inline bool near(double a, double b, double rel, double abs) {
  if (std::isnan(a) || std::isnan(b)) return false;
  return std::fabs(a - b) <= abs + rel * std::max(std::fabs(a), std::fabs(b));
}

}  // namespace mon

#endif
