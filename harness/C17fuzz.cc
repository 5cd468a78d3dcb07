// C17: a tool's whole main() inside libFuzzer. TOOL_SRC is the tool's source file.
// Input: option codes, then the reference, hypothesis, query-set and query-groups files, separated by 0x1E.
#define main tool_main
#include TOOL_SRC
#undef main

#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <sys/mman.h>
#include <unistd.h>
#include <vector>

static const char *const kWords[] = {
  "--collapse_matches", "--interpolated_precision", "--trapezoid_integral", "--query_set", "--dump_matches", "--query_groups", "--bootstrap_ci_gap",
  "--bootstrap_ci_map", "--bootstrap_ci_gndcg", "--bootstrap_ci_mndcg", "--bootstrap_samples", "--bootstrap_seed", "--bootstrap_alpha", "--sort", "--output_grp",
  "--output_mrp", "--rp_curve_samples", "true", "false", "0", "1", "2", "7", "0.5", "1e-300", "0.999999", "asc", "desc", "none", "@s", "@g", "@o", "@r", "@h", "@d",
  "-1", "", "--", "-", "--x", "18446744073709551615", "1.0000001", "nan", "5", "11", "@m"};
static const size_t kNumWords = sizeof kWords / sizeof *kWords;

struct Sink : std::streambuf {
  std::string s;
  int overflow(int c) override { if (c != EOF && s.size() < 100000) s += (char)c; return c == EOF ? 0 : c; }
};

static int fds[5] = {-1, -1, -1, -1, -1};
static std::string path_of(int k) { char b[40]; snprintf(b, sizeof b, "/proc/self/fd/%d", fds[k]); return b; }

extern "C" int LLVMFuzzerInitialize(int *, char ***) {
  for (int k = 0; k < 5; ++k) fds[k] = memfd_create("f", 0);
  dup2(fds[1], 0);
  return 0;
}

extern "C" int LLVMFuzzerTestOneInput(const uint8_t *data, size_t size) {
  std::vector<std::string> part(1);
  for (size_t i = 0; i < size; ++i)
    if (data[i] == 0x1E && part.size() < 5) part.emplace_back(); else part.back() += (char)data[i];
  part.resize(5);
  for (int k = 0; k < 4; ++k) {
    if (ftruncate(fds[k], 0) || pwrite(fds[k], part[k + 1].data(), part[k + 1].size(), 0) != (ssize_t)part[k + 1].size()) abort();
  }
  if (ftruncate(fds[4], 0)) abort();
  std::vector<std::string> w = {"tool", "--bootstrap_samples", "5", "--rp_curve_samples", "7"};
  for (unsigned char c : part[0]) {
    if (w.size() > 24) break;
    std::string x = kWords[c % kNumWords];
    if (x == "@s") x = path_of(2); else if (x == "@g") x = path_of(3); else if (x == "@o") x = path_of(4);
    else if (x == "@r") x = path_of(0); else if (x == "@h") x = path_of(1); else if (x == "@d") x = "/proc/self"; else if (x == "@m") x = "missing/file";
    // infeasible sample counts are left out
    if ((w.back() == "--bootstrap_samples" || w.back() == "--rp_curve_samples") && x.size() > 3 && x.find_first_not_of("0123456789") == std::string::npos) x = "9";
    // the tool must not write over its inputs while it reads them
    if ((w.back() == "--dump_matches" || w.back() == "--output_grp" || w.back() == "--output_mrp") && x.compare(0, 6, "/proc/") == 0) x = path_of(4);
    w.push_back(x);
  }
  // An odd code keeps the usual arguments out.
  if (part[0].empty() || (unsigned char)part[0].back() < 200) { w.push_back(path_of(0)); if (part[0].size() % 3) w.push_back(path_of(1)); }
  std::vector<const char *> argv;
  for (auto &x : w) argv.push_back(x.c_str());
  if (getenv("KWS_SHOW")) {
    for (auto &x : w) fprintf(stderr, "ARG '%s'\n", x.c_str());
    for (int k = 1; k < 5; ++k) fprintf(stderr, "FILE %d (%s): %s\n", k, path_of(k - 1).c_str(), part[k].c_str());
  }
  const size_t n = argv.size();
  const char **exact = (const char **)malloc(n * sizeof *exact);     // nothing behind the last word
  memcpy(exact, argv.data(), n * sizeof *exact);
  rewind(stdin);
  std::cin.clear(); std::cout.clear(); std::cerr.clear();
  Sink out, err;
  std::streambuf *o = std::cout.rdbuf(&out), *e = std::cerr.rdbuf(&err);
  const int status = tool_main((int)n, exact);
  std::cout.rdbuf(o); std::cerr.rdbuf(e);
  free(exact);
  if (status != 0 && status != 1) { fprintf(stderr, "BAD STATUS %d\n", status); abort(); }
  if (status == 1 && err.s.find("ERROR") == std::string::npos) { fprintf(stderr, "SILENT FAILURE\n"); abort(); }
  if (status == 0) {
    size_t lines = 0;
    for (char c : out.s) lines += c == '\n';
    if (lines != 4) { fprintf(stderr, "STATUS 0 WITH %zu LINES: %s\n", lines, out.s.c_str()); abort(); }
  }
  return 0;
}
