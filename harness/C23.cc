// C23: the help text of random programs, and --help.
#include "cmdline.h"
#include <sys/wait.h>
using namespace mon;

static std::vector<std::string> lines_of(const std::string &s) {
  std::vector<std::string> o;
  std::string l;
  for (char c : s) if (c == '\n') { o.push_back(l); l.clear(); } else l += c;
  if (!l.empty()) o.push_back(l);
  return o;
}
static std::string squeeze(const std::string &s) {
  std::string o;
  for (char c : s) if (!isspace((unsigned char)c)) o += c; else if (!o.empty() && o.back() != ' ') o += ' ';
  while (!o.empty() && o.back() == ' ') o.pop_back();
  return o;
}
static std::string trim(std::string s) {
  while (!s.empty() && s.back() == ' ') s.pop_back();
  size_t i = 0;
  while (i < s.size() && s[i] == ' ') ++i;
  return s.substr(i);
}

struct Program {
  std::vector<std::unique_ptr<Var>> vars;
  std::map<std::string, Var *> opts;
  std::vector<Var *> args, oargs;
  std::string prog, desc, at;
  std::unique_ptr<Parser> p;
};

// One line of the help: name, padding, colon, help text, type and value.
static void line(const std::string &l, const std::string &name, Var *v, bool option, size_t *column, const std::string &at) {
  const std::string t = trim(l);
  CHECK(t.compare(0, name.size(), name) == 0, "line-name", "line '", l, "' want ", name, " in\n", at);
  size_t i = name.size();
  while (i < t.size() && t[i] == ' ') ++i;
  CHECK(i < t.size() && t[i] == ':' && i > name.size(), "line-separator", "line '", l, "' want ", name, " in\n", at);
  const size_t col = l.find(t) + i;
  if (*column == 0) *column = col;
  CHECK(*column == col, "line-padding", "line '", l, "' column ", col, " others ", *column, " in\n", at);
  const std::string rest = trim(t.substr(i + 1));
  const std::string help = trim(v->help);
  CHECK(rest.compare(0, help.size(), help) == 0, "line-help", "line '", l, "' want help '", v->help, "' in\n", at);
  std::string tail = trim(rest.substr(help.size()));
  const std::string open = "(type = ";
  CHECK(tail.compare(0, open.size(), open) == 0 && tail.back() == ')', "line-type", "line '", l, "' in\n", at);
  tail = tail.substr(open.size());
  std::string type = tail.substr(0, tail.find_first_of(",)"));
  if (v->type()) CHECK(type == v->type(), "line-type", "type ", type, " want ", v->type(), " line '", l, "' in\n", at);
  else CHECK(!type.empty(), "line-type", "no type, line '", l, "' in\n", at);
  tail = tail.substr(type.size());
  const std::string want = option ? ", value = \"" + v->current() + "\")" : ")";
  CHECK(tail == want, "line-value", "'", tail, "' want '", want, "' line '", l, "' in\n", at);
}

static void judge(Mon &m, const Program &g, const std::string &text) {
  const std::string at = text + "\n(" + g.at + ")";
  const auto ls = lines_of(text);
  size_t i = 0;
  CHECK(!ls.empty(), "empty", at);
  // Usage.
  std::string usage = g.prog;
  std::string want = "";
  for (auto a : g.args) want += " " + a->name;
  for (auto a : g.oargs) want += " [ " + a->name;
  for (size_t k = 0; k < g.oargs.size(); ++k) want += " ]";
  const std::string u = squeeze(ls[0]), pre = squeeze("Usage: " + g.prog);
  CHECK(u.compare(0, pre.size(), pre) == 0, "usage-program", "'", ls[0], "' want ", g.prog, "\n", at);
  const std::string w = squeeze(want);
  const std::string rest = trim(u.substr(pre.size()));
  if (g.opts.empty()) CHECK(rest == trim(w), "usage", "'", ls[0], "' want '", want, "'\n", at);
  else CHECK(rest.size() >= trim(w).size() && rest.compare(rest.size() - trim(w).size(), std::string::npos, trim(w)) == 0 &&
             trim(rest.substr(0, rest.size() - trim(w).size())) == "[ options ]", "usage", "'", ls[0], "' want '[ options ]", want, "'\n", at);
  i = 1;
  // The description.
  if (!g.desc.empty()) {
    const size_t a = text.find(g.desc);
    CHECK(a != std::string::npos, "description", "no description\n", at);
  }
  // Arguments, then options: the last lines are theirs.
  std::vector<std::pair<std::string, Var *>> rows;
  for (auto a : g.args) rows.push_back({a->name, a});
  for (auto a : g.oargs) rows.push_back({a->name, a});
  const size_t nargs = rows.size();
  for (auto &o : g.opts) rows.push_back({"--" + o.first, o.second});
  std::vector<std::string> got;
  size_t arg_head = 0, opt_head = 0;
  for (; i < ls.size(); ++i) {
    const std::string t = trim(ls[i]);
    if (t == "Arguments:") { arg_head = got.size() + 1; continue; }
    if (t == "Options:") { opt_head = got.size() + 1; continue; }
    if ((arg_head || opt_head) && !t.empty()) got.push_back(ls[i]);
  }
  CHECK(got.size() == rows.size(), "lines", got.size(), " lines want ", rows.size(), "\n", at);
  if (nargs) CHECK(arg_head == 1, "arguments-heading", at); else CHECK(arg_head == 0, "arguments-heading", at);
  if (!g.opts.empty()) CHECK(opt_head == nargs + 1, "options-heading", at); else CHECK(opt_head == 0, "options-heading", at);
  size_t column = 0;
  for (size_t k = 0; k < rows.size(); ++k) line(got[k], rows[k].first, rows[k].second, k >= nargs, &column, at);
  m.count("help_lines", rows.size());
}

static std::string any_name(Rng &r) {
  static const std::vector<std::string> v = {"a", "b", "aa", "ab", "a0", "zz", "sort", "alpha", "beta", "query", "querygroups", "helper", "hel", "helpx", "x",
                                             "an_option_with_a_name_that_is_quite_a_bit_longer_than_all_the_others", "mid_sized_name", "o1", "o10", "o2", "A", "Sort", "SORT", "Beta", "Help", "HELP", "Zz", "a-b", "a_b", "a.b"};
  return r.pick(v);
}

static void build(Rng &r, Mon &m, Program *g) {
  static const std::vector<std::string> texts = {"text", "", "Some words (type = none).", "a : colon", "ends with blank ", "100% of \"it\"", "\xc3\xa9t\xc3\xa9",
                                                 "A help text that goes on for quite a while and is by far wider than any terminal would show in one line."};
  static const std::vector<std::string> progs = {"prog", "./a/b-c", "", "two words", "/very/long/path/to/some/program/somewhere/else"};
  g->prog = r.pick(progs);
  g->desc = r.chance(30) ? "" : r.chance(50) ? "  What it does." : "A description\n  of two lines";
  if (g->desc.empty() && r.chance(50)) g->p.reset(new Parser(g->prog)); else g->p.reset(new Parser(g->prog, g->desc));
  std::set<std::string> used;
  for (int n = r.below(12); n > 0; --n) {
    g->vars.push_back(any_var(r, true)); Var *v = g->vars.back().get();
    v->help = r.pick(texts);
    const unsigned kind = r.below(10);
    if (kind < 6) {
      v->name = r.chance(4) ? std::string("help") : any_name(r);
      const bool must = v->name != "help" && !g->opts.count(v->name);
      const std::string before = g->p->Help();
      const bool ok = v->add_option(g->p.get());
      CHECK(ok == must, must ? "registration-refused" : "registration-accepted", v->name, " after ", g->at);
      if (ok) { g->opts[v->name] = v; g->at += str(" --", v->name, ":", v->type() ? v->type() : "real"); }
      else { m.count("refused"); CHECK(g->p->Help() == before, "refusal-changed-help", v->name, " after ", g->at); }
    } else {
      do v->name = any_name(r) + (r.chance(20) ? "_arg" : ""); while (!used.insert(v->name).second);
      if (kind < 8) { v->add_arg(g->p.get()); g->args.push_back(v); g->at += str(" ", v->name); }
      else { v->add_opt_arg(g->p.get()); g->oargs.push_back(v); g->at += str(" [", v->name, "]"); }
    }
  }
}

static void one(Rng &r, Mon &m) {
  Program g;
  build(r, m, &g);
  const std::string text = g.p->Help();
  CHECK(g.p->Help() == text, "not-repeatable", text);
  judge(m, g, text);
  // A value given on a command line is the one shown from then on.
  std::vector<std::string> words = {"prog"};
  static const std::vector<std::string> lits = {"1", "0", "7", "true", "false", "12", "-3", "0.5", "abc", "99"};
  for (auto &o : g.opts)
    if (r.chance(40)) {
      std::string t;
      for (int k = 0; k < 20; ++k) { t = r.pick(lits); if (o.second->would_accept(t)) break; t.clear(); }
      if (t.empty()) continue;
      words.push_back("--" + o.first); words.push_back(t);
    }
  const bool ask = r.chance(4);
  if (!ask && words.size() > 1) {
    // Arguments are left out: parsing may fail, the options are bound before.
    std::vector<const char *> argv;
    for (auto &x : words) argv.push_back(x.c_str());
    { Capture c(std::cerr); g.p->Parse((int)argv.size(), argv.data()); }
    for (size_t k = 1; k + 1 < words.size(); k += 2) {
      Var *v = g.opts[words[k].substr(2)];
      CHECK(v->accepts(words[k + 1]) && v->as_expected(), "bound-value", words[k], " ", v->values());
    }
    judge(m, g, g.p->Help());
    m.count("values_changed", words.size() / 2);
  }
  if (ask) {
    // --help among other valid options, with or without arguments, in a child process.
    words.insert(words.begin() + 1 + 2 * r.below(words.size() / 2 + 1), "--help");
    if (r.chance(30)) words.push_back("--help");
    if (r.chance(30)) words.push_back("--");
    for (int n = r.below(4); n > 0; --n) words.push_back(r.chance(50) ? "x" : "1");
    std::vector<const char *> argv;
    for (auto &x : words) argv.push_back(x.c_str());
    int e[2], o[2];
    if (pipe(e) || pipe(o)) return;
    fflush(stdout); std::cout.flush();
    const pid_t pid = fork();
    if (pid == 0) {
      dup2(e[1], 2); dup2(o[1], 1);
      close(e[0]); close(e[1]); close(o[0]); close(o[1]);
      // What remains in the stream buffers of the parent must not appear twice.
      static int status = 77;
      g.p->Parse((int)argv.size(), argv.data());
      std::cerr << "PARSE RETURNED";
      _exit(status);
    }
    close(e[1]); close(o[1]);
    auto drain = [](int fd) { std::string s; char b[4096]; ssize_t n; while ((n = read(fd, b, sizeof b)) > 0) s.append(b, n); close(fd); return s; };
    const std::string err = drain(e[0]), out = drain(o[0]);
    int st = 0;
    waitpid(pid, &st, 0);
    std::string at;
    for (auto &x : words) at += " '" + x + "'";
    CHECK(WIFEXITED(st) && WEXITSTATUS(st) == 0, "help-status", st, " line", at, "\n", err);
    CHECK(out.empty(), "help-stdout", out, " line", at);
    for (size_t k = 1; k + 1 < words.size(); ++k)
      if (words[k].size() > 2 && g.opts.count(words[k].substr(2))) g.opts[words[k].substr(2)]->accepts(words[k + 1]);
    // The child's variables changed, not ours: set them for the comparison.
    {
      std::vector<const char *> again;
      for (auto &x : words) { if (x == "--") break; if (x != "--help") again.push_back(x.c_str()); }
      Capture c(std::cerr); g.p->Parse((int)again.size(), again.data());
    }
    judge(m, g, err);
    m.count("help_asked");
  }
  if (g.opts.size() > 1 && g.args.size() + g.oargs.size() > 0) m.nontrivial();
  m.id(text);
  if (m.wants_sample() && g.opts.size() > 1 && g.args.size() > 0) m.sample(text);
}
int main(int argc, char **argv) { return run(argc, argv, one); }
