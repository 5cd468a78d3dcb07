// C15: command lines of random option sets against an independent parser.
#include "cmdline.h"
using namespace mon;

static const std::vector<std::string> kTokens = {
  "0", "1", "2", "-1", "+1", "007", "true", "false", "TRUE", "yes", "", " ", "1 ", " 1", "1.5", "-1.5", ".5", "5.", ".", "-", "+", "1e3", "1E-3", "1e", "1e+",
  "0x10", "1a", "a1", "nan", "inf", "-inf", "127", "128", "-128", "-129", "255", "256", "32767", "32768", "-32768", "-32769", "65535", "65536",
  "2147483647", "2147483648", "-2147483648", "-2147483649", "4294967295", "4294967296", "9223372036854775807", "9223372036854775808",
  "-9223372036854775808", "-9223372036854775809", "18446744073709551615", "18446744073709551616", "99999999999999999999999999", "3.4e38", "3.5e38", "1e39",
  "-1e39", "1e308", "1e309", "-1e400", "1e-400", "1e-50", "-0", "+0", "--", "--x", "-x", "file name", "a\nb", "\xc3\xa9", "1,000", "1_0", "--5", "+-5", "0.0.1",
  "tru", "true ", "00", "01", "10", "-true", "True", "False", "FALSE", "tRue", "Yes", "no", "No", "on", "off", "ON", "y", "n", "t", "f", "T", "F", "0.", "1.0", "0 ", "+0.", "false\n", "true\0x",
  "-.5", "-.5e1", "-1e", "0b1", "0o7", "08", "-08", "1'000", "1\t", "\t1", "1\n", "infinity", "NaN", "1.", "-1.", "1u", "1.e2", "--true", "1;", "~1", "!", "\\", "*", "?", "$HOME", "@file", "\x7f", "\xff", "1f", "1l", "1e1e1"};

// A number in one of its many spellings, long ones too.
static std::string spelled(Rng &r) {
  std::string s = r.chance(30) ? r.chance(50) ? "-" : "+" : "";
  s += std::string(r.chance(40) ? r.below(30) : 0, '0') + (r.chance(40) ? "0" : std::to_string(r.below(r.chance(50) ? 10 : 300)));
  if (r.chance(60)) s += "." + std::string(r.chance(60) ? r.below(30) : 0, '0') + (r.chance(40) ? "" : std::to_string(r.below(100000)));
  if (r.chance(25)) s += str(r.chance(50) ? "e" : "E", r.chance(50) ? "" : r.chance(50) ? "+" : "-", std::string(r.below(4), '0'), r.below(12));
  return s;
}

static std::string token(Rng &r) {
  if (r.chance(10)) return spelled(r);
  if (r.chance(25)) return str((int64_t)r.next() >> r.below(63));
  if (r.chance(10)) return str(r.next() >> r.below(63));
  if (r.chance(10)) return str(r.unit() * 100 - 50);
  return r.pick(kTokens);
}

// Almost a registered name.
static std::string near_name(Rng &r, std::string n) {
  const size_t i = r.below(n.size());
  switch (r.below(11)) {
    case 0: { bool any = false; for (char &c : n) if (c == '-' || c == '_') { c = c == '-' ? '_' : '-'; any = true; } if (any) return n; n[i] = '_'; return n; }
    case 1: n[i] = (char)(isupper((unsigned char)n[i]) ? tolower(n[i]) : toupper(n[i])); return n;
    case 2: n.erase(i, 1); return n;
    case 3: n.insert(i, 1, n[i]); return n;
    case 4: return n.substr(0, 1 + i);
    case 5: return n + "=" + token(r);
    case 6: return n + " ";
    case 7: return (r.chance(50) ? "no-" : "no_") + n;
    case 8: return "-" + n;
    case 9: std::reverse(n.begin(), n.end()); return n;
    default: return n + std::string(1, '\0' + (char)(33 + r.below(90)));
  }
}

static void one(Rng &r, Mon &m) {
  static const std::vector<std::string> names = {"a", "b", "int", "value", "val", "x", "a-b", "a_b", "collapse", "no-a", "--a", "-a", "a=b", "1", "flag", "flags", "A", "Value", "VALUE", "Flag",
    "some_long_name", "bootstrap_ci_gap", "dump-matches", "name with blank", "\xc3\xa9"};
  std::vector<std::unique_ptr<Var>> vars;
  std::vector<Var *> opts, args, oargs;
  Parser parser("prog", "text");
  std::map<std::string, Var *> by_name;
  std::string at = "options:";
  const bool bytes = r.chance(25);
  for (int n = r.below(7); n > 0; --n) {
    vars.push_back(any_var(r, bytes));
    Var *v = vars.back().get();
    v->name = r.pick(names); v->help = "h";
    const bool ok = v->add_option(&parser);
    CHECK(ok == !by_name.count(v->name), "registration", v->name, " after ", at);
    if (ok) { opts.push_back(v); by_name[v->name] = v; at += str(" ", v->name, ":", v->type() ? v->type() : "real"); }
  }
  at += " args:";
  for (int n = r.below(4); n > 0; --n) {
    vars.push_back(any_var(r, bytes)); Var *v = vars.back().get();
    v->name = str("arg", n); v->add_arg(&parser); args.push_back(v); at += str(" ", v->type() ? v->type() : "real");
  }
  at += " optional:";
  for (int n = r.below(3); n > 0; --n) {
    vars.push_back(any_var(r, bytes)); Var *v = vars.back().get();
    v->name = str("opt", n); v->add_opt_arg(&parser); oargs.push_back(v); at += str(" ", v->type() ? v->type() : "real");
  }
  const int runs = r.chance(15) ? 2 : 1;      // a parser may be used again
  for (int run = 0; run < runs; ++run) {
    for (auto &v : vars) v->reset();
    // A command line: mostly right, with a chance of each kind of mistake.
    auto value_for = [&](Var *v) -> std::string {
      if (!r.chance(12)) for (int k = 0; k < 60; ++k) { const std::string t = token(r); if (v->would_accept(t)) return t; }
      return token(r);
    };
    std::vector<std::string> w = {"prog"};
    for (int n = r.below(6); n > 0; --n) {
      if (opts.empty() || r.chance(4)) {
        w.push_back(r.chance(50) ? "-" + r.pick(names) : r.chance(50) ? "-x" + r.pick(names) : r.chance(30) ? "--" + near_name(r, "help") : r.chance(50) ? "--" + r.pick(names) + "x" : "-" + r.pick(kTokens));
        continue;
      }
      Var *v = r.pick(opts);
      if (r.chance(5)) { w.push_back("--" + near_name(r, v->name)); m.count("near_names"); if (r.chance(50)) w.push_back(token(r)); continue; }
      w.push_back("--" + v->name);
      if (v->is_bool() ? r.chance(50) : !r.chance(3)) w.push_back(value_for(v));
    }
    if (r.chance(40)) w.push_back("--");
    const size_t npos = r.chance(75) ? args.size() + r.below(oargs.size() + 1) : r.below(args.size() + oargs.size() + 2);
    for (size_t i = 0; i < npos; ++i)
      w.push_back(i < args.size() ? value_for(args[i]) : i - args.size() < oargs.size() ? value_for(oargs[i - args.size()]) : token(r));
    // Left out: --help, and the empty word after an option of truth value.
    bool skip = false;
    for (auto &x : w) if (x == "--help") skip = true;
    // What must happen.
    bool accept = true;
    std::string why;
    size_t i = 1;
    std::set<Var *> given;
    while (accept && i < w.size()) {
      const std::string &a = w[i];
      if (a.size() < 2 || a[0] != '-') break;
      ++i;
      if (a == "--") break;
      auto it = a[1] == '-' ? by_name.find(a.substr(2)) : by_name.end();
      if (it == by_name.end()) { accept = false; why = "unknown option " + a; break; }
      Var *v = it->second;
      given.insert(v);
      if (v->is_bool()) {
        if (i < w.size() && w[i].empty()) skip = true;
        if (i < w.size() && (w[i].empty() || w[i][0] != '-')) { if (!v->accepts(w[i++])) { accept = false; why = "value of " + a; } }
        else v->expect_true();
      } else if (i >= w.size() || !v->accepts(w[i++])) { accept = false; why = "value of " + a; }
    }
    if (skip) { m.count("left_out"); return; }
    for (size_t k = 0; accept && k < args.size() + oargs.size(); ++k) {
      Var *v = k < args.size() ? args[k] : oargs[k - args.size()];
      if (i >= w.size()) { if (k < args.size()) { accept = false; why = "missing argument"; } break; }
      if (!v->accepts(w[i++])) { accept = false; why = str("argument ", k + 1); }
    }
    if (accept && i < w.size()) { accept = false; why = "too many arguments"; }
    std::string line;
    for (auto &x : w) line += " '" + x + "'";
    std::vector<const char *> argv;
    for (auto &x : w) argv.push_back(x.c_str());
    bool got;
    std::string err;
    {
      Capture ce(std::cerr);
      // exactly as many words as there are: nothing may be read behind them
      std::unique_ptr<const char *[]> exact(new const char *[argv.size()]);
      std::copy(argv.begin(), argv.end(), exact.get());
      got = parser.Parse((int)argv.size(), exact.get());
      err = ce.text();
    }
    CHECK(got == accept, accept ? "rejected-valid" : "accepted-invalid", why, " line", line, " ", at, " ", err);
    if (got) {
      for (auto &v : vars) CHECK(v->as_expected(), given.count(v.get()) ? "value" : "other-value", v->name, " ", v->values(), " line", line, " ", at);
      m.count("accepted");
    } else {
      CHECK(!err.empty(), "silent-rejection", why, " line", line, " ", at);
      m.count("rejected");
      m.count("rejected." + why.substr(0, why.find(' ')));
    }
    for (auto &x : w) m.id(x);
    m.id(at);
    if (w.size() > 2 && !vars.empty()) m.nontrivial();
    if (m.wants_sample() && w.size() > 3) m.sample(str(at, " line", line, " -> ", got ? "accepted" : "rejected: " + why));
  }
}
int main(int argc, char **argv) { return run(argc, argv, one); }
