// Variables of every type an option or argument may have, with independent parsing of their literals.
#ifndef VERIF_CMDLINE_H_
#define VERIF_CMDLINE_H_
#include "mon.h"
#include "cmd/Parser.h"

using kws::cmd::Parser;

inline bool int_literal(const std::string &s, __int128 lo, __int128 hi, __int128 *out) {
  size_t i = 0;
  bool neg = false;
  if (i < s.size() && (s[i] == '+' || s[i] == '-')) { neg = s[i] == '-'; ++i; }
  if (i == s.size() || (neg && lo == 0)) return false;
  __int128 v = 0;
  for (; i < s.size(); ++i) {
    if (s[i] < '0' || s[i] > '9') return false;
    v = v * 10 + (s[i] - '0');
    if (v > ((__int128)1 << 70)) v = (__int128)1 << 70;
  }
  if (neg) v = -v;
  *out = v;
  return v >= lo && v <= hi;
}
inline bool real_syntax(const std::string &s) {
  size_t i = 0, digits = 0;
  if (i < s.size() && (s[i] == '+' || s[i] == '-')) ++i;
  while (i < s.size() && isdigit((unsigned char)s[i])) ++i, ++digits;
  if (i < s.size() && s[i] == '.') { ++i; while (i < s.size() && isdigit((unsigned char)s[i])) ++i, ++digits; }
  if (!digits) return false;
  if (i < s.size() && (s[i] == 'e' || s[i] == 'E')) {
    ++i;
    if (i < s.size() && (s[i] == '+' || s[i] == '-')) ++i;
    const size_t b = i;
    while (i < s.size() && isdigit((unsigned char)s[i])) ++i;
    if (i == b) return false;
  }
  return i == s.size();
}
template <class T> bool literal(const std::string &s, T *out) {
  __int128 v;
  if (!int_literal(s, std::numeric_limits<T>::min(), std::numeric_limits<T>::max(), &v)) return false;
  *out = (T)v;
  return true;
}
template <> inline bool literal<float>(const std::string &s, float *out) {
  if (!real_syntax(s)) return false;
  *out = strtof(s.c_str(), 0);
  return !std::isinf(*out);
}
template <> inline bool literal<double>(const std::string &s, double *out) {
  if (!real_syntax(s)) return false;
  *out = strtod(s.c_str(), 0);
  return !std::isinf(*out);
}
template <> inline bool literal<bool>(const std::string &s, bool *out) {
  *out = s == "true" || s == "1";
  return *out || s == "false" || s == "0";
}
template <> inline bool literal<std::string>(const std::string &s, std::string *out) { *out = s; return true; }

template <class T> const char *type_name();
template <> inline const char *type_name<bool>() { return "bool"; }
template <> inline const char *type_name<int8_t>() { return "int8_t"; }
template <> inline const char *type_name<int16_t>() { return "int16_t"; }
template <> inline const char *type_name<int32_t>() { return "int32_t"; }
template <> inline const char *type_name<int64_t>() { return "int64_t"; }
template <> inline const char *type_name<uint8_t>() { return "uint8_t"; }
template <> inline const char *type_name<uint16_t>() { return "uint16_t"; }
template <> inline const char *type_name<uint32_t>() { return "uint32_t"; }
template <> inline const char *type_name<uint64_t>() { return "uint64_t"; }
template <> inline const char *type_name<std::string>() { return "string"; }
template <> inline const char *type_name<float>() { return nullptr; }     // any name
template <> inline const char *type_name<double>() { return nullptr; }

template <class T> T any_value(mon::Rng &r) {
  const T v[] = {(T)0, (T)1, std::numeric_limits<T>::max(), std::numeric_limits<T>::lowest(), (T)(r.below(200)), (T)(r.next())};
  return v[r.below(6)];
}
template <> inline float any_value<float>(mon::Rng &r) { return (float)r.in(-1000, 1000) / 8; }
template <> inline double any_value<double>(mon::Rng &r) { return (double)r.in(-1000, 1000) / 8; }
template <> inline bool any_value<bool>(mon::Rng &r) { return r.chance(50); }
template <> inline std::string any_value<std::string>(mon::Rng &r) { return r.chance(30) ? "" : r.chance(8) ? std::string(30 + r.below(400), (char)('a' + r.below(26))) + (r.chance(50) ? " end" : "") : r.chance(50) ? "a word or two" : mon::str("v", r.below(99)); }

template <class T> std::string as_text(const T &v) { return mon::str((double)0 == 1 ? T() : v); }
inline std::string shown(const std::string &v) { return v; }
inline std::string shown(bool v) { return v ? "true" : "false"; }
inline std::string shown(float v) { std::ostringstream o; o << v; return o.str(); }
inline std::string shown(double v) { std::ostringstream o; o << v; return o.str(); }
template <class T> std::string shown(const T &v) { return std::to_string(v); }

struct Var {
  std::string name, help;
  virtual ~Var() {}
  virtual bool is_bool() const = 0;
  virtual bool accepts(const std::string &s) = 0;        // and makes it the expected value
  virtual bool would_accept(const std::string &s) const = 0;
  virtual void expect_true() {}
  virtual bool as_expected() const = 0;
  virtual std::string values() const = 0;
  virtual const char *type() const = 0;
  virtual std::string current() const = 0;
  virtual bool add_option(Parser *p) = 0;
  virtual bool add_option_as(Parser *p, const std::string &n, const std::string &h) = 0;
  virtual void add_arg(Parser *p) = 0;
  virtual void add_opt_arg(Parser *p) = 0;
  virtual void reset() = 0;                               // expected = the present value
};
template <class T> struct TVar : Var {
  T value, expected;
  explicit TVar(mon::Rng &r) : value(any_value<T>(r)), expected(value) {}
  bool is_bool() const override { return std::is_same<T, bool>::value; }
  bool accepts(const std::string &s) override { T v; if (!literal<T>(s, &v)) return false; expected = v; return true; }
  bool would_accept(const std::string &s) const override { T v; return literal<T>(s, &v); }
  void expect_true() override { literal<T>("1", &expected); }
  bool as_expected() const override { return value == expected; }
  std::string values() const override { return "is " + shown(value) + ", want " + shown(expected); }
  const char *type() const override { return type_name<T>(); }
  std::string current() const override { return shown(value); }
  bool add_option(Parser *p) override { return p->RegisterOption(name, help, &value); }
  bool add_option_as(Parser *p, const std::string &n, const std::string &h) override { return p->RegisterOption(n, h, &value); }
  void add_arg(Parser *p) override { p->RegisterArgument(name, help, &value); }
  void add_opt_arg(Parser *p) override { p->RegisterOptArgument(name, help, &value); }
  void reset() override { expected = value; }
};

inline std::unique_ptr<Var> any_var(mon::Rng &r, bool bytes = true) {
  switch (r.below(bytes ? 14 : 12)) {
    case 0: case 1: return std::unique_ptr<Var>(new TVar<bool>(r));
    case 2: case 3: return std::unique_ptr<Var>(new TVar<std::string>(r));
    case 4: return std::unique_ptr<Var>(new TVar<int16_t>(r));
    case 5: return std::unique_ptr<Var>(new TVar<int32_t>(r));
    case 6: return std::unique_ptr<Var>(new TVar<int64_t>(r));
    case 7: return std::unique_ptr<Var>(new TVar<uint16_t>(r));
    case 8: return std::unique_ptr<Var>(new TVar<uint32_t>(r));
    case 9: return std::unique_ptr<Var>(new TVar<uint64_t>(r));
    case 10: return std::unique_ptr<Var>(new TVar<float>(r));
    case 11: return std::unique_ptr<Var>(new TVar<double>(r));
    case 12: return std::unique_ptr<Var>(new TVar<int8_t>(r));
    default: return std::unique_ptr<Var>(new TVar<uint8_t>(r));
  }
}
#endif
