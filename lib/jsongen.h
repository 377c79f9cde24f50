// Parameter-file generator with its own notion of what each value means (independent of the JSON library).
#ifndef VERIF_JSONGEN_H
#define VERIF_JSONGEN_H
#include "vmon.h"
#include <climits>
#include <cmath>
namespace jg {
using vmon::Rng;
struct Val {
  enum K { INT, UINT, FLT, BOOL, NUL, STR, ARR, OBJ } k = NUL;
  long long i = 0; unsigned long long u = 0; double d = 0; bool b = false; std::string s, text;
  std::vector<Val> a;
  bool integral_float = false;      // e.g. 3.0, 1e3: whether that is "an integer" is left open
  const char *type() const { switch (k) { case INT: case UINT: case FLT: return "number"; case BOOL: return "boolean"; case NUL: return "null"; case STR: return "string"; case ARR: return "array"; default: return "object"; } }
};
inline std::string quote(Rng &r, const std::string &s) {
  std::string o = "\"";
  for (unsigned char c : s) {
    char b[8];
    if (c == '"' || c == '\\') { o += '\\'; o += (char) c; }
    else if (c == '\n') o += "\\n";
    else if (c == '\t') o += "\\t";
    else if (c < 0x20) { snprintf(b, sizeof b, "\\u%04x", c); o += b; }
    else if (c < 0x7f && r.coin(0.05)) { snprintf(b, sizeof b, "\\u%04x", c); o += b; }
    else o += (char) c;
  }
  return o + "\"";
}
inline std::string rnd_str(Rng &r, size_t maxn = 12) {
  static const std::vector<std::string> pool{"a", "Z", "0", " ", "_", "-", "\"", "\\", "/", "\n", "\t", "\xc3\xa9", "\xe2\x82\xac", "{", "}", ",", ":", "x", "y", "\x01", "~", ".", "'"};
  std::string s; size_t n = r.below(maxn + 1);
  for (size_t i = 0; i < n; ++i) s += r.pick(pool);
  return s;
}
inline Val ival(Rng &r, int how) {
  Val v; v.k = Val::INT;
  switch (how) {
    case 0: v.i = r.range(-10, 100); break;
    case 1: v.i = r.pick(std::vector<long long>{INT_MAX, INT_MIN, 0, -1, 1, INT_MAX - 1LL, INT_MIN + 1LL}); break;
    case 2: v.i = r.pick(std::vector<long long>{INT_MAX + 1LL, INT_MIN - 1LL, 4294967295LL, 4294967296LL, 4294967297LL, LLONG_MAX, LLONG_MIN, 1LL << 40, -(1LL << 33)}); break;
    default: v.k = Val::UINT; v.u = r.pick(std::vector<unsigned long long>{ULLONG_MAX, 1ull << 63, (1ull << 63) + 5});
  }
  v.text = v.k == Val::INT ? std::to_string(v.i) : std::to_string(v.u);
  return v;
}
inline Val fval(Rng &r) {
  Val v; v.k = Val::FLT; char b[64];
  switch (r.below(5)) {
    case 0: v.d = (double) r.range(-50, 50) + 0.5; break;
    case 1: v.d = (double) r.range(-9, 9); v.integral_float = true; break;
    case 2: v.d = r.sym() * std::pow(10.0, (double) r.range(-300, 300)); break;
    case 3: v.d = r.pick(std::vector<double>{1e-8, 2.33, -0.1, 0.1, 1.7976931348623157e308, 2.2250738585072014e-308, 4.9e-324, 3.999999999, 2147483648.5}); break;
    default: v.d = r.sym();
  }
  snprintf(b, sizeof b, r.coin(0.3) ? "%.17e" : "%.17g", v.d);
  v.text = b;
  if (v.text.find_first_of(".eE") == std::string::npos) v.text += ".0";
  if (std::floor(v.d) == v.d) v.integral_float = true;
  return v;
}
Val gen(Rng &r, int depth);
inline Val arr(Rng &r, int depth) {
  Val v; v.k = Val::ARR; size_t n = r.below(6); int kind = (int) r.below(7);
  for (size_t i = 0; i < n; ++i) {
    Val e;
    switch (kind) {
      case 0: e = ival(r, 0); break;
      case 1: e = ival(r, r.coin(0.8) ? 0 : 1); if (e.k == Val::INT && e.i < 0) e = ival(r, 0); break;
      case 2: e = ival(r, (int) r.below(4)); break;
      case 3: e = fval(r); break;
      case 4: e = r.coin(0.6) ? ival(r, 0) : fval(r); break;
      case 5: e = r.coin(0.8) ? ival(r, 0) : gen(r, depth + 1); break;
      default: e = gen(r, depth + 1);
    }
    v.a.push_back(e);
  }
  v.text = "[";
  for (size_t i = 0; i < n; ++i) v.text += (i ? (r.coin() ? ", " : ",\n ") : "") + v.a[i].text;
  v.text += "]";
  return v;
}
inline Val gen(Rng &r, int depth) {
  Val v;
  switch (r.below(depth > 1 ? 8 : 11)) {
    case 0: case 1: return ival(r, 0);
    case 2: return ival(r, (int) r.below(4));
    case 3: case 4: return fval(r);
    case 5: v.k = Val::BOOL; v.b = r.coin(); v.text = v.b ? "true" : "false"; return v;
    case 6: if (r.coin(0.6)) { v.k = Val::STR; v.s = rnd_str(r, r.coin(0.3) ? 1 : 12); v.text = quote(r, v.s); } else { v.k = Val::NUL; v.text = "null"; } return v;
    case 7: v.k = Val::STR; v.s = rnd_str(r); v.text = quote(r, v.s); return v;
    case 8: case 9: return arr(r, depth);
    default: v.k = Val::OBJ; v.text = "{\"nested_key\": 1, \"x\": [1,2]}"; return v;
  }
}
struct Doc { std::vector<std::pair<std::string, Val>> params; std::vector<std::string> outside; std::string text; };
inline std::string ws(Rng &r) { static const std::vector<std::string> w{"", " ", "\n", "\n\t ", "  "}; return r.pick(w); }
inline Doc doc(Rng &r) {
  Doc d; std::set<std::string> used;
  size_t n = r.below(12);
  for (size_t i = 0; i < n; ++i) {
    std::string k = r.coin(0.6) ? "p" + std::to_string(r.below(50)) : rnd_str(r, 6);
    if (k == "nested_key" || k == "CaseParams" || !used.insert(k).second) continue;
    d.params.push_back({k, gen(r, 0)});
  }
  std::string body = "{" + ws(r);
  for (size_t i = 0; i < d.params.size(); ++i) body += (i ? "," + ws(r) : "") + quote(r, d.params[i].first) + ws(r) + ":" + ws(r) + d.params[i].second.text;
  body += ws(r) + "}";
  std::vector<std::string> tops{"\"CaseParams\":" + ws(r) + body};
  size_t e = r.below(3);
  for (size_t i = 0; i < e; ++i) { std::string k = "Outside" + std::to_string(i); d.outside.push_back(k); tops.push_back("\"" + k + "\":" + ws(r) + (r.coin() ? "{\"hidden\": 3}" : "7")); }
  if (e) d.outside.push_back("hidden");
  d.outside.push_back("nested_key"); d.outside.push_back("CaseParams");
  for (size_t i = tops.size(); i > 1; --i) std::swap(tops[i - 1], tops[r.below(i)]);
  d.text = ws(r) + "{";
  for (size_t i = 0; i < tops.size(); ++i) d.text += (i ? "," : "") + ws(r) + tops[i] + ws(r);
  d.text += "}" + ws(r);
  return d;
}
// what each typed reader must make of a value: 1 value, 0 error, -1 left open
inline int as_int(const Val &v, int &out) {
  if (v.k == Val::INT && v.i >= INT_MIN && v.i <= INT_MAX) { out = (int) v.i; return 1; }
  return v.k == Val::FLT && v.integral_float ? -1 : 0;
}
inline int as_size(const Val &v, size_t &out) {
  if (v.k == Val::INT && v.i >= 0) { out = (size_t) v.i; return 1; }
  if (v.k == Val::UINT) { out = (size_t) v.u; return 1; }
  return v.k == Val::FLT && v.integral_float ? -1 : 0;
}
inline int as_double(const Val &v, double &out) {
  if (v.k == Val::INT) { out = (double) v.i; return 1; }
  if (v.k == Val::UINT) { out = (double) v.u; return 1; }
  if (v.k == Val::FLT) { out = v.d; return 1; }
  return 0;
}
inline int as_bool(const Val &v, bool &out) { out = v.b; return v.k == Val::BOOL; }
inline int as_str(const Val &v, std::string &out) { out = v.s; return v.k == Val::STR; }
inline int as_char(const Val &v, char &out) { out = v.s.empty() ? '\0' : v.s[0]; return v.k == Val::STR; }
template<typename T, typename F> int as_vec(const Val &v, std::vector<T> &out, F f) {
  out.clear();
  if (v.k != Val::ARR) return 0;
  int res = 1;
  for (auto &e : v.a) { T x{}; int q = f(e, x); if (q == 0) return 0; if (q < 0) res = -1; out.push_back(x); }
  return res;
}
}  // namespace jg
#endif
