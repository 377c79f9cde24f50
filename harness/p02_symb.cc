// P02: symbolic coefficients and operators behave as formal sums.
#include "symb.h"
#include <complex>
using namespace symb;
using vmon::Mon;
using LabelMS = std::vector<long>;                 // sorted multiset
using OpModel = std::map<long, LabelMS>;

static LabelMS ms(const CoefRepr &c) { auto v = c.GetCoefLabelList(); std::sort(v.begin(), v.end()); return v; }
static LabelMS add(LabelMS a, const LabelMS &b) { a.insert(a.end(), b.begin(), b.end()); std::sort(a.begin(), a.end()); return a; }
static LabelMS rnd_ms(Rng &r, long maxl, size_t maxn, size_t minn = 0) {
  LabelMS v; size_t n = minn + r.below(maxn - minn + 1);
  for (size_t i = 0; i < n; ++i) v.push_back(r.coin(0.25) ? 0 : r.range(1, maxl));
  return v;
}
static std::string mstr(const LabelMS &v) { return "{" + vmon::join(v, "+") + "}"; }
static std::string ostr(const OpModel &m) { std::string s; for (auto &kv : m) s += mstr(kv.second) + "o" + std::to_string(kv.first) + " "; return s; }
static OpModel model(const OpRepr &o) {
  OpModel m; auto cs = o.GetCoefReprList(); auto ls = o.GetOpLabelList();
  for (size_t i = 0; i < ls.size() && i < cs.size(); ++i) m[ls[i]] = ms(cs[i]);
  return m;
}
static OpModel madd(OpModel a, const OpModel &b) { for (auto &kv : b) a[kv.first] = add(a[kv.first], kv.second); return a; }

// printed forms, read back by an independent parser
static std::string csym(long l) { return l == 0 ? "1" : std::string(1, (char) ('a' + l - 1)); }
static bool parse_coef(const std::string &s, std::vector<std::string> &out) {
  out.clear();
  if (s == "0") return true;
  if (s.size() == 1) { out.push_back(s); return true; }
  if (s.size() < 2 || s.front() != '(' || s.back() != ')') return false;
  std::string cur;
  for (size_t i = 1; i + 1 < s.size(); ++i) { if (s[i] == '+') { out.push_back(cur); cur.clear(); } else cur += s[i]; }
  out.push_back(cur);
  std::sort(out.begin(), out.end());
  return true;
}
static std::vector<std::string> want_coef(const LabelMS &m) { std::vector<std::string> w; for (auto l : m) w.push_back(csym(l)); std::sort(w.begin(), w.end()); return w; }
static std::string opsym(long l) { if (l == 0) return "Id"; std::string s(1, (char) ('A' + (l - 1) % 26)); return l <= 26 ? s : s + std::to_string((l - 1) / 26); }
static std::vector<std::string> split_top(const std::string &s) {
  std::vector<std::string> v; std::string cur; int d = 0;
  for (char ch : s) { if (ch == '(') ++d; if (ch == ')') --d; if (ch == '+' && d == 0) { v.push_back(cur); cur.clear(); } else cur += ch; }
  v.push_back(cur);
  return v;
}

static void coef_case(Rng &r, Mon &m) {
  m.at("coef");
  long maxl = r.coin() ? 3 : 26;
  LabelMS a = rnd_ms(r, maxl, 5), b = rnd_ms(r, maxl, 5), c = rnd_ms(r, maxl, 4);
  if (r.coin(0.5)) { b = a; for (size_t i = b.size(); i > 1; --i) std::swap(b[i - 1], b[r.below(i)]); if (r.coin(0.4) && !b.empty()) b[r.below(b.size())] = r.range(0, maxl); if (r.coin(0.15)) b.push_back(b.empty() ? 0 : b[0]); }
  auto mk = [](const LabelMS &v) { return v.size() == 1 ? CoefRepr(v[0]) : CoefRepr(v); };
  CoefRepr A = mk(a), B = mk(b), C = mk(c);
  auto sorted = [](LabelMS v) { std::sort(v.begin(), v.end()); return v; };
  auto d = [&] { return mstr(a) + " " + mstr(b) + " " + mstr(c); };
  m.check(ms(A) == sorted(a), "coef/labels", d);
  bool eq = sorted(a) == sorted(b);
  m.check((A == B) == eq && (B == A) == eq && (A != B) == !eq, "coef/equality", d);
  if (eq && a != b) m.count("equal_permuted");
  m.check((A + B) == (B + A) && ((A + B) + C) == (A + (B + C)), "coef/add-laws", d);
  m.check(ms(A + B) == add(a, b), "coef/add", d);
  m.check(ms(A) == sorted(a) && ms(B) == sorted(b), "coef/add-changes-operand", d);
  CoefRepr E(A); E += B; m.check(ms(E) == add(a, b), "coef/add-assign", d);
  CoefRepr F; F = E; CoefRepr G(std::move(E)); m.check(F == G && ms(G) == add(a, b), "coef/move-construct", d);
  CoefRepr H = kIdCoefRepr; H = std::move(G); m.check(H == F, "coef/move-assign", d);
  H += A; m.check(ms(F) == add(a, b), "coef/copy-not-independent", d);
  m.check((A == kNullCoefRepr) == a.empty() && (A == kIdCoefRepr) == (a == LabelMS{0}), "coef/null-or-id", d);
  // strict weak order
  bool lt = A < B, gt = B < A;
  m.check(!(A < A) && !(lt && gt) && (A > B) == gt && (A <= B) == !gt && (A >= B) == !lt, "coef/order", d);
  if (A < B && B < C) m.check(A < C, "coef/order-transitive", d);
  // realization
  std::vector<Fp> vals; std::vector<double> dv; std::vector<std::complex<double>> cv;
  for (long l = 0; l <= 26; ++l) { vals.push_back(l == 0 ? Fp(1) : Fp::raw(r.next())); dv.push_back(l == 0 ? 1 : (double) r.range(-8, 8)); cv.push_back({dv.back(), l ? (double) r.range(-8, 8) : 0}); }
  auto sumv = [&](const LabelMS &x, auto tab) { typename decltype(tab)::value_type s = 0; for (auto l : x) s += tab[(size_t) l]; return s; };
  m.check(A.Realize(vals) == sumv(a, vals) && (A + B).Realize(vals) == A.Realize(vals) + B.Realize(vals), "coef/realize", d);
  m.check(A.Realize(dv) == sumv(a, dv) && A.Realize(cv) == sumv(a, cv), "coef/realize-numbers", d);
  std::vector<std::string> got;
  std::string s = A.ToString();
  m.check(parse_coef(s, got) && got == want_coef(a), "coef/print", [&] { return mstr(a) + " printed " + s; });
  m.check(A.ToString(dv) == std::to_string(sumv(a, dv)), "coef/print-number", [&] { return mstr(a) + " printed " + A.ToString(dv); });
  if (a.size() > 1) m.distinct(vmon::hash_str(d()));
}

struct M2 {   // 2x2 integer-valued matrices as realized operators
  double v[4] = {0, 0, 0, 0};
  M2 &operator+=(const M2 &o) { for (int i = 0; i < 4; ++i) v[i] += o.v[i]; return *this; }
  bool operator==(const M2 &o) const { for (int i = 0; i < 4; ++i) if (v[i] != o.v[i]) return false; return true; }
};
static M2 operator*(double a, const M2 &m) { M2 r; for (int i = 0; i < 4; ++i) r.v[i] = a * m.v[i]; return r; }

static OpRepr mk_op(Rng &r, OpModel &mod, long maxc, long maxo) {
  size_t n = r.below(5); long o = 0;
  mod.clear();
  switch (n == 0 ? 0 : r.below(5)) {
    case 0: return OpRepr();
    case 1: { o = r.range(0, maxo); mod[o] = {0}; return OpRepr(o); }
    case 2: { o = r.range(0, maxo); auto c = rnd_ms(r, maxc, 3, 1); mod[o] = add({}, c); return OpRepr(CoefRepr(c), o); }
    case 3: {
      CoefReprVec cs; std::vector<BasisOpLabel> ls; bool same = r.coin(0.4); auto c0 = rnd_ms(r, maxc, 2, 1);
      for (size_t i = 0; i < n; ++i) { auto c = same ? c0 : rnd_ms(r, maxc, 2, 1); o = r.range(0, maxo); cs.push_back(CoefRepr(c)); ls.push_back(o); mod[o] = add(mod[o], c); }
      return OpRepr(cs, ls);
    }
    default: {
      std::vector<BasisOpLabel> ls;
      for (size_t i = 0; i < n; ++i) { o = r.range(0, maxo); ls.push_back(o); mod[o] = add(mod[o], {0}); }
      return OpRepr(ls);
    }
  }
}
static void op_case(Rng &r, Mon &m) {
  m.at("op");
  long maxc = r.coin() ? 2 : 26, maxo = r.coin(0.7) ? 3 : 120;
  OpModel ma, mb, mc;
  OpRepr A = mk_op(r, ma, maxc, maxo), B = mk_op(r, mb, maxc, maxo), C = mk_op(r, mc, maxc, maxo);
  auto d = [&] { return "A=" + ostr(ma) + " B=" + ostr(mb) + " C=" + ostr(mc); };
  m.check(model(A) == ma && model(B) == mb && model(C) == mc, "op/construct", d);
  m.check(A.GetOpLabelList().size() == A.GetCoefReprList().size(), "op/lists", d);
  m.check((A == B) == (ma == mb) && (A != B) == (ma != mb), "op/equality", d);
  OpRepr S = A + B;
  m.check(model(S) == madd(ma, mb), "op/add", d);
  m.check(model(A) == ma && model(B) == mb, "op/add-changes-operand", d);
  m.check(A + B == B + A && (A + B) + C == A + (B + C), "op/add-laws", d);
  OpRepr T(A); T += B; T += C;
  m.check(model(T) == madd(madd(ma, mb), mc), "op/add-assign", d);
  OpRepr U; U = T; U += A;
  m.check(model(T) == madd(madd(ma, mb), mc) && model(U) == madd(model(T), ma), "op/copy-not-independent", d);
  m.check((A == kNullOpRepr) == ma.empty(), "op/null", d);
  m.check(!(A < A) && !((A < B) && (B < A)), "op/order", d);
  // separation
  auto sep = SeparateCoefAndBase(T);
  OpModel base = model(sep.second); LabelMS co = ms(sep.first);
  OpModel mt = model(T);
  Point pt(r.next());
  m.check(pt.coef(sep.first) * pt.op(0, sep.second) == pt.op(0, T), "op/separate-product", [&] { return ostr(mt) + " -> " + mstr(co) + " * " + ostr(base); });
  bool allsame = !mt.empty(); for (auto &kv : mt) allsame = allsame && kv.second == mt.begin()->second;
  bool base_unit = true; for (auto &kv : base) base_unit = base_unit && kv.second == LabelMS{0};
  m.check(!allsame || (base_unit && co == mt.begin()->second), "op/separate-common", [&] { return ostr(mt) + " -> " + mstr(co) + " * " + ostr(base); });
  m.check(GetOpReprCoef(T) == sep.first, "op/separate-coef", d);
  m.check(CoefReprOpReprIncompleteMulti(sep.first, sep.second) == T, "op/multiply-back", [&] { return ostr(mt); });
  m.check(model(T) == mt, "op/separate-changes-operand", d);
  if (allsame && mt.size() > 1) m.count("common_coefficient_split");
  if (!allsame) m.count("no_common_coefficient");
  // realization
  std::vector<double> cv; std::vector<M2> ov;
  for (long l = 0; l <= 26; ++l) cv.push_back(l == 0 ? 1 : (double) r.range(-5, 5));
  for (long l = 0; l <= 120; ++l) { M2 x; for (auto &e : x.v) e = (double) r.range(-5, 5); ov.push_back(x); }
  M2 want;
  for (auto &kv : mt) { double s = 0; for (auto l : kv.second) s += cv[(size_t) l]; want += s * ov[(size_t) kv.first]; }
  m.check(T.Realize(cv, ov) == want, "op/realize", d);
  // print
  std::string s = T.ToString(); std::ostringstream os; os << T;
  std::vector<std::string> parts = split_top(s), wantp;
  bool ok = os.str() == s;
  if (mt.empty()) ok = ok && s == "0";
  else {
    ok = ok && parts.size() == mt.size();
    size_t i = 0;
    std::vector<bool> used(parts.size(), false);
    for (auto &kv : mt) {
      bool found = false;
      for (i = 0; i < parts.size() && !found; ++i) {
        std::string os2 = opsym(kv.first);
        if (used[i] || parts[i].size() <= os2.size() || parts[i].substr(parts[i].size() - os2.size()) != os2) continue;
        std::vector<std::string> got;
        if (parse_coef(parts[i].substr(0, parts[i].size() - os2.size()), got) && got == want_coef(kv.second)) { used[i] = true; found = true; }
      }
      ok = ok && found;
    }
  }
  m.check(ok, "op/print", [&] { return ostr(mt) + " printed " + s; });
  if (mt.size() > 1) m.distinct(vmon::hash_str(d()));
}

int main(int argc, char **argv) {
  return vmon::run(argc, argv, "p02", [](size_t c, Rng &r, Mon &m) {
    for (int k = 0; k < 25; ++k) { if ((c + k) % 2) op_case(r, m); else coef_case(r, m); }
    if (c < 3) m.sample("25 random coefficient/operator triples, seed case " + std::to_string(c));
  });
}
