// Oracle for the symbolic MPO layer. Symbols are evaluated at random points of a prime field
// (p = 2^61-1): two formal sums that differ give different values except with probability ~ degree/p.
#ifndef VERIF_SYMB_H
#define VERIF_SYMB_H
#include "vmon.h"
#include <map>
#include <algorithm>
#include "qlmps/one_dim_tn/mpo/mpogen/fsm.h"

namespace symb {
using vmon::Rng;
using u64 = uint64_t;
const u64 kP = (1ull << 61) - 1;

struct Fp {
  u64 v = 0;
  Fp() {}
  Fp(int x) : v(x >= 0 ? (u64) x % kP : kP - (u64) (-(long) x) % kP) {}
  static Fp raw(u64 x) { Fp f; f.v = x % kP; return f; }
  Fp operator+(Fp o) const { u64 s = v + o.v; return raw(s >= kP ? s - kP : s); }
  Fp operator-(Fp o) const { return raw(v >= o.v ? v - o.v : v + kP - o.v); }
  Fp operator*(Fp o) const { return raw((u64) ((unsigned __int128) v * o.v % kP)); }
  Fp &operator+=(Fp o) { return *this = *this + o; }
  bool operator==(Fp o) const { return v == o.v; }
  bool operator!=(Fp o) const { return v != o.v; }
};

// random evaluation point: coefficient label -> value (label 0 is the number 1), (site, operator label) -> value
struct Point {
  u64 salt;
  explicit Point(u64 s) : salt(s) {}
  Fp coef(long label) const { return label == kIdCoefLabel ? Fp(1) : Fp::raw(vmon::mix(salt, 0xC0EF0000ull + (u64) label)); }
  Fp op(size_t site, long label) const { return Fp::raw(vmon::mix(salt ^ 0xABCDEF12345ull, (u64) site * 1000003ull + (u64) label)); }
  Fp coef(const CoefRepr &c) const {
    Fp s(0);
    for (auto l : c.GetCoefLabelList()) s += coef(l);
    return s;
  }
  Fp op(size_t site, const OpRepr &o) const {
    auto cs = o.GetCoefReprList();
    auto ls = o.GetOpLabelList();
    Fp s(0);
    for (size_t i = 0; i < ls.size(); ++i) s += coef(cs[i]) * op(site, ls[i]);
    return s;
  }
};

using Mat = std::vector<std::vector<Fp>>;
inline Mat eval(const SparOpReprMat &m, size_t site, const Point &pt) {
  Mat r(m.rows, std::vector<Fp>(m.cols));
  for (size_t x = 0; x < m.rows; ++x)
    for (size_t y = 0; y < m.cols; ++y) r[x][y] = pt.op(site, m(x, y));
  return r;
}
inline Mat mul(const Mat &a, const Mat &b, size_t inner) {
  size_t n = a.size(), k = b.empty() ? 0 : b[0].size();
  Mat r(n, std::vector<Fp>(k));
  for (size_t i = 0; i < n; ++i)
    for (size_t l = 0; l < inner; ++l) {
      if (a[i][l] == Fp(0)) continue;
      for (size_t j = 0; j < k; ++j) r[i][j] += a[i][l] * b[l][j];
    }
  return r;
}
inline std::string show(const SparOpReprMat &m) {
  std::ostringstream os;
  os << m.rows << "x" << m.cols << "[";
  for (size_t x = 0; x < m.rows; ++x) {
    for (size_t y = 0; y < m.cols; ++y) {
      auto o = m(x, y);
      auto cs = o.GetCoefReprList();
      auto ls = o.GetOpLabelList();
      if (ls.empty()) os << ".";
      for (size_t i = 0; i < ls.size(); ++i) os << (i ? "+" : "") << "{" << vmon::join(cs[i].GetCoefLabelList(), "+") << "}o" << ls[i];
      os << (y + 1 < m.cols ? " " : "");
    }
    os << (x + 1 < m.rows ? " / " : "");
  }
  os << "]";
  return os.str();
}

struct Term {
  size_t head;
  long coef;                 // coefficient label
  std::vector<long> ops;     // one basis operator label per site, from head on
  size_t tail() const { return head + ops.size() - 1; }
  OpReprVec reprs() const {
    OpReprVec v;
    for (size_t i = 0; i < ops.size(); ++i) v.push_back(i == 0 ? OpRepr(CoefRepr(coef), ops[i]) : OpRepr(ops[i]));
    return v;
  }
  std::string str() const { return "c" + std::to_string(coef) + "@" + std::to_string(head) + ":" + vmon::join(ops, "."); }
};
// value of the formal sum of terms at a point, identities label id[site] elsewhere
inline Fp eval_terms(const std::vector<Term> &ts, const std::vector<long> &id, const Point &pt) {
  Fp sum(0);
  for (auto &t : ts) {
    Fp p = pt.coef(t.coef);
    for (size_t s = 0; s < id.size(); ++s)
      p = p * (s >= t.head && s <= t.tail() ? pt.op(s, t.ops[s - t.head]) : pt.op(s, id[s]));
    sum += p;
  }
  return sum;
}

// Term-list families: uniform chains, long-range, ladders, fermion-like strings, all-to-all, repeats, random.
struct Problem {
  size_t n;
  std::vector<long> id;      // identity operator label of each site
  bool custom_id;
  std::vector<Term> terms;
  std::string family;
};
inline Problem gen_problem(Rng &r, size_t c, bool big) {
  Problem p;
  p.n = (size_t) r.range(1, big ? 14 : 9);
  p.custom_id = r.coin(0.35);
  for (size_t i = 0; i < p.n; ++i) p.id.push_back(p.custom_id ? (long) r.below(3) * 40 : 0);
  long nops = r.range(1, 6), ncoef = r.range(1, 5);
  auto coef = [&] { return r.coin(0.35) ? 0L : r.range(1, ncoef); };
  auto op = [&] { return r.range(1, nops); };
  auto multi = [&](size_t h, size_t t, long a, long b, long mid, long cf) {   // mid<0: site identity
    Term x; x.head = h; x.coef = cf;
    for (size_t s = h; s <= t; ++s) x.ops.push_back(s == h ? a : s == t ? b : mid < 0 ? p.id[s] : mid);
    p.terms.push_back(x);
  };
  static const char *fam[] = {"chain", "longrange", "ladder", "fermion", "alltoall", "repeats", "random", "onsite", "stringy", "fourbody"};
  size_t f = c % 10;
  p.family = fam[f];
  size_t n = p.n;
  switch (f) {
    case 0: {
      long a = op(), b = op(), cf = coef(), g = coef(), o = op();
      for (size_t i = 0; i + 1 < n; ++i) { multi(i, i + 1, a, b, -1, cf); if (r.coin(0.7)) multi(i, i + 1, b, a, -1, cf); }
      for (size_t i = 0; i < n; ++i) if (r.coin(0.8)) multi(i, i, o, o, -1, g);
      break;
    }
    case 1: {
      size_t d = 1 + r.below(n);
      long a = op(), b = op(); bool same = r.coin(); long cf = coef();
      for (size_t i = 0; i < n; ++i) for (size_t k = 1; k <= d && i + k < n; ++k) multi(i, i + k, a, b, -1, same ? cf : coef());
      break;
    }
    case 2: {
      size_t w = 2 + r.below(3); long a = op(), b = op(), c1 = coef(), c2 = coef();
      for (size_t i = 0; i < n; ++i) {
        if (i + w < n) { multi(i, i + w, a, b, -1, c1); multi(i, i + w, b, a, -1, c1); }
        if ((i + 1) % w && i + 1 < n) multi(i, i + 1, a, b, -1, c2);
        if (i % w == 0 && i + w - 1 < n && w > 2) multi(i, i + w - 1, a, b, -1, c2);
      }
      break;
    }
    case 3: {
      long a = op(), b = op(), fs = op(), cf = coef(), u = coef(), nn = op();
      for (size_t i = 0; i < n; ++i) for (size_t k = 1; k < 1 + n / 2 && i + k < n; ++k) if (r.coin(0.6)) {
        multi(i, i + k, a, b, fs, cf); multi(i, i + k, b, a, fs, cf); }
      for (size_t i = 0; i < n; ++i) multi(i, i, nn, nn, -1, u);
      break;
    }
    case 4: {
      long o1 = op(), o2 = op();
      for (size_t i = 0; i < n; ++i) for (size_t j = i + 1; j < n; ++j) multi(i, j, o1, r.coin() ? o1 : o2, -1, coef());
      break;
    }
    case 5: {
      size_t m = 1 + r.below(4);
      std::vector<Term> base;
      for (size_t k = 0; k < m; ++k) {
        Term t; t.head = r.below(n); size_t len = r.coin(0.4) ? 1 : 1 + r.below(n - t.head); t.coef = coef();
        for (size_t s = 0; s < len; ++s) t.ops.push_back(r.coin(0.3) ? p.id[t.head + s] : op());
        base.push_back(t);
      }
      size_t tot = 2 + r.below(10);
      for (size_t k = 0; k < tot; ++k) p.terms.push_back(r.pick(base));
      break;
    }
    case 7: {
      size_t tot = 1 + r.below(3 * n);
      for (size_t k = 0; k < tot; ++k) { size_t s = r.below(n); multi(s, s, op(), 0, -1, coef()); p.terms.back().ops.resize(1); }
      break;
    }
    case 8: {
      size_t tot = 1 + r.below(8);
      long s1 = op(), s2 = op();
      for (size_t k = 0; k < tot; ++k) { size_t h = r.below(n), t = h + r.below(n - h); multi(h, t, op(), op(), r.coin() ? s1 : s2, coef()); }
      break;
    }
    case 9: {
      size_t tot = 1 + r.below(10);
      long a = op(), b = op(), cc = op(), d = op(), cf = coef();
      for (size_t k = 0; k < tot && n >= 4; ++k) {
        std::vector<size_t> s; for (size_t i = 0; i < n; ++i) s.push_back(i);
        for (size_t i = 0; i < 4; ++i) std::swap(s[i], s[i + r.below(n - i)]);
        s.resize(4); std::sort(s.begin(), s.end());
        Term t; t.head = s[0]; t.coef = r.coin(0.6) ? cf : coef();
        for (size_t x = s[0]; x <= s[3]; ++x) t.ops.push_back(x == s[0] ? a : x == s[1] ? b : x == s[2] ? cc : x == s[3] ? d : p.id[x]);
        p.terms.push_back(t);
      }
      if (p.terms.empty()) multi(0, n - 1, op(), op(), -1, coef());
      break;
    }
    default: {
      size_t tot = 1 + r.below(big ? 24 : 14);
      for (size_t k = 0; k < tot; ++k) {
        Term t; t.head = r.below(n); size_t len = 1 + r.below(n - t.head); t.coef = coef();
        for (size_t s = 0; s < len; ++s) t.ops.push_back(r.coin(0.3) ? p.id[t.head + s] : op());
        p.terms.push_back(t);
      }
    }
  }
  if (p.terms.empty()) multi(0, 0, op(), 0, -1, coef());
  for (auto &t : p.terms) if (t.head + t.ops.size() > n) t.ops.resize(n - t.head);
  // n==1: two-site helper may have produced a one-site term already
  if (r.coin(0.5)) for (size_t i = p.terms.size(); i > 1; --i) std::swap(p.terms[i - 1], p.terms[r.below(i)]);
  return p;
}
inline FSM make_fsm(const Problem &p) {
  if (p.custom_id) {
    OpReprVec ids;
    for (auto l : p.id) ids.push_back(OpRepr(l));
    return FSM(p.n, ids);
  }
  return FSM(p.n);
}
inline std::string str(const Problem &p) {
  std::string s = p.family + " n=" + std::to_string(p.n) + " id=" + vmon::join(p.id) + " terms=";
  for (auto &t : p.terms) s += t.str() + " ";
  return s;
}
}  // namespace symb
#endif
