// P28: compressed bonds of short-range lattice models are the smallest possible ones.
#include "symb.h"
using namespace symb;
using vmon::Mon;

// rank of the bond i | i+1: left strings x right strings, coefficients taken at a random point
static size_t bond_rank(const Problem &p, size_t i, const Point &pt) {
  std::map<std::string, size_t> L, R; std::vector<std::tuple<size_t, size_t, Fp>> e;
  for (auto &t : p.terms) {
    std::string l, rr; for (size_t s = 0; s < p.n; ++s) { long o = s >= t.head && s <= t.tail() ? t.ops[s - t.head] : p.id[s]; (s <= i ? l : rr) += std::to_string(o) + "."; }
    size_t a = L.emplace(l, L.size()).first->second, b = R.emplace(rr, R.size()).first->second; e.emplace_back(a, b, pt.coef(CoefRepr(t.coef)));
  }
  Mat M(L.size(), std::vector<Fp>(R.size(), Fp(0))); for (auto &[a, b, x] : e) M[a][b] = M[a][b] + x;
  size_t rank = 0;
  for (size_t c = 0; c < R.size() && rank < L.size(); ++c) {
    size_t pv = rank; while (pv < L.size() && M[pv][c] == Fp(0)) ++pv; if (pv == L.size()) continue;
    std::swap(M[pv], M[rank]);
    for (size_t a = rank + 1; a < L.size(); ++a) { Fp x = M[a][c], y = M[rank][c]; if (x == Fp(0)) continue; for (size_t k = 0; k < R.size(); ++k) M[a][k] = M[a][k] * y - M[rank][k] * x; }
    ++rank;
  }
  return rank;
}
static Problem lattice(Rng &r, size_t f, bool big) {
  if (f < 3) { static const size_t fam[] = {0, 2, 7}; return gen_problem(r, fam[f], big); }
  Problem p; p.n = (size_t) r.range(2, big ? 16 : 10); size_t n = p.n; p.custom_id = r.coin(0.3); for (size_t i = 0; i < n; ++i) p.id.push_back(p.custom_id ? (long) r.below(3) * 40 : 0);
  long nc = 0; auto coef = [&] { return r.coin(0.25) ? 0L : ++nc; };
  auto two = [&](size_t i, size_t j, long a, long b, long mid, long cf) { if (j >= n) return; Term t; t.head = i; t.coef = cf; for (size_t s = i; s <= j; ++s) t.ops.push_back(s == i ? a : s == j ? b : mid < 0 ? p.id[s] : mid); p.terms.push_back(t); };
  auto one = [&](size_t i, long a, long cf) { Term t; t.head = i; t.coef = cf; t.ops = {a}; p.terms.push_back(t); };
  switch (f) {
    case 3: { p.family = "j1j2"; size_t d = 2; std::vector<long> j; for (size_t k = 0; k < d; ++k) j.push_back(coef()); long h = coef();
      for (size_t i = 0; i < n; ++i) { for (size_t k = 1; k <= d; ++k) { two(i, i + k, 1, 2, -1, j[k - 1]); two(i, i + k, 2, 1, -1, j[k - 1]); two(i, i + k, 3, 3, -1, j[k - 1]); } one(i, 3, h); } break; }
    case 4: { p.family = "xyz"; long a = coef(), b = coef(), c = coef(), h = coef(); for (size_t i = 0; i < n; ++i) { two(i, i + 1, 1, 1, -1, a); two(i, i + 1, 2, 2, -1, b); two(i, i + 1, 3, 3, -1, c); one(i, 3, h); } break; }
    case 5: { p.family = "fermion-ladder"; size_t w = 1 + r.below(3); long t = coef(), u = coef(), v = coef();
      for (size_t i = 0; i < n; ++i) { auto hop = [&](size_t j) { two(i, j, 1, 2, 5, t); two(i, j, 3, 4, 5, t); }; if (w > 1) hop(i + w); if (w == 1 || (i + 1) % w) { hop(i + 1); two(i, i + 1, 6, 6, -1, v); } one(i, 7, u); } break; }
    case 6: { p.family = "uniform-long-range"; long t = coef(), u = coef(); bool str = r.coin(); for (size_t i = 0; i < n; ++i) { for (size_t k = 1; i + k < n; ++k) two(i, i + k, 1, 2, str ? 5 : -1, t); one(i, 3, u); } break; }
    case 7: { p.family = "disordered-chain"; for (size_t i = 0; i < n; ++i) { two(i, i + 1, 1, 2, -1, coef()); two(i, i + 1, 2, 1, -1, coef()); one(i, 3, coef()); } break; }
    case 9: { p.family = "impurity"; long h = coef(); for (size_t i = 1; i < n; ++i) { long g = coef(); two(0, i, 1, 2, -1, g); two(0, i, 2, 1, -1, g); two(0, i, 3, 3, -1, g); one(i, 4, h); } break; }       // one site coupled to a bath
    case 10: { p.family = "impurity-last"; long h = coef(); for (size_t i = 0; i + 1 < n; ++i) { long g = coef(); two(i, n - 1, 1, 2, -1, g); two(i, n - 1, 2, 1, -1, g); one(i, 4, h); } break; }
    case 11: { p.family = "long-range-disorder"; for (size_t i = 0; i < n; ++i) { long g = coef(); for (size_t k = 1; i + k < n; ++k) two(i, i + k, 1, 2, -1, g); } break; }
    case 12: { p.family = "bilinear-tail"; for (size_t i = 0; i + 2 < n; ++i) { long g = coef(); for (int k = 0; k < 2; ++k) { Term x; x.head = i; x.coef = g; for (size_t s = i; s < n; ++s) x.ops.push_back(s == i ? 1 : s == n - 2 ? 2 + k : s == n - 1 ? 3 - k : p.id[s]); p.terms.push_back(x); } } break; }
    case 13: { p.family = "plaquette"; size_t w = 2; long t = coef(), u = coef(), v = coef(); for (size_t i = 0; i + 3 < n; i += 1) { if (i % w) continue; long q[4][4] = {{1, 2, 1, 2}, {2, 1, 2, 1}, {1, 2, 2, 1}, {2, 1, 1, 2}}; for (int k = 0; k < 4; ++k) { Term x; x.head = i; x.coef = k < 2 ? t : v; for (int s = 0; s < 4; ++s) x.ops.push_back(q[k][s]); p.terms.push_back(x); } one(i, 3, u); } break; }
    case 14: { p.family = "collective-field"; long t = coef(), h = coef(); for (size_t i = 0; i < n; ++i) { one(i, 1, t); one(i, 2, t); one(i, 3, h); two(i, i + 1, 4, 4, -1, h); } break; }
    case 15: { p.family = "long-range-last"; std::vector<long> g; for (size_t i = 0; i < n; ++i) g.push_back(coef()); for (size_t i = 0; i < n; ++i) for (size_t k = 1; i + k < n; ++k) two(i, i + k, 1, 2, -1, g[i + k]); break; }
    default: { p.family = "three-site"; long t = coef(), u = coef(); for (size_t i = 0; i + 2 < n; ++i) { Term x; x.head = i; x.coef = t; x.ops = {1, 2, 3}; p.terms.push_back(x); x.ops = {3, 2, 1}; p.terms.push_back(x); one(i, 4, u); } }
  }
  if (p.terms.empty()) one(0, 1, coef());
  if (r.coin(0.6)) for (size_t i = p.terms.size(); i > 1; --i) std::swap(p.terms[i - 1], p.terms[r.below(i)]);
  return p;
}
int main(int argc, char **argv) {
  return vmon::run(argc, argv, "p28", [](size_t c, Rng &r, Mon &m) {
    Problem p = lattice(r, c % 16, vmon::thorough() ? c % 2 == 0 : c % 8 == 0); Point pt(r.next());
    m.at("compress " + str(p).substr(0, 300));
    FSM fsm = make_fsm(p); for (auto &t : p.terms) fsm.AddPath(t.head, t.tail(), t.reprs());
    auto plain = fsm.GenMatRepr(), comp = fsm.GenCompressedMatRepr();
    if (!m.check(comp.size() == p.n, "sites", [&] { return str(p); })) return;
    size_t b0 = 0, b1 = 0;
    for (size_t i = 0; i + 1 < p.n; ++i) {
      size_t rk = bond_rank(p, i, pt); b0 += plain[i].cols; b1 += comp[i].cols;
      m.check(comp[i].cols >= rk, "below-rank", [&] { return "bond " + std::to_string(i) + " " + std::to_string(comp[i].cols) + " rank " + std::to_string(rk) + " " + str(p); });
      m.check(comp[i].cols <= rk, "not-minimal@" + p.family, [&] { return "bond " + std::to_string(i) + " " + std::to_string(comp[i].cols) + " rank " + std::to_string(rk) + " " + str(p); });
      m.count("bonds");
    }
    m.count("family_" + p.family); if (b1 < b0) m.count("really_compressed"); m.count("sum_plain", (long) b0); m.count("sum_compressed", (long) b1);
    if (p.n > 1 && p.terms.size() > 1) m.distinct(vmon::hash_str(str(p))); if (c < 40 && c % 7 == 0) m.sample(str(p) + " bonds " + std::to_string(b0) + "->" + std::to_string(b1));
  });
}
