// P14: operators and couplings of the built-in sites, against a Fock space built from creation operators alone.
#include "tn.h"
// Fock space of 2N modes, mode 2i = (site i, up), mode 2i+1 = (site i, down); occupation bits, bit m of the state.
struct Fock {
  size_t N;
  std::vector<std::vector<int>> states;      // per basis state: local label per site: 0 = double, 1 = up, 2 = down, 3 = empty
};
static int upOf(int l) { return l == 0 || l == 1; }
static int dnOf(int l) { return l == 0 || l == 2; }
// <row| product of c / c^dagger |col> on N sites; ops applied from the right
struct Cop { size_t site; bool up, dag; };
static double amp(std::vector<int> st, const std::vector<Cop> &ops, const std::vector<int> &row) {
  size_t N = st.size(); std::vector<int> occ(2 * N);
  for (size_t i = 0; i < N; ++i) { occ[2 * i] = upOf(st[i]); occ[2 * i + 1] = dnOf(st[i]); }
  double s = 1;
  for (size_t k = ops.size(); k-- > 0;) {
    size_t mth = 2 * ops[k].site + (ops[k].up ? 0 : 1);
    if (occ[mth] == (ops[k].dag ? 1 : 0)) return 0;
    for (size_t q = 0; q < mth; ++q) if (occ[q]) s = -s;
    occ[mth] = ops[k].dag;
  }
  for (size_t i = 0; i < N; ++i) if (occ[2 * i] != upOf(row[i]) || occ[2 * i + 1] != dnOf(row[i])) return 0;
  return s;
}
template<typename T, typename QNT> struct Judge {
  using X = TN<T, QNT>; using Ten = typename X::Ten;
  Mon &m; std::string fam; std::map<int, size_t> lab;    // label -> basis position
  typename X::Idx idx;
  using Elem = std::function<cd(int row, int col)>;
  void op(const char *name, const Ten &t, const Elem &e, int dN, int dSz) {
    m.at(fam + "::" + name);
    bool shape = t.Rank() == 2 && t.GetIndex(0) == InverseIndex(idx) && t.GetIndex(1) == idx;
    if (!m.check(shape, fam + "-" + name + "-legs")) return;
    double worst = 0; std::string where; bool any = false;
    for (auto &a : lab) for (auto &b : lab) {
      cd want = e(a.first, b.first), got = cd(t.GetElem({b.second, a.second})); any = any || want != cd(0);
      if (!(std::abs(want - got) <= 1e-14)) { worst = 1; where += " <" + std::to_string(a.first) + "|" + name + "|" + std::to_string(b.first) + "> is " + str(got) + " not " + str(want); }
    }
    m.check(worst == 0, fam + "-" + name + "-elements", where);
    if (any) m.check(t.Div() == charge(dN, dSz), fam + "-" + name + "-charge", "divergence " + qstr(t.Div()));
    m.count("operators");
  }
  static QNT charge(int dN, int dSz) { return mk((QNT *) nullptr, dN, dSz); }
  static special_qn::TrivialRepQN mk(special_qn::TrivialRepQN *, int, int) { return {}; }
  static special_qn::U1QN mk(special_qn::U1QN *, int, int s) { return special_qn::U1QN({QNCard("Sz", U1QNVal(s))}); }
  static special_qn::U1U1QN mk(special_qn::U1U1QN *, int n, int s) { return special_qn::U1U1QN({QNCard("N", U1QNVal(n)), QNCard("Sz", U1QNVal(s))}); }
};
static cd one(int r, int c, std::vector<Cop> o) { return amp({c}, o, {r}); }
static const Cop cu{0, true, false}, cud{0, true, true}, cdn{0, false, false}, cdnd{0, false, true};
static int par(int l) { return (upOf(l) + dnOf(l)) % 2 ? -1 : 1; }

template<typename J, typename O> void SpinOps(J &j, const O &o) {
  j.op("sz", o.sz, [](int r, int c) { return r == c ? cd(0.5 * (upOf(c) - dnOf(c))) : cd(0); }, 0, 0);
  j.op("sp", o.sp, [](int r, int c) { return one(r, c, {cud, cdn}); }, 0, 2);
  j.op("sm", o.sm, [](int r, int c) { return one(r, c, {cdnd, cu}); }, 0, -2);
  j.op("id", o.id, [](int r, int c) { return cd(r == c); }, 0, 0);
}
template<typename J, typename O> void SxSy(J &j, const O &o, double *) {
  j.op("sx", o.GetSx(), [](int r, int c) { return 0.5 * (one(r, c, {cud, cdn}) + one(r, c, {cdnd, cu})); }, 0, 0);
}
template<typename J, typename O> void SxSy(J &j, const O &o, cd *) {
  SxSy(j, o, (double *) nullptr);
  j.op("sy", o.GetSy(), [](int r, int c) { return cd(0, -0.5) * (one(r, c, {cud, cdn}) - one(r, c, {cdnd, cu})); }, 0, 0);
}
template<typename J, typename O> void FermiOps(J &j, const O &o, bool tj) {
  // one-site creation and annihilation parts: c_up = b_up, c_down = f b_down
  j.op("f", o.f, [](int r, int c) { return r == c ? cd(par(c)) : cd(0); }, 0, 0);
  j.op("bupc", o.bupc, [](int r, int c) { return one(r, c, {cud}); }, 1, 1);
  j.op("bupa", o.bupa, [](int r, int c) { return one(r, c, {cu}); }, -1, -1);
  j.op("bdnc", o.bdnc, [](int r, int c) { return one(r, c, {cdnd}) * cd(par(c)); }, 1, -1);
  j.op("bdna", o.bdna, [](int r, int c) { return one(r, c, {cdn}) * cd(par(r)); }, -1, 1);
  j.op("nf", o.nf, [](int r, int c) { return one(r, c, {cud, cu}) + one(r, c, {cdnd, cdn}); }, 0, 0);
  j.op("nup", o.nup, [](int r, int c) { return one(r, c, {cud, cu}); }, 0, 0);
  j.op("ndn", o.ndn, [](int r, int c) { return one(r, c, {cdnd, cdn}); }, 0, 0);
}
template<typename X, typename Mpo> void CompareMpo(Mon &m, const std::string &key, const Mpo &mpo, const std::vector<int> &label_at, size_t N, const std::function<cd(const std::vector<int> &, const std::vector<int> &)> &want, const std::string &desc) {
  auto D = X::DenseMpo(mpo); size_t d = label_at.size(), n = D.n; double e = 0, s = 1;
  for (size_t a = 0; a < n; ++a) for (size_t b = 0; b < n; ++b) {
    std::vector<int> r(N), c(N); size_t x = a, y = b;
    for (size_t i = N; i-- > 0;) { r[i] = label_at[x % d]; x /= d; c[i] = label_at[y % d]; y /= d; }
    cd w = want(r, c); s = std::max(s, std::abs(w)); e = std::max(e, std::abs(w - cd(D(a, b))));
  }
  m.check(e <= 1e-12 * s, key, "largest difference " + str(e) + " " + desc); m.count("couplings");
}
static cd heis(const std::vector<int> &r, const std::vector<int> &c, size_t i, size_t j) {
  cd v = 0.5 * (amp(c, {{i, true, true}, {i, false, false}, {j, false, true}, {j, true, false}}, r) + amp(c, {{i, false, true}, {i, true, false}, {j, true, true}, {j, false, false}}, r));
  if (r == c) v += 0.25 * (upOf(c[i]) - dnOf(c[i])) * (upOf(c[j]) - dnOf(c[j]));
  return v;
}
static cd hop(const std::vector<int> &r, const std::vector<int> &c, size_t i, size_t j, cd t) {   // -t c_i^dag c_j - conj(t) c_j^dag c_i
  cd v = 0; for (bool up : {true, false}) { v -= t * amp(c, {{i, up, true}, {j, up, false}}, r); v -= std::conj(t) * amp(c, {{j, up, true}, {i, up, false}}, r); }
  return v;
}
template<typename Site, typename X, typename T> void SiteVecs(Mon &m, Rng &r, Site &site, const std::string &fam) {
  size_t N = 1 + r.below(6); m.at(fam + "-sitevec");
  m.check(site.phys_bond_out.GetDir() == OUT && site.phys_bond_in == InverseIndex(site.phys_bond_out), fam + "-bonds");
  auto sv = site.template GenUniformSites<T>(N);
  m.check(sv.size == N && sv.sites.size() == N && sv.id_ops.size() == N, fam + "-sitevec-size");
  for (size_t i = 0; i < N; ++i) m.check(sv.sites[i] == site.phys_bond_out && dist(X::OpToMat(sv.id_ops[i]), Mat<T>::Id(site.phys_bond_out.dim())) == 0, fam + "-sitevec");
  // any mixture of directions is turned to OUT
  std::vector<typename X::Idx> v; for (size_t i = 0; i < N; ++i) { auto x = X::RandSite(r, 4); v.push_back(r.coin() ? x : InverseIndex(x)); }
  using SV = decltype(sv); SV a(v), b(a), c2(1, site.phys_bond_out); c2 = a;
  bool ok = a == b && !(a != b) && c2 == a && a.size == N && c2.size == N;
  for (size_t i = 0; i < N; ++i) ok = ok && a.sites[i].GetDir() == OUT && a.sites[i].dim() == v[i].dim() && (a.sites[i] == v[i] || a.sites[i] == InverseIndex(v[i])) && c2.sites[i] == a.sites[i]
      && dist(X::OpToMat(c2.id_ops[i]), Mat<T>::Id(v[i].dim())) == 0;
  m.check(ok, "site-vector");
  SV one(N, v[0]); bool u = one.size == N; for (auto &x : one.sites) u = u && x == a.sites[0]; m.check(u, "uniform-site-vector");
  bool diff = false; for (size_t i = 0; i < N; ++i) diff = diff || a.sites[i] != a.sites[0]; m.check((one == a) == !diff, "site-vector-equality");
}
template<typename T> T hopt(Rng &r) { return rnds<T>(r) + T(0.3); }

template<typename T, typename QNT> void Hubbard(Rng &r, Mon &m) {
  using X = TN<T, QNT>; sites::HubbardSite<QNT> site; HubbardOperators<T, QNT> o(site), dflt;
  HubbardOperators<T, QNT> &use = r.coin() ? o : dflt;
  Judge<T, QNT> j{m, "hubbard", {{0, site.double_occupancy}, {1, site.spin_up}, {2, site.spin_down}, {3, site.empty}}, site.phys_bond_out};
  SpinOps(j, use); FermiOps(j, use, false);
  if constexpr (std::is_same_v<QNT, special_qn::TrivialRepQN>) SxSy(j, use, (T *) nullptr);
  j.op("bupcF", use.bupcF, [](int a, int c) { return one(a, c, {cud}) * cd(par(c)); }, 1, 1);
  j.op("bupaF", use.bupaF, [](int a, int c) { return one(a, c, {cu}) * cd(par(c)); }, -1, -1);
  j.op("Fbdnc", use.Fbdnc, [](int a, int c) { return one(a, c, {cdnd}) * cd(par(c) * par(a)); }, 1, -1);
  j.op("Fbdna", use.Fbdna, [](int a, int c) { return one(a, c, {cdn}); }, -1, 1);
  j.op("cupccdnc", use.cupccdnc, [](int a, int c) { return one(a, c, {cud, cdnd}); }, 2, 0);
  j.op("cdnacupa", use.cdnacupa, [](int a, int c) { return one(a, c, {cdn, cu}); }, -2, 0);
  j.op("cupccdna", use.cupccdna, [](int a, int c) { return one(a, c, {cud, cdn}); }, 0, 2);
  j.op("cdnccupa", use.cdnccupa, [](int a, int c) { return one(a, c, {cdnd, cu}); }, 0, -2);
  j.op("nupndn", use.nupndn, [](int a, int c) { return one(a, c, {cud, cu, cdnd, cdn}); }, 0, 0);
  j.op("Uterm", use.Uterm, [](int a, int c) { return one(a, c, {cud, cu, cdnd, cdn}); }, 0, 0);
  j.op("nfsquare", use.nfsquare, [](int a, int c) { return a == c ? cd((upOf(c) + dnOf(c)) * (upOf(c) + dnOf(c))) : cd(0); }, 0, 0);
  SiteVecs<decltype(site), X, T>(m, r, site, "hubbard");
  size_t N = 2 + r.below(3); std::vector<int> lab(4); for (auto &p : j.lab) lab[p.second] = p.first;
  std::vector<std::array<size_t, 2>> bonds; std::vector<double> ts; std::vector<bool> ish; std::string desc = "N=" + std::to_string(N);
  MPOGenerator<T, QNT> g(site.template GenUniformSites<T>(N)); m.at("hubbard-coupling");
  for (size_t k = 0, n = 1 + r.below(4); k < n; ++k) {
    size_t a = r.below(N), b = r.below(N); if (a == b) continue;
    double t = r.sym() + 0.2; bool h = r.coin(0.3); bonds.push_back({a, b}); ts.push_back(t); ish.push_back(h);
    if (h) AddHeisenbergCoupling<T, QNT, HubbardOperators<T, QNT>>(g, t, a, b, use); else if (r.coin()) AddHubbardHoppingTerms<T, QNT>(g, t, a, b, use); else AddHubbardHoppingTerms<T, QNT>(g, t, a, b);
    desc += std::string(h ? " J" : " t") + "(" + std::to_string(a) + "," + std::to_string(b) + ")";
  }
  if (bonds.empty()) return;
  auto mpo = g.Gen(r.coin());
  CompareMpo<X>(m, "hubbard-coupling", mpo, lab, N, [&](const std::vector<int> &a, const std::vector<int> &c) { cd v = 0; for (size_t k = 0; k < bonds.size(); ++k) v += ish[k] ? ts[k] * heis(a, c, bonds[k][0], bonds[k][1]) : hop(a, c, bonds[k][0], bonds[k][1], ts[k]); return v; }, desc);
  m.distinct(vmon::hash_str("hub" + desc + str(ts[0])));
}
template<typename T, typename QNT> void TJ(Rng &r, Mon &m) {
  using X = TN<T, QNT>; sites::tJSite<QNT> site; tJOperators<T, QNT> o(site), dflt; tJOperators<T, QNT> &use = r.coin() ? o : dflt;
  Judge<T, QNT> j{m, "tJ", {{1, site.spin_up}, {2, site.spin_down}, {3, site.empty}}, site.phys_bond_out};
  SpinOps(j, use); FermiOps(j, use, true);
  j.op("bdnc_multi_bupa", use.bdnc_multi_bupa, [](int a, int c) { return one(a, c, {cdnd, cu}); }, 0, -2);
  j.op("bupc_multi_bdna", use.bupc_multi_bdna, [](int a, int c) { return one(a, c, {cud, cdn}); }, 0, 2);
  SiteVecs<decltype(site), X, T>(m, r, site, "tJ");
  size_t N = 2 + r.below(3); std::vector<int> lab(3); for (auto &p : j.lab) lab[p.second] = p.first;
  std::vector<std::array<size_t, 2>> bonds; std::vector<T> ts; std::vector<bool> ish; std::string desc = "N=" + std::to_string(N);
  MPOGenerator<T, QNT> g(site.template GenUniformSites<T>(N)); m.at("tJ-coupling");
  for (size_t k = 0, n = 1 + r.below(5); k < n; ++k) {
    size_t a = r.below(N), b = r.below(N); if (a == b) continue;
    T t = hopt<T>(r); bool h = r.coin(0.3); if (h) t = T(std::real(t)); bonds.push_back({a, b}); ts.push_back(t); ish.push_back(h);
    if (h) AddHeisenbergCoupling<T, QNT, tJOperators<T, QNT>>(g, std::real(t), a, b, use); else if (r.coin()) AddTJHoppingTerms<T, QNT>(g, t, a, b, use); else AddTJHoppingTerms<T, QNT>(g, t, a, b);
    desc += std::string(h ? " J" : " t") + "(" + std::to_string(a) + "," + std::to_string(b) + ")";
  }
  if (bonds.empty()) return;
  auto mpo = g.Gen(r.coin());
  CompareMpo<X>(m, "tJ-coupling", mpo, lab, N, [&](const std::vector<int> &a, const std::vector<int> &c) { cd v = 0; for (size_t k = 0; k < bonds.size(); ++k) v += ish[k] ? cd(ts[k]) * heis(a, c, bonds[k][0], bonds[k][1]) : hop(a, c, bonds[k][0], bonds[k][1], cd(ts[k])); return v; }, desc);
  m.distinct(vmon::hash_str("tj" + desc + str(ts[0])));
}
template<typename T, typename QNT> void Spin(Rng &r, Mon &m) {
  using X = TN<T, QNT>; sites::SpinOneHalfSite<QNT> site; SpinOneHalfOperators<T, QNT> o(site), dflt; SpinOneHalfOperators<T, QNT> &use = r.coin() ? o : dflt;
  Judge<T, QNT> j{m, "spin", {{1, site.spin_up}, {2, site.spin_down}}, site.phys_bond_out};
  SpinOps(j, use);
  if constexpr (std::is_same_v<QNT, special_qn::TrivialRepQN>) SxSy(j, use, (T *) nullptr);
  SiteVecs<decltype(site), X, T>(m, r, site, "spin");
  size_t N = 2 + r.below(5); std::vector<int> lab(2); for (auto &p : j.lab) lab[p.second] = p.first;
  std::vector<std::array<size_t, 2>> bonds; std::vector<double> ts; std::string desc = "N=" + std::to_string(N);
  MPOGenerator<T, QNT> g(site.template GenUniformSites<T>(N)); m.at("spin-coupling");
  for (size_t k = 0, n = 1 + r.below(6); k < n; ++k) {
    size_t a = r.below(N), b = r.below(N); if (a == b) continue;
    double t = r.sym() + 0.2; bonds.push_back({a, b}); ts.push_back(t);
    if (r.coin()) AddHeisenbergCoupling<T, QNT, SpinOneHalfOperators<T, QNT>>(g, t, a, b); else AddHeisenbergCoupling(g, t, a, b, use);
    desc += " J(" + std::to_string(a) + "," + std::to_string(b) + ")";
  }
  if (bonds.empty()) return;
  auto mpo = g.Gen(r.coin());
  CompareMpo<X>(m, "spin-coupling", mpo, lab, N, [&](const std::vector<int> &a, const std::vector<int> &c) { cd v = 0; for (size_t k = 0; k < bonds.size(); ++k) v += ts[k] * heis(a, c, bonds[k][0], bonds[k][1]); return v; }, desc);
  m.distinct(vmon::hash_str("spin" + desc + str(ts[0])));
}
int main(int argc, char **argv) {
  QuietCout q;
  return vmon::run(argc, argv, "p14", [](size_t c, Rng &r, Mon &m) {
    using namespace special_qn;
    switch (c % 9) {
      case 0: Hubbard<double, U1U1QN>(r, m); break;
      case 1: Hubbard<cd, U1QN>(r, m); break;
      case 2: Hubbard<cd, TrivialRepQN>(r, m); break;
      case 3: TJ<cd, U1U1QN>(r, m); break;
      case 4: TJ<double, U1QN>(r, m); break;
      case 5: TJ<cd, TrivialRepQN>(r, m); break;
      case 6: Spin<double, U1QN>(r, m); break;
      case 7: Spin<double, TrivialRepQN>(r, m); break;
      default: Spin<cd, TrivialRepQN>(r, m);
    }
  });
}
