// P16: sums, overlaps, scalings and entanglement of finite MPS, against the state vectors.
#include "tn.h"
template<typename T, typename QNT> bool Same(const FiniteMPS<T, QNT> &a, const FiniteMPS<T, QNT> &b) {
  for (size_t i = 0; i < a.size(); ++i) if (!a[i].Identical(b[i])) return false;
  return a.GetCenter() == b.GetCenter() && a.GetTensCanoType() == b.GetTensCanoType();
}
template<typename T, typename QNT> void Case(size_t c, Rng &r, Mon &m) {
  using X = TN<T, QNT>; using MPSt = FiniteMPS<T, QNT>;
  size_t N = 2 + r.below(6);
  auto s = X::RandSites(r, N, 3, 300); SiteVec<T, QNT> sv(s); std::string desc = X::Desc(s);
  auto make = [&](MPSt &k, const QNT *want, int carrier, QNT *div) {
    auto R = X::RandMps(r, k, s, 1 + r.below(4), 1 + r.below(7), want, carrier); if (div) *div = R.div;
    return X::Scale(k, std::pow(10.0, 2 * r.sym())) != 0;
  };
  QNT div; MPSt a(sv), b(sv), d(sv); int carrier = r.coin() ? 0 : (int) r.below(N);
  if (!make(a, nullptr, carrier, &div) || !make(b, &div, carrier, nullptr) || !make(d, &div, carrier, nullptr)) return;
  // any canonical form; centre moves of the same kind keep the leg directions compatible
  int form = (int) r.below(4), k0 = (int) r.below(N); bool sums = true;
  if (form == 1) { a.Centralize(k0); b.Centralize(k0); d.Centralize(k0); }
  if (form == 2) { a.Centralize(0); b.Centralize(0); d.Centralize(0); }
  if (form == 3) { a.Centralize((int) r.below(N)); if (r.coin()) b.Centralize((int) r.below(N)); sums = false; }
  Vec<T> A = X::Dense(a), B = X::Dense(b), D = X::Dense(d);
  double scale = std::max({A.norm(), B.norm(), D.norm()});
  desc += " form" + std::to_string(form);
  {                                                   // overlaps
    m.at("inner-product"); MPSt a0(a), b0(b);
    T ab = FiniteMPSInnerProd(a, b), ba = FiniteMPSInnerProd(b, a), aa = FiniteMPSInnerProd(a, a), bd = FiniteMPSInnerProd(b, d);
    double t = 1e-11 * A.norm() * B.norm();
    m.check(std::abs(ab - B.dot(A)) < t, "overlap", [&] { return str(ab) + " not " + str(B.dot(A)) + " " + desc; });
    m.check(std::abs(ba - A.dot(B)) < t, "overlap-conjugate", [&] { return str(ba) + " not " + str(A.dot(B)) + " " + desc; });
    m.check(std::abs(aa - A.dot(A)) < 1e-11 * A.norm() * A.norm(), "self-overlap", [&] { return str(aa) + " not " + str(A.dot(A)) + " " + desc; });
    m.check(std::abs(bd - D.dot(B)) < 1e-11 * B.norm() * D.norm(), "overlap");
    m.check(Same(a, a0) && Same(b, b0), "overlap-modified-operand"); m.count("overlaps", 4);
    if (std::abs(ab) > 1e-3 * A.norm() * B.norm()) m.count("large_overlaps");
  }
  if (sums) {                                         // sums, also of sums, into vectors that held something else
    m.at("sum"); MPSt a0(a), b0(b), cc(sv); int pre = (int) r.below(4); 
    if (pre == 1) { cc = d; cc.Centralize((int) r.below(N)); } if (pre == 2) { for (size_t i = 0; i < N; ++i) cc.alloc(i); } if (pre == 3) cc = b;
    FiniteMPSAdd(a, b, cc);
    m.check(Same(a, a0) && Same(b, b0), "sum-modified-operand");
    std::string why; m.check(X::BondsMatch(cc, s, why), "sum-bonds", [&] { return why + desc; });
    const MPSt &kc = cc, &ka = a, &kb = b; for (size_t i = 0; i + 1 < N; ++i) m.check(kc[i].GetShape()[2] <= ka[i].GetShape()[2] + kb[i].GetShape()[2], "sum-bond-size");
    Vec<T> C = X::Dense(cc); m.check(dist(C, A + B) < 1e-11 * scale, "sum", [&] { return str(dist(C, A + B)) + " " + desc + " pre" + std::to_string(pre); }); m.count("sums");
    if (r.coin()) {
      T x = rnds<T>(r), y = rnds<T>(r); MPSt p(cc), q(d), w(sv);      // x (a+b) + y d
      if (r.coin()) p[0] *= x; else *p(r.below(N)) *= x; q[r.below(N)] *= y;
      FiniteMPSAdd(p, q, w); Vec<T> W = X::Dense(w); m.check(dist(W, (A + B) * x + D * y) < 1e-11 * scale * 3, "combination", [&] { return str(dist(W, (A + B) * x + D * y)) + desc; }); m.count("combinations");
      cc = w; C = W;
    }
    if (r.coin(0.6) && C.norm() > 1e-6 * scale) {     // the sum is an ordinary state: it can be centred and compressed
      m.at("sum-centralize"); int k = (int) r.below(N); cc.Centralize(k);
      m.check(dist(X::Dense(cc), C) < 1e-10 * scale && X::CanonErr(cc, k) < 1e-9, "sum-centralize", desc); m.count("sum_centered");
    }
  }
  {                                                   // entropy of given singular values, zeros among them
    size_t n = 1 + r.below(6); Index<QNT> io({QNSector<QNT>(QNT(), n)}, OUT); QLTensor<double, QNT> sg({InverseIndex(io), io}); std::vector<double> sv2(n); double t = 0;
    for (auto &x : sv2) { x = r.coin(0.3) ? 0.0 : r.unit(); t += x * x; }
    if (t > 0) { for (size_t i = 0; i < n; ++i) { sv2[i] /= std::sqrt(t); sg(i, i) = sv2[i]; } double got = MeasureEE(sg, n); m.check(std::abs(got - X::Entropy(sv2, 1)) < 1e-10, "spectrum-entropy", [&] { return str(got) + " of " + vmon::join(sv2); }); m.count("spectra"); }
  }
  {                                                   // entanglement
    MPSt e(sv); Vec<T> E; int kind = (int) r.below(9); bool prod = false;
    if (kind == 0) { auto cf = X::RandConf(r, s); E = Vec<T>(X::Dim(s)); E.a[X::Rank(s, cf)] = T(1); DirectStateInitMps(e, cf); prod = true; }
    else if (kind == 1) { auto cf = X::RandConf(r, s); MPSt p(sv), q(sv); DirectStateInitMps(p, cf); q = p; p[0] *= T(3.0); FiniteMPSAdd(p, q, e); E = X::Dense(e); prod = true; }   // product state on doubled bonds
    else if (kind == 2 && sums) { FiniteMPSAdd(a, a, e); E = X::Dense(e); }
    else if (kind == 3) { e = b; E = B; }
    else { e = a; E = A; }
    if (r.coin() ) e.Centralize((int) r.below(N));
    size_t n = 1 + r.below(4); m.at("entropy n=" + std::to_string(n) + " kind=" + std::to_string(kind));
    auto ee = e.GetEntanglementEntropy(n);
    m.check(ee.size() == N - 1, "entropy-size");
    for (size_t i = 0; i + 1 < N && i < ee.size(); ++i) {
      double w = X::Entropy(X::Schmidt(s, E, i + 1), n);
      m.check(std::abs(ee[i] - w) < 1e-8, "entropy", [&] { return "bond " + std::to_string(i) + " order " + std::to_string(n) + ": " + str(ee[i]) + " not " + str(w) + " kind " + std::to_string(kind) + desc; });
      m.count("entropies"); if (prod) m.count("product_state_entropies"); if (n > 1) m.count("renyi"); if (w > 0.1) m.count("entangled_bonds");
    }
    Vec<T> after = X::Dense(e); m.check(dist(after, E * T(1.0 / E.norm())) < 1e-9, "entropy-state", [&] { return str(dist(after, E * T(1.0 / E.norm()))) + desc; });
    std::string why; m.check(X::BondsMatch(e, s, why), "entropy-bonds", why);
    auto ty = e.GetTensCanoType(); const MPSt &ke = e; for (size_t i = 0; i < N; ++i) { if (ty[i] == MPSTenCanoType::RIGHT) m.check(X::RightErr(ke[i]) < 1e-9, "entropy-flags"); if (ty[i] == MPSTenCanoType::LEFT) m.check(X::LeftErr(ke[i]) < 1e-9, "entropy-flags"); }
  }
  if (A.norm() > 0 && N > 2) m.distinct(vmon::hash_str(desc + str(A.norm()) + str(B.norm())));
  if (c % 71 == 0) m.sample(desc);
}
int main(int argc, char **argv) {
  QuietCout q;
  return vmon::run(argc, argv, "p16", [](size_t c, Rng &r, Mon &m) {
    switch (c % 4) {
      case 0: Case<double, special_qn::U1QN>(c, r, m); break;
      case 1: Case<cd, special_qn::U1U1QN>(c, r, m); break;
      case 2: Case<cd, special_qn::TrivialRepQN>(c, r, m); break;
      default: Case<cd, special_qn::U1QN>(c, r, m);
    }
  });
}
