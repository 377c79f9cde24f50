// Effective one- and two-site problems of a random state and Hamiltonian, with their dense matrices.
#ifndef VERIF_EFF_H
#define VERIF_EFF_H
#include "tn.h"

template<typename T, typename QNT> struct EffProblem {
  using X = TN<T, QNT>; using Ten = QLTensor<T, QNT>; using MPSt = FiniteMPS<T, QNT>;
  std::vector<typename X::Idx> s; SiteVec<T, QNT> sv; MPSt mps; size_t N, c; QNT div;
  Mat<T> H; FiniteMPO<T, QNT> mpo; MatReprMPO<Ten> mr; std::string desc;
  std::vector<Ten> L, R;                             // tensor environments, by number of sites
  std::vector<std::vector<Ten>> LO, RO;              // operator blocks, by number of sites
  double scale = 1;

  static std::vector<typename X::Idx> Sites(Rng &r, size_t N) { return X::RandSites(r, N, 3, 160); }
  EffProblem(Rng &r, size_t N_, const std::vector<typename X::Idx> *given = nullptr, bool clean = false) : s(given ? *given : Sites(r, N_)), sv(s), mps(sv), N(N_), c(0), mpo(N_) {
    if (clean) { Clean(r); return; }
    auto Rn = X::RandMps(r, mps, s, 3, 1 + r.below(5)); div = Rn.div; desc = X::Desc(s);
    if (X::Scale(mps, 1.0) == 0) { N = 0; return; }
    MPOGenerator<T, QNT> g(sv); auto h = X::RandHam(r, s, 1 + r.below(5), 3, g); H = h.H;
    bool comp = r.coin(0.8); mpo = g.Gen(comp, false); mr = MatReprMPO<Ten>(g.GenMatReprMPO(false));
    for (auto &x : H.a) scale = std::max(scale, std::abs(x));
  }
  // a basis state and hopping between basis states with plain coefficients: arithmetic without round-off
  void Clean(Rng &r) {
    auto conf = X::RandConf(r, s); DirectStateInitMps(mps, conf); div = X::ConfQ(s, conf); desc = X::Desc(s) + " clean " + vmon::join(conf);
    MPOGenerator<T, QNT> g(sv); H = Mat<T>(X::Dim(s)); static const double nice[] = {1, 1, 2, 0.5, -1};
    auto add = [&](typename X::Term t) { X::Add(g, s, t); H = H + X::DenseTerm(s, t); };
    size_t want = 1 + r.below(5);
    for (size_t n = 0; n < want; ++n) {
      size_t k = 1 + r.below(2), at = r.below(N - k + 1); std::vector<size_t> a(k), b(k); QNT qa, qb; bool same = true;
      for (int tries = 0; tries < 40; ++tries) {
        qa = qb = QNT(); same = true;
        for (size_t i = 0; i < k; ++i) { auto q = s[at + i].Qns(); a[i] = r.coin(0.7) ? conf[at + i] : r.below(s[at + i].dim()); b[i] = r.below(s[at + i].dim()); qa += q[a[i]]; qb += q[b[i]]; same = same && a[i] == b[i]; }
        if (qa == qb && !same) break;
      }
      if (!(qa == qb)) continue;
      typename X::Term t, d; t.coef = d.coef = T(nice[r.below(5)]);
      for (size_t i = 0; i < k; ++i) { Mat<T> x(s[at + i].dim()); x(b[i], a[i]) = T(1); t.at.push_back(at + i); t.ops.push_back(x); d.ops.push_back(x.dag()); } d.at = t.at;
      add(t); if (!same) add(d);
    }
    if (H.norm() == 0) { typename X::Term t; t.at = {0}; t.ops = {Mat<T>::Id(s[0].dim())}; t.coef = T(1); add(t); }
    mpo = g.Gen(true, false); mr = MatReprMPO<Ten>(g.GenMatReprMPO(false));
    for (auto &x : H.a) scale = std::max(scale, std::abs(x));
  }
  // environments around sites [c, c + k), the state centralized there
  void Envs(size_t c_, size_t k) {
    c = c_; mps.Centralize((int) c);
    const MPSt &m = mps; L.assign(1, Ten()); R.assign(1, Ten()); LO.assign(1, {}); RO.assign(1, {});
    auto li = m[0].GetIndex(0), ri = m[N - 1].GetIndex(2);
    L[0] = Ten({li, InverseIndex(mpo[0].GetIndex(0)), InverseIndex(li)}); L[0]({0, 0, 0}) = T(1);
    R[0] = Ten({ri, InverseIndex(mpo[N - 1].GetIndex(3)), InverseIndex(ri)}); R[0]({0, 0, 0}) = T(1);
    Ten a({InverseIndex(li), li}), b({InverseIndex(ri), ri}); a({0, 0}) = T(1); b({0, 0}) = T(1);
    LO[0] = {a}; RO[0] = {b};
    for (size_t i = 0; i < c; ++i) { L.push_back(UpdateSiteLenvs(L.back(), m[i], mpo[i])); LO.push_back(UpdateLeftBlockOps(LO.back(), m[i], mr[i])); }
    for (size_t i = N; i-- > c + k;) { R.push_back(UpdateSiteRenvs(R.back(), m[i], mpo[i])); RO.push_back(UpdateRightBlockOps(RO.back(), m[i], mr[i])); }
  }
  // the state tensor of the k sites at c
  Ten State(size_t k) const {
    if (k == 1) return mps[c];
    Ten t; Contract(&mps[c], &mps[c + 1], {{2}, {0}}, &t); return t;
  }
  // elements of the state tensor allowed by symmetry
  std::vector<size_t> Support(const Ten &t) const {
    std::vector<std::vector<QNT>> q; for (auto &i : t.GetIndexes()) { auto v = i.Qns(); if (i.GetDir() == IN) for (auto &x : v) x = -x; q.push_back(v); }
    QNT want = t.Div(); std::vector<size_t> out;
    for (size_t o = 0; o < t.size(); ++o) { QNT a; size_t r = o; for (size_t i = q.size(); i-- > 0;) { a += q[i][r % q[i].size()]; r /= q[i].size(); } if (a == want) out.push_back(o); }
    return out;
  }
  // B: allowed elements -> full space, as columns
  std::vector<Vec<T>> Embedding(size_t k, const std::vector<size_t> &sup) const {
    const MPSt &m = mps; auto chain = [&](size_t from, size_t to, bool left) {     // matrix (phys x bond) or (bond x phys)
      size_t D = from < to ? m[left ? from : from].GetShape()[0] : 0; std::vector<T> v; size_t d = 1;
      if (from >= to) return std::vector<T>{T(1)};
      v.assign(D * D, T(0)); for (size_t i = 0; i < D; ++i) v[i * D + i] = T(1); size_t rows = D, B = D; (void) d;
      for (size_t i = from; i < to; ++i) { auto &t = m[i]; auto &sh = t.GetShape(); std::vector<T> w(rows * sh[1] * sh[2], T(0));
        for (size_t a = 0; a < rows; ++a) for (size_t b = 0; b < B; ++b) { T x = v[a * B + b]; if (x == T(0)) continue; for (size_t q = 0; q < sh[1] * sh[2]; ++q) w[a * sh[1] * sh[2] + q] += x * t.Raw()[b * sh[1] * sh[2] + q]; }
        v.swap(w); rows *= sh[1]; B = sh[2]; }
      return v; };
    auto Lm = chain(0, c, true), Rm = chain(c + k, N, false);
    size_t dl = 1, dr = 1, dm = 1; for (size_t i = 0; i < N; ++i) (i < c ? dl : i < c + k ? dm : dr) *= s[i].dim();
    size_t Dl = m[c].GetShape()[0], Dr = m[c + k - 1].GetShape()[2];
    std::vector<Vec<T>> B;
    for (size_t o : sup) { size_t b = o % Dr, p = o / Dr % dm, a = o / Dr / dm; Vec<T> v(dl * dm * dr);
      for (size_t x = 0; x < dl; ++x) for (size_t y = 0; y < dr; ++y) v.a[(x * dm + p) * dr + y] = Lm[x * Dl + a] * Rm[b * dr + y];
      B.push_back(v); }
    return B;
  }
  Mat<T> Heff(size_t k, const std::vector<size_t> &sup) const {
    auto B = Embedding(k, sup); Mat<T> h(sup.size());
    for (size_t j = 0; j < sup.size(); ++j) { Vec<T> w = H * B[j]; for (size_t i = 0; i < sup.size(); ++i) h(i, j) = B[i].dot(w); }
    return h;
  }
  Vec<T> Pick(const Ten &t, const std::vector<size_t> &sup) const { Vec<T> v(sup.size()); for (size_t i = 0; i < sup.size(); ++i) v.a[i] = t.Raw()[sup[i]]; return v; }
  void Put(Ten &t, const std::vector<size_t> &sup, const Vec<T> &v) const { for (auto &x : t.Raw()) x = T(0); for (size_t i = 0; i < sup.size(); ++i) t.Raw()[sup[i]] = v.a[i]; }
  std::vector<Ten *> Tensors(size_t k) { std::vector<Ten *> e{&L.back()}; for (size_t i = 0; i < k; ++i) e.push_back(const_cast<Ten *>(&mpo[c + i])); e.push_back(&R.back()); return e; }
  SuperBlockHamiltonianTerms<Ten> Terms() {
    SuperBlockHamiltonianTerms<Ten> h; auto &l = mr[c]; auto &q = mr[c + 1];
    for (size_t j = 0; j < l.cols; ++j) {
      BlockSiteHamiltonianTermGroup<Ten> bs; SiteBlockHamiltonianTermGroup<Ten> sb;
      for (size_t i = 0; i < l.rows; ++i) if (!l.IsNull(i, j)) bs.push_back({&LO.back()[i], const_cast<Ten *>(&l(i, j))});
      for (size_t k = 0; k < q.cols; ++k) if (!q.IsNull(j, k)) sb.push_back({const_cast<Ten *>(&q(j, k)), &RO.back()[k]});
      h.emplace_back(bs, sb);
    }
    return h;
  }
};

// Orthonormal Krylov vectors of H from v (reorthogonalized), at most n; stops at an invariant subspace.
template<typename T> struct Krylov {
  std::vector<Vec<T>> q; std::vector<double> a, b; bool exhausted = false; double weakest = 1;
  Krylov(const Mat<T> &H, const Vec<T> &v, size_t n, double scale) {
    Vec<T> x = v * T(1.0 / v.norm());
    for (size_t k = 0; k < n; ++k) {
      q.push_back(x); Vec<T> w = H * x; a.push_back(std::real(cd(x.dot(w))));
      for (int t = 0; t < 2; ++t) for (auto &y : q) w = w - y * y.dot(w);
      double nb = w.norm(); if (nb < 1e-11 * scale) { exhausted = true; break; }
      weakest = std::min(weakest, nb / scale); b.push_back(nb); x = w * T(1.0 / nb);
    }
  }
  size_t n() const { return q.size(); }
  Mat<double> Tri(size_t k) const { Mat<double> t(k); for (size_t i = 0; i < k; ++i) { t(i, i) = a[i]; if (i + 1 < k) t(i, i + 1) = t(i + 1, i) = b[i]; } return t; }
  double Low(size_t k) const { auto t = Tri(std::min(k, n())); return eigh(t)[0]; }
  Vec<cd> Exp(size_t k, cd z) const {      // coefficients of exp(z H) q0 in the first k vectors
    k = std::min(k, n()); Vec<cd> e(k); e.a[0] = 1; return expmv(Tri(k), z, e);
  }
};
#endif
