// Generators and dense references for the tensor-level harnesses.
#ifndef VERIF_TN_H
#define VERIF_TN_H
#include "vmon.h"
#include "ultradmrg.h"
#include <dirent.h>
#include <sys/stat.h>
using vmon::Mon; using vmon::Rng;
using namespace qlten;
using namespace qlmps;
using cd = std::complex<double>;

struct QuietCout {       // the library prints a lot; the text is not part of the properties
  QuietCout() { std::cout.setstate(std::ios::failbit); }
};

// everything the library prints to std::cout while this lives
struct CoutCapture {
  std::ostringstream os; std::streambuf *old; std::ios::iostate st;
  CoutCapture() : old(std::cout.rdbuf()), st(std::cout.rdstate()) { std::cout.rdbuf(os.rdbuf()); std::cout.clear(); }
  ~CoutCapture() { std::cout.rdbuf(old); std::cout.clear(); std::cout.setstate(st); }
  std::string str() { return os.str(); }
};

inline double rnd(Rng &r, double *) { return r.sym(); }
inline cd rnd(Rng &r, cd *) { double a = r.sym(), b = r.sym(); return {a, b}; }
template<typename T> T rnds(Rng &r) { return rnd(r, (T *) nullptr); }
inline double cj(double x) { return x; }
inline cd cj(cd x) { return std::conj(x); }
inline bool fin(double x) { return std::isfinite(x); }
inline bool fin(cd x) { return std::isfinite(x.real()) && std::isfinite(x.imag()); }

template<typename T> struct Vec {
  std::vector<T> a;
  Vec() = default;
  explicit Vec(size_t n) : a(n, T(0)) {}
  size_t n() const { return a.size(); }
  T dot(const Vec &o) const { T s(0); for (size_t i = 0; i < n(); ++i) s += cj(a[i]) * o.a[i]; return s; }
  double norm() const { double s = 0; for (auto &x : a) s += std::norm(cd(x)); return std::sqrt(s); }
  Vec operator*(T k) const { Vec r(*this); for (auto &x : r.a) x *= k; return r; }
  Vec operator+(const Vec &o) const { Vec r(*this); for (size_t i = 0; i < n(); ++i) r.a[i] += o.a[i]; return r; }
  Vec operator-(const Vec &o) const { Vec r(*this); for (size_t i = 0; i < n(); ++i) r.a[i] -= o.a[i]; return r; }
  bool finite() const { for (auto &x : a) if (!fin(x)) return false; return true; }
};
template<typename T> double dist(const Vec<T> &x, const Vec<T> &y) { if (x.n() != y.n()) return 1e300; double d = (x - y).norm(); return std::isfinite(d) ? d : 1e300; }

template<typename T> struct Mat {      // row-major, a[row*n+col]
  size_t n = 0; std::vector<T> a;
  Mat() = default;
  explicit Mat(size_t n_) : n(n_), a(n_ * n_, T(0)) {}
  T &operator()(size_t i, size_t j) { return a[i * n + j]; }
  const T &operator()(size_t i, size_t j) const { return a[i * n + j]; }
  static Mat Id(size_t n) { Mat m(n); for (size_t i = 0; i < n; ++i) m(i, i) = T(1); return m; }
  Mat operator*(T k) const { Mat r(*this); for (auto &x : r.a) x *= k; return r; }
  Mat operator+(const Mat &o) const { Mat r(*this); for (size_t i = 0; i < a.size(); ++i) r.a[i] += o.a[i]; return r; }
  Mat operator-(const Mat &o) const { Mat r(*this); for (size_t i = 0; i < a.size(); ++i) r.a[i] -= o.a[i]; return r; }
  Mat operator*(const Mat &o) const { Mat r(n); if (n) qlten::detail::Gemm(a.data(), o.a.data(), n, n, n, r.a.data()); return r; }
  Vec<T> operator*(const Vec<T> &v) const { Vec<T> r(n); for (size_t i = 0; i < n; ++i) { T s(0); for (size_t j = 0; j < n; ++j) s += a[i * n + j] * v.a[j]; r.a[i] = s; } return r; }
  Mat dag() const { Mat r(n); for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) r(i, j) = cj(a[j * n + i]); return r; }
  T tr() const { T s(0); for (size_t i = 0; i < n; ++i) s += a[i * n + i]; return s; }
  double norm() const { double s = 0; for (auto &x : a) s += std::norm(cd(x)); return std::sqrt(s); }
};
template<typename T> double dist(const Mat<T> &x, const Mat<T> &y) { if (x.n != y.n) return 1e300; double d = (x - y).norm(); return std::isfinite(d) ? d : 1e300; }
template<typename T> Mat<T> kron(const Mat<T> &x, const Mat<T> &y) {
  Mat<T> r(x.n * y.n);
  for (size_t i = 0; i < x.n; ++i) for (size_t j = 0; j < x.n; ++j) if (x(i, j) != T(0))
    for (size_t k = 0; k < y.n; ++k) for (size_t l = 0; l < y.n; ++l) r(i * y.n + k, j * y.n + l) = x(i, j) * y(k, l);
  return r;
}
// eigenvalues ascending; columns of m become eigenvectors
inline std::vector<double> eigh(Mat<double> &m) {
  std::vector<double> w(m.n);
  if (m.n && LAPACKE_dsyev(LAPACK_ROW_MAJOR, 'V', 'U', m.n, m.a.data(), m.n, w.data())) _exit(72);
  return w;
}
inline std::vector<double> eigh(Mat<cd> &m) {
  std::vector<double> w(m.n);
  if (m.n && LAPACKE_zheev(LAPACK_ROW_MAJOR, 'V', 'U', m.n, m.a.data(), m.n, w.data())) _exit(72);
  return w;
}
// exp(z H) for Hermitian H, applied to v
template<typename T> Vec<cd> expmv(const Mat<T> &H, cd z, const Vec<cd> &v) {
  Mat<cd> M(H.n); for (size_t i = 0; i < H.a.size(); ++i) M.a[i] = cd(H.a[i]);
  auto w = eigh(M);
  Vec<cd> c(H.n), r(H.n);
  for (size_t k = 0; k < H.n; ++k) { cd s(0); for (size_t i = 0; i < H.n; ++i) s += std::conj(M(i, k)) * v.a[i]; c.a[k] = s * std::exp(z * w[k]); }
  for (size_t i = 0; i < H.n; ++i) { cd s(0); for (size_t k = 0; k < H.n; ++k) s += M(i, k) * c.a[k]; r.a[i] = s; }
  return r;
}
template<typename T> Mat<cd> expm(const Mat<T> &H, cd z) {
  Mat<cd> M(H.n); for (size_t i = 0; i < H.a.size(); ++i) M.a[i] = cd(H.a[i]);
  auto w = eigh(M); Mat<cd> E(M);
  for (size_t i = 0; i < H.n; ++i) for (size_t k = 0; k < H.n; ++k) E(i, k) *= std::exp(z * w[k]);
  return E * M.dag();
}

inline void mkqn(special_qn::TrivialRepQN &q, int, int) { q = special_qn::TrivialRepQN(); }
inline void mkqn(special_qn::U1QN &q, int a, int) { q = special_qn::U1QN({QNCard("N", U1QNVal(a))}); }
inline void mkqn(special_qn::U1U1QN &q, int a, int b) { q = special_qn::U1U1QN({QNCard("N", U1QNVal(a)), QNCard("Sz", U1QNVal(b))}); }
inline std::string qstr(const special_qn::TrivialRepQN &) { return "*"; }
inline std::string qstr(const special_qn::U1QN &q) { return std::to_string(q.Val(0)); }
inline std::string qstr(const special_qn::U1U1QN &q) { return std::to_string(q.Val(0)) + ":" + std::to_string(q.Val(1)); }

template<typename T, typename QNT>
struct TN {
  using Ten = QLTensor<T, QNT>; using Idx = Index<QNT>; using Sct = QNSector<QNT>;
  using MPSt = FiniteMPS<T, QNT>;
  static QNT Q(int a, int b = 0) { QNT q; mkqn(q, a, b); return q; }

  // ------------------------------------------------------------ Hilbert spaces
  static Idx RandSite(Rng &r, size_t maxd) {
    size_t d = 2 + r.below(maxd - 1);
    std::vector<Sct> s; std::vector<QNT> used;
    if (QNT::kNum == 0) return Idx({Sct(QNT(), d)}, OUT);
    size_t left = d;
    while (left) {
      size_t k = r.coin(0.75) ? 1 : 1 + r.below(left);
      QNT q;
      for (int t = 0; t < 50; ++t) { q = Q((int) r.range(-2, 2), (int) r.range(-1, 1)); if (std::find(used.begin(), used.end(), q) == used.end()) break; }
      if (std::find(used.begin(), used.end(), q) != used.end()) { q = Q(5 + (int) used.size(), 0); }
      used.push_back(q); s.emplace_back(q, k); left -= k;
    }
    return Idx(s, OUT);
  }
  static std::vector<Idx> RandSites(Rng &r, size_t N, size_t maxd, size_t maxdim) {
    std::vector<Idx> v; bool uni = r.coin(0.6); Idx u = RandSite(r, maxd); size_t dim = 1;
    for (size_t i = 0; i < N; ++i) {
      Idx x = uni ? u : RandSite(r, maxd);
      if (dim * x.dim() * (size_t) std::pow(2, N - i - 1) > maxdim) {
        x = QNT::kNum ? Idx({Sct(Q(1), 1), Sct(Q(-1), 1)}, OUT) : Idx({Sct(QNT(), 2)}, OUT);
      }
      dim *= x.dim(); v.push_back(x);
    }
    return v;
  }
  static size_t Dim(const std::vector<Idx> &s) { size_t d = 1; for (auto &x : s) d *= x.dim(); return d; }
  static QNT ConfQ(const std::vector<Idx> &s, const std::vector<size_t> &c) { QNT q; for (size_t i = 0; i < s.size(); ++i) q += s[i].GetQNSctFromActualCoor(c[i]).GetQn(); return q; }
  static std::vector<size_t> Unrank(const std::vector<Idx> &s, size_t k) { std::vector<size_t> c(s.size()); for (size_t i = s.size(); i-- > 0;) { c[i] = k % s[i].dim(); k /= s[i].dim(); } return c; }
  static size_t Rank(const std::vector<Idx> &s, const std::vector<size_t> &c) { size_t k = 0; for (size_t i = 0; i < s.size(); ++i) k = k * s[i].dim() + c[i]; return k; }
  static std::vector<size_t> Sector(const std::vector<Idx> &s, const QNT &q) { std::vector<size_t> v; for (size_t k = 0; k < Dim(s); ++k) if (ConfQ(s, Unrank(s, k)) == q) v.push_back(k); return v; }
  static std::vector<size_t> RandConf(Rng &r, const std::vector<Idx> &s) { std::vector<size_t> c; for (auto &x : s) c.push_back(r.below(x.dim())); return c; }

  // ------------------------------------------------------------ one-site operators: legs (IN column, OUT row)
  static Ten MatToOp(const Idx &s, const Mat<T> &m) {
    Ten t({InverseIndex(s), s});
    for (size_t i = 0; i < m.n; ++i) for (size_t j = 0; j < m.n; ++j) if (m(i, j) != T(0)) t({j, i}) = m(i, j);
    return t;
  }
  static Mat<T> OpToMat(const Ten &t) { Mat<T> m(t.GetShape()[0]); for (size_t i = 0; i < m.n; ++i) for (size_t j = 0; j < m.n; ++j) m(i, j) = t.GetElem({j, i}); return m; }
  static std::vector<QNT> OpCharges(const Idx &s) {
    std::vector<QNT> v; for (auto &a : s.GetQNScts()) for (auto &b : s.GetQNScts()) { QNT q = a.GetQn() - b.GetQn(); if (std::find(v.begin(), v.end(), q) == v.end()) v.push_back(q); }
    return v;
  }
  // random matrix raising the charge by dq; never zero when such elements exist
  static Mat<T> RandOp(Rng &r, const Idx &s, const QNT &dq, int style) {
    auto q = s.Qns(); Mat<T> m(q.size()); std::vector<std::pair<size_t, size_t>> ok;
    for (size_t i = 0; i < q.size(); ++i) for (size_t j = 0; j < q.size(); ++j) if (q[i] - q[j] == dq) ok.emplace_back(i, j);
    if (ok.empty()) return m;
    if (style == 0) for (auto &p : ok) m(p.first, p.second) = rnds<T>(r);
    else if (style == 1) { auto p = r.pick(ok); m(p.first, p.second) = T(1); }
    else { for (auto &p : ok) m(p.first, p.second) = T((double) r.range(-2, 2)); auto p = r.pick(ok); m(p.first, p.second) = T(r.coin() ? -1.0 : 1.0); }
    return m;
  }
  static Mat<T> RandHermOp(Rng &r, const Idx &s) {
    Mat<T> m = RandOp(r, s, QNT(), 0); Mat<T> h = (m + m.dag()) * T(0.5);
    if (h.norm() < 0.05) return Mat<T>::Id(s.dim());
    return h;
  }
  // sum over sites embedding
  static Mat<T> Embed(const std::vector<Idx> &s, const std::vector<Mat<T>> &ops, const std::vector<size_t> &at) {
    Mat<T> r = Mat<T>::Id(1);
    for (size_t i = 0; i < s.size(); ++i) {
      Mat<T> loc = Mat<T>::Id(s[i].dim());
      for (size_t k = 0; k < at.size(); ++k) if (at[k] == i) loc = ops[k] * loc;
      r = kron(r, loc);
    }
    return r;
  }

  // ------------------------------------------------------------ dense forms
  static Vec<T> Dense(const MPSt &mps) {
    std::vector<T> v{T(1)}; size_t D = 1, d = 1;
    for (size_t i = 0; i < mps.size(); ++i) {
      const Ten &t = mps[i]; auto &sh = t.GetShape();
      if (sh.size() != 3 || sh[0] != D) throw std::logic_error("mps bond mismatch");
      std::vector<T> w(d * sh[1] * sh[2], T(0));
      for (size_t a = 0; a < d; ++a) for (size_t b = 0; b < D; ++b) { T x = v[a * D + b]; if (x == T(0)) continue;
        const T *p = t.Raw().data() + b * sh[1] * sh[2]; T *q = w.data() + a * sh[1] * sh[2];
        for (size_t k = 0; k < sh[1] * sh[2]; ++k) q[k] += x * p[k]; }
      v.swap(w); d *= sh[1]; D = sh[2];
    }
    if (D != 1) throw std::logic_error("mps right boundary");
    Vec<T> r; r.a = v; return r;
  }
  // mpo legs: left, in (column), out (row), right
  template<typename MPOt> static Mat<T> DenseMpo(const MPOt &mpo) {
    std::vector<T> v{T(1)}; size_t D = 1, d = 1;      // v[row,col,bond]
    for (size_t i = 0; i < mpo.size(); ++i) {
      const Ten &t = mpo[i]; auto &sh = t.GetShape();
      if (sh.size() != 4 || sh[0] != D || sh[1] != sh[2]) throw std::logic_error("mpo shape");
      size_t p = sh[1], R = sh[3]; std::vector<T> w(d * p * d * p * R, T(0));
      for (size_t a = 0; a < d; ++a) for (size_t b = 0; b < d; ++b) for (size_t l = 0; l < D; ++l) { T x = v[(a * d + b) * D + l]; if (x == T(0)) continue;
        for (size_t c = 0; c < p; ++c) for (size_t o = 0; o < p; ++o) for (size_t k = 0; k < R; ++k)
          w[((a * p + o) * (d * p) + b * p + c) * R + k] += x * t.Raw()[((l * p + c) * p + o) * R + k]; }
      v.swap(w); d *= p; D = R;
    }
    if (D != 1) throw std::logic_error("mpo right boundary");
    Mat<T> m(d); m.a = v; return m;
  }
  static Mat<T> DenseMatRepr(const std::vector<Idx> &s, const MatReprMPO<Ten> &mr) {
    std::vector<Mat<T>> row{Mat<T>::Id(1)};
    for (size_t i = 0; i < mr.size(); ++i) {
      const auto &m = mr[i];
      if (m.rows != row.size()) throw std::logic_error("matrix mpo shape");
      std::vector<Mat<T>> nx(m.cols, Mat<T>(row[0].n * s[i].dim()));
      for (size_t x = 0; x < m.rows; ++x) for (size_t y = 0; y < m.cols; ++y) { const Ten &e = m(x, y); if (e.IsDefault()) continue; nx[y] = nx[y] + kron(row[x], OpToMat(e)); }
      row.swap(nx);
    }
    if (row.size() != 1) throw std::logic_error("matrix mpo right boundary");
    return row[0];
  }

  // ------------------------------------------------------------ states
  struct Rand { QNT div; std::vector<std::vector<size_t>> confs; size_t carrier; };
  // fills an MPS (over sites s) with random tensors of total charge div; bonds carry the charges of a few configurations
  static Rand RandMps(Rng &r, MPSt &mps, const std::vector<Idx> &s, size_t maxdeg, size_t nconf, const QNT *want = nullptr, int carrier = -1) {
    Rand R; size_t N = s.size();
    if (want) {
      auto sec = Sector(s, *want); for (size_t k = 0; k < nconf; ++k) R.confs.push_back(Unrank(s, r.pick(sec)));
      R.div = *want;
    } else {
      R.confs.push_back(RandConf(r, s)); R.div = ConfQ(s, R.confs[0]);
      for (size_t t = 0; t < 60 * nconf && R.confs.size() < nconf; ++t) { auto c = r.coin() ? RandConf(r, s) : r.pick(R.confs); if (r.coin()) { size_t a = r.below(N), b = r.below(N); if (c[a] < s[b].dim() && c[b] < s[a].dim()) std::swap(c[a], c[b]); } if (ConfQ(s, c) == R.div) R.confs.push_back(c); }
    }
    R.carrier = carrier >= 0 ? (size_t) carrier : r.coin(0.6) ? 0 : r.below(N);
    Idx lv({Sct(QNT(), 1)}, IN);
    std::vector<QNT> acc(R.confs.size());
    for (size_t i = 0; i < N; ++i) {
      QNT here = i == R.carrier ? R.div : QNT(); Idx rv;
      if (i == N - 1) rv = Idx({Sct(QNT(), 1)}, OUT);
      else {
        std::vector<Sct> sc; std::vector<QNT> seen;
        for (size_t k = 0; k < R.confs.size(); ++k) {
          acc[k] = acc[k] - s[i].GetQNSctFromActualCoor(R.confs[k][i]).GetQn() + here;     // right bond charge
          if (std::find(seen.begin(), seen.end(), acc[k]) == seen.end()) { seen.push_back(acc[k]); sc.emplace_back(acc[k], 1 + r.below(maxdeg)); }
        }
        rv = Idx(sc, OUT);
      }
      Ten t({lv, s[i], rv});
      auto qa = lv.Qns(), qb = s[i].Qns(), qc = rv.Qns();
      for (size_t a = 0; a < qa.size(); ++a) for (size_t b = 0; b < qb.size(); ++b) for (size_t c = 0; c < qc.size(); ++c)
        if (-qa[a] + qb[b] + qc[c] == here) t({a, b, c}) = rnds<T>(r);
      delete mps(i); mps(i) = new Ten(std::move(t));
      lv = InverseIndex(rv);
    }
    return R;
  }
  static double Scale(MPSt &mps, double target) {
    double n = Dense(mps).norm(); if (!(n > 1e-9)) return 0;
    *mps(0) *= T(target / n); return target;
  }
  static bool BondsMatch(const MPSt &mps, const std::vector<Idx> &s, std::string &why) {
    for (size_t i = 0; i < mps.size(); ++i) {
      if (mps(i) == nullptr) { why = "missing tensor " + std::to_string(i); return false; }
      if (mps[i].Rank() != 3) { why = "rank at " + std::to_string(i); return false; }
      if (mps[i].GetIndex(1) != s[i]) { why = "physical index at " + std::to_string(i); return false; }
      if (i + 1 < mps.size() && mps(i + 1) && mps[i].GetIndex(2) != InverseIndex(mps[i + 1].GetIndex(0))) { why = "bond " + std::to_string(i); return false; }
    }
    if (mps[0].GetShape()[0] != 1 || mps[mps.size() - 1].GetShape()[2] != 1) { why = "boundary"; return false; }
    return true;
  }
  static double LeftErr(const Ten &t) {      // || A^dag A - 1 ||
    auto &sh = t.GetShape(); double e = 0;
    for (size_t x = 0; x < sh[2]; ++x) for (size_t y = 0; y < sh[2]; ++y) {
      T v(0); for (size_t k = 0; k < sh[0] * sh[1]; ++k) v += cj(t.Raw()[k * sh[2] + x]) * t.Raw()[k * sh[2] + y];
      e = std::max(e, std::abs(v - T(x == y ? 1.0 : 0.0))); }
    return std::isfinite(e) ? e : 1e300;
  }
  static double RightErr(const Ten &t) {
    auto &sh = t.GetShape(); double e = 0; size_t m = sh[1] * sh[2];
    for (size_t x = 0; x < sh[0]; ++x) for (size_t y = 0; y < sh[0]; ++y) {
      T v(0); for (size_t k = 0; k < m; ++k) v += cj(t.Raw()[x * m + k]) * t.Raw()[y * m + k];
      e = std::max(e, std::abs(v - T(x == y ? 1.0 : 0.0))); }
    return std::isfinite(e) ? e : 1e300;
  }
  static double CanonErr(const MPSt &mps, size_t c) {
    double e = 0; for (size_t i = 0; i < mps.size(); ++i) { if (i < c) e = std::max(e, LeftErr(mps[i])); if (i > c) e = std::max(e, RightErr(mps[i])); } return e;
  }
  // Schmidt coefficients of v between sites 0..b-1 and the rest, descending
  static std::vector<double> Schmidt(const std::vector<Idx> &s, const Vec<T> &v, size_t b) {
    size_t m = 1; for (size_t i = 0; i < b; ++i) m *= s[i].dim(); size_t n = v.n() / m;
    bool left = m <= n; Mat<T> g(std::min(m, n));
    for (size_t x = 0; x < g.n; ++x) for (size_t y = 0; y < g.n; ++y) { T a(0); if (left) for (size_t k = 0; k < n; ++k) a += v.a[x * n + k] * cj(v.a[y * n + k]); else for (size_t k = 0; k < m; ++k) a += v.a[k * n + x] * cj(v.a[k * n + y]); g(x, y) = a; }
    auto w = eigh(g); std::vector<double> r; for (size_t i = w.size(); i-- > 0;) r.push_back(w[i] > 0 ? std::sqrt(w[i]) : 0.0); return r;
  }
  static double Entropy(const std::vector<double> &sv, size_t n) {
    double t = 0; for (double x : sv) t += x * x;
    double e = 0, q = 0; for (double x : sv) { double p = x * x / t; if (p > 1e-300) { e -= p * std::log(p); q += std::pow(p, (double) n); } }
    return n == 1 ? e : std::log(q) / (1.0 - (double) n);
  }
  static QNT TotalDiv(const MPSt &mps) { QNT q; for (size_t i = 0; i < mps.size(); ++i) q += mps[i].Div(); return q; }
  static std::string Desc(const std::vector<Idx> &s) { std::string d; for (auto &x : s) { d += "["; for (auto &q : x.GetQNScts()) d += qstr(q.GetQn()) + "x" + std::to_string(q.dim()) + " "; d += "]"; } return d; }

  // ------------------------------------------------------------ random Hamiltonians
  struct Term { T coef; std::vector<Mat<T>> ops; std::vector<size_t> at; };
  static bool RandTerm(Rng &r, const std::vector<Idx> &s, size_t maxbody, Term &t, int style = -1) {
    size_t N = s.size();
    for (int tries = 0; tries < 30; ++tries) {
      size_t k = 1 + r.below(std::min(maxbody, N)); std::vector<size_t> all(N); std::iota(all.begin(), all.end(), 0);
      for (size_t i = 0; i < k; ++i) std::swap(all[i], all[i + r.below(N - i)]);
      all.resize(k); std::sort(all.begin(), all.end());
      QNT sum; t.ops.clear(); t.at = all; bool ok = true;
      for (size_t i = 0; i < k && ok; ++i) {
        auto ch = OpCharges(s[all[i]]); QNT q;
        if (i + 1 == k) { q = -sum; ok = std::find(ch.begin(), ch.end(), q) != ch.end(); } else q = r.coin(0.3) ? QNT() : r.pick(ch);
        if (!ok) break;
        sum += q; Mat<T> m = RandOp(r, s[all[i]], q, style >= 0 ? style : (int) r.below(3)); ok = m.norm() > 1e-3; t.ops.push_back(m);
      }
      if (!ok) continue;
      t.coef = rnds<T>(r); if (std::abs(t.coef) < 0.05) t.coef = T(0.5);
      return true;
    }
    return false;
  }
  static Mat<T> DenseTerm(const std::vector<Idx> &s, const Term &t) { return Embed(s, t.ops, t.at) * t.coef; }
  static Term DagTerm(const Term &t) { Term d; d.coef = cj(t.coef); d.at = t.at; for (auto &m : t.ops) d.ops.push_back(m.dag()); return d; }
  static void Add(MPOGenerator<T, QNT> &g, const std::vector<Idx> &s, const Term &t) {
    std::vector<Ten> o; for (size_t i = 0; i < t.ops.size(); ++i) o.push_back(MatToOp(s[t.at[i]], t.ops[i]));
    g.AddTerm(t.coef, o, t.at);
  }
  // Hermitian Hamiltonian: dense matrix and the generator holding it
  struct Ham { std::vector<Term> terms; Mat<T> H; };
  static Ham RandHam(Rng &r, const std::vector<Idx> &s, size_t nterm, size_t maxbody, MPOGenerator<T, QNT> &g) {
    Ham h; h.H = Mat<T>(Dim(s));
    for (size_t i = 0; i < nterm; ++i) {
      Term t; if (!RandTerm(r, s, maxbody, t)) continue;
      Term d = DagTerm(t); h.terms.push_back(t); h.terms.push_back(d);
      Add(g, s, t); Add(g, s, d);
      h.H = h.H + DenseTerm(s, t) + DenseTerm(s, d);
    }
    // every bond of the chain is coupled at least trivially, so the generator always has terms
    for (size_t i = 0; i < s.size(); ++i) if (h.terms.empty() || r.coin(0.5)) {
      Term t; t.coef = T(r.sym()); if (std::abs(t.coef) < 0.05) t.coef = T(0.3); t.ops = {RandHermOp(r, s[i])}; t.at = {i};
      h.terms.push_back(t); Add(g, s, t); h.H = h.H + DenseTerm(s, t);
    }
    return h;
  }
  static double LowestIn(const Mat<T> &H, const std::vector<size_t> &sec, std::vector<double> *all = nullptr) {
    Mat<T> m(sec.size()); for (size_t i = 0; i < sec.size(); ++i) for (size_t j = 0; j < sec.size(); ++j) m(i, j) = H(sec[i], sec[j]);
    auto w = eigh(m); if (all) *all = w; return w.empty() ? 0.0 : w[0];
  }
};

// ---------------------------------------------------------------- files
inline std::vector<std::string> ListDir(const std::string &d) {
  std::vector<std::string> v; DIR *p = opendir(d.c_str()); if (!p) return v;
  while (dirent *e = readdir(p)) { std::string n = e->d_name; if (n != "." && n != "..") v.push_back(n); }
  closedir(p); std::sort(v.begin(), v.end()); return v;
}
inline bool IsDir(const std::string &p) { struct stat s; return stat(p.c_str(), &s) == 0 && S_ISDIR(s.st_mode); }
inline bool IsFile(const std::string &p) { struct stat s; return stat(p.c_str(), &s) == 0 && S_ISREG(s.st_mode); }
inline std::string ReadAll(const std::string &p) { std::ifstream f(p, std::ios::binary); std::stringstream s; s << f.rdbuf(); return s.str(); }
// every file under d: path -> contents
inline void Tree(const std::string &d, std::map<std::string, std::string> &m, const std::string &pre = "") {
  for (auto &n : ListDir(d)) { if (IsDir(d + "/" + n)) { m[pre + n + "/"] = ""; Tree(d + "/" + n, m, pre + n + "/"); } else m[pre + n] = ReadAll(d + "/" + n); }
}
// removes a tree below the current (scratch) directory
inline void Wipe(const std::string &d) {
  if (d.empty() || d[0] == '/' || d.find("..") != std::string::npos) return;
  for (auto &n : ListDir(d)) { std::string p = d + "/" + n; struct stat s; if (lstat(p.c_str(), &s) == 0 && S_ISDIR(s.st_mode)) Wipe(p); else unlink(p.c_str()); }
  rmdir(d.c_str());
}
template<typename X> std::string str(const X &x) { std::ostringstream o; o << std::setprecision(12) << x; return o.str(); }
#endif
