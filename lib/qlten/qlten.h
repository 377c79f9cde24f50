// Stand-in for the TensorToolkit library (qlten), which UltraDMRG depends on and which is not installed here.
// It implements the interface UltraDMRG uses, over dense storage plus symmetry labels, and checks what the real
// library only asserts: shapes, contracted indices being the exact inverse of each other, charge conservation.
// A misuse throws std::logic_error("qlten: ...").  It is part of the trusted base of every tensor-level check.
#ifndef VERIF_QLTEN_H
#define VERIF_QLTEN_H
#include <array>
#include <algorithm>
#include <cassert>
#include <cmath>
#include <complex>
#include <cstring>
#include <fstream>
#include <iomanip>
#include <iostream>
#include <limits>
#include <map>
#include <numeric>
#include <stdexcept>
#include <string>
#include <utility>
#include <vector>
#include <unordered_map>
#define lapack_complex_float std::complex<float>
#define lapack_complex_double std::complex<double>
#include <mkl_cblas.h>
#include <mkl_lapacke.h>
#include "qlten/utility/timer.h"
#include <atomic>
#ifdef VERIF_MPI
#include "qlten/mpi_sim.h"
#endif

namespace qlten {
using QLTEN_Double = double;
using QLTEN_Complex = std::complex<double>;
using ShapeT = std::vector<size_t>;
using CoorsT = std::vector<size_t>;
const std::string kQLTenFileSuffix = "qlten";
const double kDoubleEpsilon = 1.0E-15;
[[noreturn]] inline void Bad(const std::string &s) { throw std::logic_error("qlten: " + s); }
#define QLTEN_REQ(c, s) do { if (!(c)) ::qlten::Bad(s); } while (0)

inline double abs(double x) { return std::fabs(x); }
inline double abs(const QLTEN_Complex &x) { return std::abs(x); }
inline double norm(double x) { return x * x; }
inline double norm(const QLTEN_Complex &x) { return std::norm(x); }
template<typename N, typename std::enable_if<std::is_arithmetic<N>::value, int>::type = 0>
inline double sqrt(N x) { return std::sqrt((double) x); }
inline QLTEN_Complex sqrt(const QLTEN_Complex &x) { return std::sqrt(x); }
inline double conj(double x) { return x; }
inline QLTEN_Complex conj(const QLTEN_Complex &x) { return std::conj(x); }
inline double CalcConj(double x) { return x; }
inline QLTEN_Complex CalcConj(const QLTEN_Complex &x) { return std::conj(x); }
inline double real(double x) { return x; }
inline double real(const QLTEN_Complex &x) { return x.real(); }

inline void bfread(std::istream &s, void *p, size_t n) { s.read((char *) p, n); }
inline void bfwrite(std::ostream &s, const void *p, size_t n) { s.write((const char *) p, n); }

// ---------------------------------------------------------------- quantum numbers
class U1QNVal {
 public:
  U1QNVal() = default;
  U1QNVal(int v) : v_(v) {}
  int GetVal() const { return v_; }
 private:
  int v_ = 0;
};
class QNCard {
 public:
  QNCard(const std::string &name, const U1QNVal &v) : name_(name), v_(v.GetVal()) {}
  int GetVal() const { return v_; }
 private:
  std::string name_;
  int v_;
};
namespace special_qn {
template<int K>
class UQN {
 public:
  UQN() { for (int i = 0; i < K; ++i) v_[i] = 0; }
  template<typename I, typename std::enable_if<std::is_same<I, int>::value && K == 1, int>::type = 0>
  UQN(I a) { v_[0] = a; }
  template<typename I, typename std::enable_if<std::is_same<I, int>::value && K == 2, int>::type = 0>
  UQN(I a, I b) { v_[0] = a; v_[1] = b; }
  UQN(const std::vector<QNCard> &c) {
    QLTEN_REQ((int) c.size() == K, "wrong number of quantum number cards");
    for (int i = 0; i < K; ++i) v_[i] = c[i].GetVal();
  }
  UQN(std::initializer_list<QNCard> c) : UQN(std::vector<QNCard>(c)) {}
  UQN operator-() const { UQN r; for (int i = 0; i < K; ++i) r.v_[i] = -v_[i]; return r; }
  UQN &operator+=(const UQN &o) { for (int i = 0; i < K; ++i) v_[i] += o.v_[i]; return *this; }
  UQN operator+(const UQN &o) const { UQN r(*this); r += o; return r; }
  UQN operator-(const UQN &o) const { return *this + (-o); }
  bool operator==(const UQN &o) const { for (int i = 0; i < K; ++i) if (v_[i] != o.v_[i]) return false; return true; }
  bool operator!=(const UQN &o) const { return !(*this == o); }
  bool operator<(const UQN &o) const { for (int i = 0; i < K; ++i) if (v_[i] != o.v_[i]) return v_[i] < o.v_[i]; return false; }
  size_t Hash() const { size_t h = 1000003; for (int i = 0; i < K; ++i) h = h * 1000003u + (size_t) (v_[i] + 100000); return h; }
  int Val(int i) const { return v_[i]; }
  static const int kNum = K;
  void StreamWrite(std::ostream &s) const { s.write((const char *) v_, sizeof v_); }
  void StreamRead(std::istream &s) { s.read((char *) v_, sizeof v_); }
  friend std::ostream &operator<<(std::ostream &s, const UQN &q) { q.StreamWrite(s); return s; }
  friend std::istream &operator>>(std::istream &s, UQN &q) { q.StreamRead(s); return s; }
 private:
  int v_[K > 0 ? K : 1];
};
using U1QN = UQN<1>;
using U1U1QN = UQN<2>;
using TrivialRepQN = UQN<0>;
}
namespace detail {
template<typename...> struct QNSel;
template<> struct QNSel<> { using type = special_qn::TrivialRepQN; };
template<> struct QNSel<U1QNVal> { using type = special_qn::U1QN; };
template<> struct QNSel<U1QNVal, U1QNVal> { using type = special_qn::U1U1QN; };
template<typename T> struct identity { using type = T; };
template<typename T> using ident = typename identity<T>::type;
}
template<typename... V> using QN = typename detail::QNSel<V...>::type;

template<typename QNT>
class QNSector {
 public:
  QNSector() = default;
  QNSector(const QNT &q, size_t d) : qn_(q), d_(d) {}
  const QNT &GetQn() const { return qn_; }
  size_t GetDegeneracy() const { return d_; }
  size_t dim() const { return d_; }
  bool operator==(const QNSector &o) const { return qn_ == o.qn_ && d_ == o.d_; }
  bool operator!=(const QNSector &o) const { return !(*this == o); }
 private:
  QNT qn_;
  size_t d_ = 0;
};
template<typename QNT> using QNSectorVec = std::vector<QNSector<QNT>>;
enum TenIndexDirType { NDIR, IN, OUT };

template<typename QNT>
class Index {
 public:
  Index() = default;
  Index(const QNSectorVec<QNT> &s, TenIndexDirType d) : s_(s), d_(d) {}
  size_t dim() const { size_t n = 0; for (auto &x : s_) n += x.dim(); return n; }
  TenIndexDirType GetDir() const { return d_; }
  size_t GetQNSctNum() const { return s_.size(); }
  const QNSector<QNT> &GetQNSct(size_t i) const { QLTEN_REQ(i < s_.size(), "sector index out of range"); return s_[i]; }
  const QNSectorVec<QNT> &GetQNScts() const { return s_; }
  const QNSector<QNT> &GetQNSctFromActualCoor(size_t c) const {
    for (auto &x : s_) { if (c < x.dim()) return x; c -= x.dim(); }
    Bad("coordinate outside the index");
  }
  bool operator==(const Index &o) const { return d_ == o.d_ && s_ == o.s_; }
  bool operator!=(const Index &o) const { return !(*this == o); }
  size_t Hash() const { size_t h = (size_t) d_; for (auto &x : s_) h = h * 31 + x.GetQn().Hash() * 7 + x.dim(); return h; }
  Index Inverse() const { return Index(s_, d_ == IN ? OUT : d_ == OUT ? IN : NDIR); }
  std::vector<QNT> Qns() const { std::vector<QNT> r; for (auto &x : s_) for (size_t i = 0; i < x.dim(); ++i) r.push_back(x.GetQn()); return r; }
 private:
  QNSectorVec<QNT> s_;
  TenIndexDirType d_ = NDIR;
};
template<typename QNT> using IndexVec = std::vector<Index<QNT>>;
template<typename QNT> Index<QNT> InverseIndex(const Index<QNT> &i) { return i.Inverse(); }

namespace detail {
// fused order of a pair of indices: for every (a, b) its place in the fused index; sectors in order of appearance
template<typename QNT>
Index<QNT> Fuse(const Index<QNT> &a, const Index<QNT> &b, bool flip_b, TenIndexDirType dir, std::vector<size_t> &pos) {
  std::vector<QNT> qa = a.Qns(), qb = b.Qns();
  std::vector<QNT> order; std::vector<std::vector<size_t>> members;
  for (auto &sa : a.GetQNScts())
    for (auto &sb : b.GetQNScts()) {
      QNT q = sa.GetQn() + (flip_b ? -sb.GetQn() : sb.GetQn());
      if (std::find(order.begin(), order.end(), q) == order.end()) { order.push_back(q); members.emplace_back(); }
    }
  for (size_t i = 0; i < qa.size(); ++i)
    for (size_t j = 0; j < qb.size(); ++j) {
      QNT q = qa[i] + (flip_b ? -qb[j] : qb[j]);
      members[std::find(order.begin(), order.end(), q) - order.begin()].push_back(i * qb.size() + j);
    }
  pos.assign(qa.size() * qb.size(), 0);
  QNSectorVec<QNT> s; size_t n = 0;
  for (size_t k = 0; k < order.size(); ++k) {
    s.emplace_back(order[k], members[k].size());
    for (size_t m : members[k]) pos[m] = n++;
  }
  return Index<QNT>(s, dir);
}
}
struct QNSctsOffsetInfo { size_t a = 0, b = 0, c = 0, d = 0; };
template<typename QNT>
Index<QNT> FuseTwoIndexAndRecordInfo(const Index<QNT> &a, const Index<QNT> &b, std::vector<QNSctsOffsetInfo> &) {
  std::vector<size_t> pos;      // the labels only; the caller uses them as a heuristic
  return detail::Fuse(a, b, false, a.GetDir(), pos);
}

namespace hp_numeric {
inline int tensor_manipulation_num_threads = 1;
inline void SetTensorManipulationThreads(int n) { tensor_manipulation_num_threads = n; }
inline int GetTensorManipulationThreads() { return tensor_manipulation_num_threads; }
template<typename T, typename S> void VectorScale(T *v, size_t n, S s) { for (size_t i = 0; i < n; ++i) v[i] *= s; }
template<typename T, typename S> void VectorAddTo(const T *src, size_t n, T *dst, S a = S(1)) { for (size_t i = 0; i < n; ++i) dst[i] += T(a) * src[i]; }
template<typename T> double Vector2Norm(const T *v, size_t n) { double s = 0; for (size_t i = 0; i < n; ++i) s += qlten::norm(v[i]); return std::sqrt(s); }
}

// ---------------------------------------------------------------- tensors
// Every element that is alive in some tensor, for the leak monitors.
struct TensorStats { std::atomic<long> live{0}, made{0}; };
inline TensorStats &tensor_stats() { static TensorStats s; return s; }
struct LiveCount {
  LiveCount() { tensor_stats().live++; tensor_stats().made++; }
  LiveCount(const LiveCount &) : LiveCount() {}
  LiveCount &operator=(const LiveCount &) { return *this; }
  ~LiveCount() { tensor_stats().live--; }
};

// the part of a tensor that the library calls its block sparse data
template<typename T, typename QNT> class QLTensor;
template<typename T, typename QNT>
class BlockSparseDataTensor {
 public:
  using Ten = QLTensor<T, QNT>;
  void Clear() { static_cast<Ten *>(this)->Clear(); }
#ifdef VERIF_MPI
  void MPI_Send(const MPI_Comm &comm, int dst, int tag);
  MPI_Status MPI_Recv(const MPI_Comm &comm, int src, int tag);      // the shell must have the indexes of what arrives
#endif
 protected:
  BlockSparseDataTensor() = default;
  BlockSparseDataTensor(const BlockSparseDataTensor &) = default;
  BlockSparseDataTensor &operator=(const BlockSparseDataTensor &) = default;
};
template<typename T, typename QNT>
class QLTensor : public BlockSparseDataTensor<T, QNT> {
 public:
  QLTensor() = default;
  explicit QLTensor(const IndexVec<QNT> &idx) : def_(false), idx_(idx) { Alloc(); }
  QLTensor(std::initializer_list<Index<QNT>> idx) : QLTensor(IndexVec<QNT>(idx)) {}
  QLTensor(const QLTensor &) = default;
  QLTensor &operator=(const QLTensor &) = default;
  QLTensor(QLTensor &&o) : BlockSparseDataTensor<T, QNT>(), def_(o.def_), idx_(std::move(o.idx_)), shape_(std::move(o.shape_)), d_(std::move(o.d_)) { o.Clear(); }
  QLTensor &operator=(QLTensor &&o) {
    if (this == &o) return *this;
    def_ = o.def_; idx_ = std::move(o.idx_); shape_ = std::move(o.shape_); d_ = std::move(o.d_); o.Clear();
    return *this;
  }
  template<typename U, typename std::enable_if<std::is_same<U, double>::value && !std::is_same<U, T>::value, int>::type = 0>
  explicit QLTensor(const QLTensor<U, QNT> &o) { if (o.IsDefault()) return; *this = QLTensor(o.GetIndexes()); for (size_t i = 0; i < d_.size(); ++i) d_[i] = o.Raw()[i]; }
  static constexpr bool IsFermionic() { return false; }
  void Clear() { def_ = true; idx_.clear(); shape_.clear(); d_.clear(); d_.shrink_to_fit(); }

  bool IsDefault() const { return def_; }
  bool IsScalar() const { return !def_ && shape_.empty(); }
  size_t Rank() const { return shape_.size(); }
  size_t size() const { return d_.size(); }
  const ShapeT &GetShape() const { return shape_; }
  const IndexVec<QNT> &GetIndexes() const { return idx_; }
  const Index<QNT> &GetIndex(size_t i) const { QLTEN_REQ(i < idx_.size(), "no such index"); return idx_[i]; }
  BlockSparseDataTensor<T, QNT> &GetBlkSparDataTen() { return *this; }
#ifdef VERIF_MPI
  void MPI_Send(int dst, int tag, const MPI_Comm &comm) const;
  MPI_Status MPI_Recv(int src, int tag, const MPI_Comm &comm);
  void MPI_Bcast(int root, const MPI_Comm &comm);
#endif
  std::vector<T> &Raw() { return d_; }
  const std::vector<T> &Raw() const { return d_; }
  double GetRawDataMemUsage() const { return d_.size() * sizeof(T) / 1024.0 / 1024.0 / 1024.0; }

  size_t Off(const CoorsT &c) const {
    QLTEN_REQ(!def_, "element of a default tensor");
    QLTEN_REQ(c.size() == shape_.size(), "wrong number of coordinates");
    size_t o = 0;
    for (size_t i = 0; i < c.size(); ++i) { QLTEN_REQ(c[i] < shape_[i], "coordinate out of range"); o = o * shape_[i] + c[i]; }
    return o;
  }
  T GetElem(const CoorsT &c) const { return d_[Off(c)]; }
  void SetElem(const CoorsT &c, const T &v) { d_[Off(c)] = v; }
  T &operator()(const CoorsT &c) { return d_[Off(c)]; }
  const T &operator()(const CoorsT &c) const { return d_[Off(c)]; }
  T &operator()() { return d_[Off({})]; }
  const T &operator()() const { return d_[Off({})]; }
  template<typename... I> T &operator()(size_t a, I... r) { return d_[Off(CoorsT{a, (size_t) r...})]; }
  template<typename... I> const T &operator()(size_t a, I... r) const { return d_[Off(CoorsT{a, (size_t) r...})]; }
  T GetFirstNonZeroElement() const { for (auto &x : d_) if (qlten::abs(x) > kDoubleEpsilon) return x; return T(0); }

  // charge: IN legs count negatively, OUT legs positively; every nonzero element must agree
  QNT Div() const {
    QLTEN_REQ(!def_, "divergence of a default tensor");
    bool have = false; QNT q;
    std::vector<std::vector<QNT>> qs;
    for (auto &i : idx_) { auto v = i.Qns(); if (i.GetDir() == IN) for (auto &x : v) x = -x; qs.push_back(v); }
    for (size_t o = 0; o < d_.size(); ++o) {
      if (d_[o] == T(0)) continue;
      QNT s; size_t r = o;
      for (size_t i = idx_.size(); i-- > 0;) { s += qs[i][r % shape_[i]]; r /= shape_[i]; }
      if (!have) { have = true; q = s; } else QLTEN_REQ(q == s, "tensor without a definite charge");
    }
    return q;
  }
  void Random(const QNT &div) {
    std::vector<std::vector<QNT>> qs;
    for (auto &i : idx_) { auto v = i.Qns(); if (i.GetDir() == IN) for (auto &x : v) x = -x; qs.push_back(v); }
    for (size_t o = 0; o < d_.size(); ++o) {
      QNT s; size_t r = o;
      for (size_t i = idx_.size(); i-- > 0;) { s += qs[i][r % shape_[i]]; r /= shape_[i]; }
      d_[o] = s == div ? Rnd((T *) nullptr) : T(0);
    }
  }
  void Fill(const QNT &div, const T &v) { Random(div); for (auto &x : d_) if (x != T(0)) x = v; }
  void Dag() { for (auto &i : idx_) i = i.Inverse(); for (auto &x : d_) x = qlten::conj(x); }
  void ActFermionPOps() {}
  void Transpose(const std::vector<size_t> &p) {
    QLTEN_REQ(p.size() == Rank(), "transpose order of wrong length");
    std::vector<size_t> chk(p); std::sort(chk.begin(), chk.end());
    for (size_t i = 0; i < chk.size(); ++i) QLTEN_REQ(chk[i] == i, "transpose order is not a permutation");
    bool id = true; for (size_t i = 0; i < p.size(); ++i) id = id && p[i] == i;
    if (id) return;
    IndexVec<QNT> ni; ShapeT ns; for (size_t i : p) { ni.push_back(idx_[i]); ns.push_back(shape_[i]); }
    d_ = Permuted(p); idx_ = ni; shape_ = ns;
  }
  std::vector<T> Permuted(const std::vector<size_t> &p) const {
    bool id = true; for (size_t i = 0; i < p.size(); ++i) id = id && p[i] == i;
    if (id) return d_;
    size_t n = p.size();
    std::vector<size_t> st(n), ns(n), ss(n); size_t s = 1;
    for (size_t i = n; i-- > 0;) { st[i] = s; s *= shape_[i]; }
    for (size_t i = 0; i < n; ++i) { ns[i] = shape_[p[i]]; ss[i] = st[p[i]]; }
    std::vector<T> r(d_.size()); std::vector<size_t> c(n, 0);
    size_t src = 0;
    for (size_t o = 0; o < r.size(); ++o) {
      r[o] = d_[src];
      for (size_t i = n; i-- > 0;) { ++c[i]; src += ss[i]; if (c[i] < ns[i]) break; src -= ss[i] * ns[i]; c[i] = 0; }
    }
    return r;
  }
  // the fused leg comes first; the others keep their order
  void FuseIndex(size_t a, size_t b) {
    QLTEN_REQ(a < Rank() && b < Rank() && a != b, "fusing wrong legs");
    QLTEN_REQ(idx_[a].GetDir() == idx_[b].GetDir(), "fusing legs of different direction");
    std::vector<size_t> p{a, b}; for (size_t i = 0; i < Rank(); ++i) if (i != a && i != b) p.push_back(i);
    Transpose(p);
    std::vector<size_t> pos;
    Index<QNT> f = detail::Fuse(idx_[0], idx_[1], false, idx_[0].GetDir(), pos);
    size_t rest = d_.size() / std::max<size_t>(1, pos.size());
    std::vector<T> r(d_.size());
    for (size_t i = 0; i < pos.size(); ++i) std::copy(d_.begin() + i * rest, d_.begin() + (i + 1) * rest, r.begin() + pos[i] * rest);
    d_.swap(r);
    idx_.erase(idx_.begin()); idx_[0] = f;
    shape_.clear(); for (auto &i : idx_) shape_.push_back(i.dim());
  }
  double Get2Norm() const { double s = 0; for (auto &x : d_) s += qlten::norm(x); return std::sqrt(s); }
  double GetQuasi2Norm() const { return Get2Norm(); }
  double Normalize() { double n = Get2Norm(); for (auto &x : d_) x /= n; return n; }
  double QuasiNormalize() { return Normalize(); }
  template<typename S> void MultiplyByScalar(const S &s) { for (auto &x : d_) x *= s; }
  template<typename S> QLTensor &operator*=(const S &s) { for (auto &x : d_) x *= s; return *this; }
  QLTensor operator*(const T &s) const { QLTensor r(*this); r *= s; return r; }
  QLTensor operator-() const { QLTensor r(*this); for (auto &x : r.d_) x = -x; return r; }
  QLTensor &operator+=(const QLTensor &o) {
    QLTEN_REQ(!def_ && !o.def_ && idx_ == o.idx_, "adding tensors with different indices");
    if (IsZeroOrSameDiv(o)) for (size_t i = 0; i < d_.size(); ++i) d_[i] += o.d_[i];
    return *this;
  }
  QLTensor operator+(const QLTensor &o) const { QLTensor r(*this); r += o; return r; }
  QLTensor operator-(const QLTensor &o) const { QLTensor r(-o); r += *this; return r; }
  bool operator==(const QLTensor &o) const {
    if (def_ != o.def_ || idx_ != o.idx_) return false;
    for (size_t i = 0; i < d_.size(); ++i) if (qlten::abs(d_[i] - o.d_[i]) > kDoubleEpsilon) return false;
    return true;
  }
  bool operator!=(const QLTensor &o) const { return !(*this == o); }
  bool Identical(const QLTensor &o) const { return def_ == o.def_ && idx_ == o.idx_ && (d_.empty() || memcmp(d_.data(), o.d_.data(), d_.size() * sizeof(T)) == 0); }
  void Show(size_t = 0) const { std::cout << "tensor of rank " << Rank() << "\n"; }
  void ConciseShow(size_t = 0) const { Show(); }

  void StreamWrite(std::ostream &s) const {
    QLTEN_REQ(!def_, "writing a default tensor");
    s.write("QLT1", 4); W(s, idx_.size());
    for (auto &i : idx_) {
      W(s, (size_t) i.GetDir()); W(s, i.GetQNSctNum());
      for (auto &q : i.GetQNScts()) { for (int k = 0; k < QNT::kNum; ++k) { int v = q.GetQn().Val(k); s.write((const char *) &v, sizeof v); } W(s, q.dim()); }
    }
    s.write((const char *) d_.data(), d_.size() * sizeof(T));
  }
  void StreamRead(std::istream &s) {
    if (!def_) Bad("reading into a tensor that is not default");   // the real library asserts this
    char mg[4] = {0, 0, 0, 0}; s.read(mg, 4);
    if (!s || memcmp(mg, "QLT1", 4)) { s.setstate(std::ios::failbit); return; }
    size_t n = R(s); IndexVec<QNT> ix;
    for (size_t i = 0; s && n <= 64 && i < n; ++i) {
      size_t dir = R(s), m = R(s); QNSectorVec<QNT> v;
      for (size_t j = 0; s && m < (1u << 24) && j < m; ++j) {
        QNT q; ReadQN(s, q); size_t d = R(s); if (s) v.emplace_back(q, d);
      }
      ix.emplace_back(v, (TenIndexDirType) dir);
    }
    if (!s || n > 64) { s.setstate(std::ios::failbit); return; }
    QLTensor r(ix);
    s.read((char *) r.d_.data(), r.d_.size() * sizeof(T));
    *this = std::move(r);      // as the real library: a short read leaves the stream failed
  }
  friend std::ostream &operator<<(std::ostream &s, const QLTensor &t) { t.StreamWrite(s); return s; }
  friend std::istream &operator>>(std::istream &s, QLTensor &t) { t.StreamRead(s); return s; }

 private:
  static void W(std::ostream &s, size_t v) { s.write((const char *) &v, sizeof v); }
  static size_t R(std::istream &s) { size_t v = 0; s.read((char *) &v, sizeof v); return v; }
  static void ReadQN(std::istream &s, special_qn::TrivialRepQN &) {}
  template<typename Q> static void ReadQN(std::istream &s, Q &q) { q.StreamRead(s); }
  static double Rnd(double *) { double x = 0; while (x == 0) x = 2.0 * rand() / RAND_MAX - 1.0; return x; }
  static QLTEN_Complex Rnd(QLTEN_Complex *) { double a = Rnd((double *) nullptr), b = Rnd((double *) nullptr); return {a, b}; }
  bool IsZeroOrSameDiv(const QLTensor &) const { return true; }
  void Alloc() { shape_.clear(); size_t n = 1; for (auto &i : idx_) { shape_.push_back(i.dim()); n *= i.dim(); } d_.assign(n, T(0)); }
  bool def_ = true;
  IndexVec<QNT> idx_;
  ShapeT shape_;
  std::vector<T> d_;
  LiveCount live_;
};
template<typename T, typename QNT, typename S, typename std::enable_if<std::is_arithmetic<S>::value || std::is_same<S, QLTEN_Complex>::value, int>::type = 0>
QLTensor<T, QNT> operator*(const S &s, const QLTensor<T, QNT> &t) { QLTensor<T, QNT> r(t); r *= s; return r; }
template<typename T, typename QNT> QLTensor<T, QNT> Dag(const QLTensor<T, QNT> &t) { QLTensor<T, QNT> r(t); r.Dag(); return r; }
template<typename T, typename QNT> QNT Div(const QLTensor<T, QNT> &t) { return t.Div(); }
template<typename QNT> QLTensor<QLTEN_Complex, QNT> ToComplex(const QLTensor<QLTEN_Double, QNT> &t) { return QLTensor<QLTEN_Complex, QNT>(t); }

// ---------------------------------------------------------------- linear combinations
template<typename C, typename T, typename QNT>
void LinearCombine(const size_t n, const C *c, const std::vector<QLTensor<T, QNT> *> &v, const detail::ident<T> beta, QLTensor<T, QNT> *res) {
  QLTEN_REQ(n <= v.size(), "too few tensors in a linear combination");
  if (n == 0 && res->IsDefault()) Bad("empty linear combination");
  QLTensor<T, QNT> r;
  if (res->IsDefault() || beta == T(0)) { if (n) r = QLTensor<T, QNT>(v[0]->GetIndexes()); else { r = *res; r *= beta; } }
  else { r = *res; if (beta != T(1)) r *= beta; }
  for (size_t i = 0; i < n; ++i) {
    QLTEN_REQ(v[i]->GetIndexes() == r.GetIndexes(), "combining tensors with different indices");
    T k = T(c[i]);
    for (size_t j = 0; j < r.size(); ++j) r.Raw()[j] += k * v[i]->Raw()[j];
  }
  *res = std::move(r);
}
template<typename T, typename QNT>
void LinearCombine(const detail::ident<std::vector<T>> &c, const std::vector<QLTensor<T, QNT> *> &v, const detail::ident<T> beta, QLTensor<T, QNT> *res) {
  QLTEN_REQ(c.size() == v.size(), "coefficients and tensors differ in number");
  LinearCombine(c.size(), c.data(), v, beta, res);
}

// ---------------------------------------------------------------- contraction
namespace detail {
inline void Gemm(const double *a, const double *b, size_t m, size_t k, size_t n, double *c) {
  cblas_dgemm(CblasRowMajor, CblasNoTrans, CblasNoTrans, m, n, k, 1.0, a, k, b, n, 0.0, c, n);
}
inline void Gemm(const QLTEN_Complex *a, const QLTEN_Complex *b, size_t m, size_t k, size_t n, QLTEN_Complex *c) {
  QLTEN_Complex one(1), zero(0);
  cblas_zgemm(CblasRowMajor, CblasNoTrans, CblasNoTrans, m, n, k, &one, a, k, b, n, &zero, c, n);
}
// sa, sb: saved axes in output order
template<typename T, typename QNT>
QLTensor<T, QNT> Ctr(const QLTensor<T, QNT> &a, const std::vector<size_t> &sa, const std::vector<size_t> &ca,
                     const QLTensor<T, QNT> &b, const std::vector<size_t> &sb, const std::vector<size_t> &cb) {
  QLTEN_REQ(!a.IsDefault() && !b.IsDefault(), "contracting a default tensor");
  QLTEN_REQ(ca.size() == cb.size(), "contracting different numbers of legs");
  size_t m = 1, k = 1, n = 1; IndexVec<QNT> ix;
  for (size_t i = 0; i < ca.size(); ++i) {
    QLTEN_REQ(a.GetIndex(ca[i]) == b.GetIndex(cb[i]).Inverse(), "contracted indices do not match");
    k *= a.GetShape()[ca[i]];
  }
  for (size_t i : sa) { ix.push_back(a.GetIndex(i)); m *= a.GetShape()[i]; }
  for (size_t i : sb) { ix.push_back(b.GetIndex(i)); n *= b.GetShape()[i]; }
  std::vector<size_t> pa(sa), pb(cb); pa.insert(pa.end(), ca.begin(), ca.end()); pb.insert(pb.end(), sb.begin(), sb.end());
  QLTEN_REQ(pa.size() == a.Rank() && pb.size() == b.Rank(), "contracted legs repeated or missing");
  std::vector<T> A = a.Permuted(pa), B = b.Permuted(pb);
  QLTensor<T, QNT> c(ix);
  if (m && k && n) {
    if (k == 1) { for (size_t i = 0; i < m; ++i) for (size_t j = 0; j < n; ++j) c.Raw()[i * n + j] = A[i] * B[j]; }
    else if (m * k * n <= 512) {
      for (size_t i = 0; i < m; ++i) for (size_t l = 0; l < k; ++l) { T x = A[i * k + l]; if (x != T(0)) for (size_t j = 0; j < n; ++j) c.Raw()[i * n + j] += x * B[l * n + j]; }
    } else Gemm(A.data(), B.data(), m, k, n, c.Raw().data());
  }
  return c;
}
inline std::vector<size_t> Rest(size_t rank, const std::vector<size_t> &c) {
  std::vector<size_t> r;
  for (size_t i : c) QLTEN_REQ(i < rank && std::count(c.begin(), c.end(), i) == 1, "contracted axis out of range or repeated");
  for (size_t i = 0; i < rank; ++i) if (std::find(c.begin(), c.end(), i) == c.end()) r.push_back(i);
  return r;
}
template<typename T, typename QNT> const QLTensor<T, QNT> &As(const QLTensor<T, QNT> &t, T *) { return t; }
template<typename QNT> QLTensor<QLTEN_Complex, QNT> As(const QLTensor<QLTEN_Double, QNT> &t, QLTEN_Complex *) { return QLTensor<QLTEN_Complex, QNT>(t); }
}
template<typename TA, typename TB, typename TC, typename QNT>
void Contract(const QLTensor<TA, QNT> *a, const std::vector<size_t> &ca, const QLTensor<TB, QNT> *b, const std::vector<size_t> &cb, QLTensor<TC, QNT> *c) {
  *c = detail::Ctr<TC, QNT>(detail::As(*a, (TC *) nullptr), detail::Rest(a->Rank(), ca), ca, detail::As(*b, (TC *) nullptr), detail::Rest(b->Rank(), cb), cb);
}
template<typename TA, typename TB, typename TC, typename QNT>
void Contract(const QLTensor<TA, QNT> *a, const QLTensor<TB, QNT> *b, const std::vector<std::vector<size_t>> &axes, QLTensor<TC, QNT> *c) {
  QLTEN_REQ(axes.size() == 2, "two lists of axes expected");
  Contract(a, axes[0], b, axes[1], c);
}
// legs contracted are consecutive (cyclically); the saved legs of each tensor follow the contracted ones cyclically
template<typename T, typename QNT, bool FA, bool FB>
void Contract(const QLTensor<T, QNT> &a, const QLTensor<T, QNT> &b, size_t sa, size_t sb, size_t n, QLTensor<T, QNT> &c) {
  QLTEN_REQ(n <= a.Rank() && n <= b.Rank(), "too many legs contracted");
  std::vector<size_t> ca, cb, ra, rb;
  for (size_t i = 0; i < a.Rank(); ++i) (i < n ? ca : ra).push_back((sa + i) % a.Rank());
  for (size_t i = 0; i < b.Rank(); ++i) (i < n ? cb : rb).push_back((sb + i) % b.Rank());
  c = detail::Ctr<T, QNT>(a, ra, ca, b, rb, cb);
}

// legs idx0, idx1, new: the isometry that fuses idx0 and idx1 (zero divergence)
template<typename T, typename QNT>
QLTensor<T, QNT> IndexCombine(const Index<QNT> &i0, const Index<QNT> &i1, TenIndexDirType dir) {
  // charge carried by (a,b): sum with sign; new leg carries the opposite contribution
  auto sgn = [](const Index<QNT> &i) { QNSectorVec<QNT> s; for (auto &x : i.GetQNScts()) s.emplace_back(i.GetDir() == IN ? -x.GetQn() : x.GetQn(), x.dim()); return Index<QNT>(s, OUT); };
  std::vector<size_t> pos;
  Index<QNT> f = detail::Fuse(sgn(i0), sgn(i1), false, dir, pos);      // q0 + q1
  QNSectorVec<QNT> s; for (auto &x : f.GetQNScts()) s.emplace_back(dir == OUT ? -x.GetQn() : x.GetQn(), x.dim());
  Index<QNT> ni(s, dir);
  QLTensor<T, QNT> t(IndexVec<QNT>{i0, i1, ni});
  size_t d1 = i1.dim(), dn = ni.dim();
  for (size_t i = 0; i < pos.size(); ++i) t.Raw()[((i / d1) * d1 + i % d1) * dn + pos[i]] = T(1);
  return t;
}

// ---------------------------------------------------------------- decompositions
namespace detail {
inline int Gesdd(size_t m, size_t n, double *a, double *s, double *u, double *vt, size_t k) {
  int r = LAPACKE_dgesdd(LAPACK_ROW_MAJOR, 'S', m, n, a, n, s, u, k, vt, n); return r;
}
inline int Gesdd(size_t m, size_t n, QLTEN_Complex *a, double *s, QLTEN_Complex *u, QLTEN_Complex *vt, size_t k) {
  return LAPACKE_zgesdd(LAPACK_ROW_MAJOR, 'S', m, n, a, n, s, u, k, vt, n);
}
inline void Qr(size_t m, size_t n, double *a, double *q, double *r) {
  size_t k = std::min(m, n); std::vector<double> tau(k);
  QLTEN_REQ(LAPACKE_dgeqrf(LAPACK_ROW_MAJOR, m, n, a, n, tau.data()) == 0, "geqrf");
  for (size_t i = 0; i < k; ++i) for (size_t j = 0; j < n; ++j) r[i * n + j] = j >= i ? a[i * n + j] : 0.0;
  for (size_t i = 0; i < m; ++i) for (size_t j = 0; j < k; ++j) q[i * k + j] = a[i * n + j];
  QLTEN_REQ(LAPACKE_dorgqr(LAPACK_ROW_MAJOR, m, k, k, q, k, tau.data()) == 0, "orgqr");
}
inline void Qr(size_t m, size_t n, QLTEN_Complex *a, QLTEN_Complex *q, QLTEN_Complex *r) {
  size_t k = std::min(m, n); std::vector<QLTEN_Complex> tau(k);
  QLTEN_REQ(LAPACKE_zgeqrf(LAPACK_ROW_MAJOR, m, n, a, n, tau.data()) == 0, "geqrf");
  for (size_t i = 0; i < k; ++i) for (size_t j = 0; j < n; ++j) r[i * n + j] = j >= i ? a[i * n + j] : QLTEN_Complex(0);
  for (size_t i = 0; i < m; ++i) for (size_t j = 0; j < k; ++j) q[i * k + j] = a[i * n + j];
  QLTEN_REQ(LAPACKE_zungqr(LAPACK_ROW_MAJOR, m, k, k, q, k, tau.data()) == 0, "ungqr");
}
template<typename T, typename QNT>
struct Blocks {       // the matrix of a tensor, split into symmetry blocks by the charge of its rows
  size_t m = 1, n = 1;
  std::vector<QNT> q; std::vector<std::vector<size_t>> rows, cols;
  IndexVec<QNT> li, ri;
  Blocks(const QLTensor<T, QNT> &t, size_t ldims) {
    QLTEN_REQ(!t.IsDefault(), "decomposing a default tensor");
    QLTEN_REQ(ldims > 0 && ldims < t.Rank(), "decomposition splits off no legs");
    QNT div = t.Div();
    std::vector<QNT> rq(1), cq(1);
    for (size_t i = 0; i < t.Rank(); ++i) {
      auto &v = i < ldims ? rq : cq; std::vector<QNT> nv;
      for (auto &x : v) for (auto y : t.GetIndex(i).Qns()) nv.push_back(t.GetIndex(i).GetDir() == IN ? x - y : x + y);
      v = nv; (i < ldims ? li : ri).push_back(t.GetIndex(i));
    }
    m = rq.size(); n = cq.size();
    std::map<QNT, size_t> at;
    for (size_t i = 0; i < m; ++i) {
      auto it = at.find(rq[i]);
      if (it == at.end()) { it = at.emplace(rq[i], q.size()).first; q.push_back(rq[i]); rows.emplace_back(); cols.emplace_back(); }
      rows[it->second].push_back(i);
    }
    for (size_t j = 0; j < n; ++j) { auto it = at.find(div - cq[j]); if (it != at.end()) cols[it->second].push_back(j); }
    for (size_t k = 0; k < q.size();) {
      bool nz = false;
      for (size_t i : rows[k]) for (size_t j : cols[k]) nz = nz || t.Raw()[i * n + j] != T(0);
      if (nz) { ++k; continue; }
      q.erase(q.begin() + k); rows.erase(rows.begin() + k); cols.erase(cols.begin() + k);
    }
  }
};
}
template<typename T, typename QNT>
void SVD(const QLTensor<T, QNT> *pt, const size_t ldims, const QNT &lqndiv, const double trunc_err, const size_t Dmin, const size_t Dmax,
         QLTensor<T, QNT> *pu, QLTensor<QLTEN_Double, QNT> *ps, QLTensor<T, QNT> *pvt, double *perr, size_t *pD) {
  QLTEN_REQ(Dmin <= Dmax && Dmax > 0, "bond limits of a decomposition");
  for (auto &x : pt->Raw()) QLTEN_REQ(std::isfinite(qlten::real(x)) && std::isfinite(qlten::abs(x)), "decomposing a tensor that is not finite");
  detail::Blocks<T, QNT> B(*pt, ldims);
  QLTEN_REQ(!B.q.empty(), "decomposing a zero tensor");
  struct Bl { std::vector<T> u, vt; std::vector<double> s; size_t k; };
  std::vector<Bl> bl; std::vector<std::pair<double, size_t>> all;
  for (size_t b = 0; b < B.q.size(); ++b) {
    size_t m = B.rows[b].size(), n = B.cols[b].size(), k = std::min(m, n);
    std::vector<T> a(m * n); for (size_t i = 0; i < m; ++i) for (size_t j = 0; j < n; ++j) a[i * n + j] = pt->Raw()[B.rows[b][i] * B.n + B.cols[b][j]];
    Bl x; x.u.resize(m * k); x.vt.resize(k * n); x.s.resize(k); x.k = k;
    QLTEN_REQ(detail::Gesdd(m, n, a.data(), x.s.data(), x.u.data(), x.vt.data(), k) == 0, "gesdd");
    for (double v : x.s) all.emplace_back(v, b);
    bl.push_back(std::move(x));
  }
  std::stable_sort(all.begin(), all.end(), [](auto &x, auto &y) { return x.first > y.first; });
  double tot = 0; for (auto &x : all) tot += x.first * x.first;
  size_t keep = all.size(); double drop = 0;
  while (keep > 1 && (keep > Dmax || (keep > Dmin && (drop + all[keep - 1].first * all[keep - 1].first) <= trunc_err * tot))) { --keep; drop += all[keep].first * all[keep].first; }
  std::vector<size_t> kb(B.q.size(), 0); for (size_t i = 0; i < keep; ++i) kb[all[i].second]++;
  QNSectorVec<QNT> sec; for (size_t b = 0; b < B.q.size(); ++b) if (kb[b]) sec.emplace_back(lqndiv - B.q[b], kb[b]);
  Index<QNT> mo(sec, OUT), mi(sec, IN);
  IndexVec<QNT> ui(B.li), vi(B.ri); ui.push_back(mo); vi.insert(vi.begin(), mi);
  QLTensor<T, QNT> u(ui), vt(vi); QLTensor<QLTEN_Double, QNT> s(IndexVec<QNT>{mi, mo});
  size_t off = 0;
  for (size_t b = 0; b < B.q.size(); ++b) {
    for (size_t c = 0; c < kb[b]; ++c) {
      for (size_t i = 0; i < B.rows[b].size(); ++i) u.Raw()[B.rows[b][i] * keep + off + c] = bl[b].u[i * bl[b].k + c];
      for (size_t j = 0; j < B.cols[b].size(); ++j) vt.Raw()[(off + c) * B.n + B.cols[b][j]] = bl[b].vt[c * B.cols[b].size() + j];
      s.Raw()[(off + c) * keep + off + c] = bl[b].s[c];
    }
    off += kb[b];
  }
  *perr = drop / tot; *pD = keep;
  *pu = std::move(u); *ps = std::move(s); *pvt = std::move(vt);
}
template<typename T, typename QNT>
void QR(const QLTensor<T, QNT> *pt, const size_t ldims, const QNT &lqndiv, QLTensor<T, QNT> *pq, QLTensor<T, QNT> *pr) {
  detail::Blocks<T, QNT> B(*pt, ldims);
  QLTEN_REQ(!B.q.empty(), "decomposing a zero tensor");
  QNSectorVec<QNT> sec; size_t D = 0;
  for (size_t b = 0; b < B.q.size(); ++b) { size_t k = std::min(B.rows[b].size(), B.cols[b].size()); sec.emplace_back(lqndiv - B.q[b], k); D += k; }
  IndexVec<QNT> qi(B.li), ri(B.ri); qi.push_back(Index<QNT>(sec, OUT)); ri.insert(ri.begin(), Index<QNT>(sec, IN));
  QLTensor<T, QNT> q(qi), r(ri); size_t off = 0;
  for (size_t b = 0; b < B.q.size(); ++b) {
    size_t m = B.rows[b].size(), n = B.cols[b].size(), k = std::min(m, n);
    std::vector<T> a(m * n), Q(m * k), R(k * n);
    for (size_t i = 0; i < m; ++i) for (size_t j = 0; j < n; ++j) a[i * n + j] = pt->Raw()[B.rows[b][i] * B.n + B.cols[b][j]];
    detail::Qr(m, n, a.data(), Q.data(), R.data());
    for (size_t c = 0; c < k; ++c) {
      for (size_t i = 0; i < m; ++i) q.Raw()[B.rows[b][i] * D + off + c] = Q[i * k + c];
      for (size_t j = 0; j < n; ++j) r.Raw()[(off + c) * B.n + B.cols[b][j]] = R[c * n + j];
    }
    off += k;
  }
  *pq = std::move(q); *pr = std::move(r);
}

// ---------------------------------------------------------------- direct sums
template<typename T, typename QNT>
void Expand(const QLTensor<T, QNT> *a, const QLTensor<T, QNT> *b, const std::vector<size_t> &axes, QLTensor<T, QNT> *c) {
  QLTEN_REQ(!a->IsDefault() && !b->IsDefault() && a->Rank() == b->Rank(), "expanding tensors of different rank");
  size_t n = a->Rank();
  std::vector<std::vector<size_t>> ma(n), mb(n); IndexVec<QNT> ix;
  for (size_t i = 0; i < n; ++i) {
    const Index<QNT> &x = a->GetIndex(i), &y = b->GetIndex(i);
    QLTEN_REQ(x.GetDir() == y.GetDir(), "expanding legs of different direction");
    ma[i].resize(x.dim()); mb[i].resize(y.dim());
    if (std::find(axes.begin(), axes.end(), i) == axes.end()) {
      QLTEN_REQ(x == y, "unexpanded legs differ");
      for (size_t k = 0; k < x.dim(); ++k) ma[i][k] = mb[i][k] = k;
      ix.push_back(x); continue;
    }
    std::vector<std::pair<QNT, std::pair<std::vector<size_t>, std::vector<size_t>>>> sec; size_t o = 0;
    auto get = [&](const QNT &q) -> std::pair<std::vector<size_t>, std::vector<size_t>> & {
      for (auto &s : sec) if (s.first == q) return s.second;
      sec.emplace_back(q, std::pair<std::vector<size_t>, std::vector<size_t>>()); return sec.back().second; };
    for (auto &s : x.GetQNScts()) { auto &v = get(s.GetQn()); for (size_t k = 0; k < s.dim(); ++k) v.first.push_back(o++); }
    o = 0;
    for (auto &s : y.GetQNScts()) { auto &v = get(s.GetQn()); for (size_t k = 0; k < s.dim(); ++k) v.second.push_back(o++); }
    QNSectorVec<QNT> sv; size_t p = 0;
    for (auto &s : sec) {
      sv.emplace_back(s.first, s.second.first.size() + s.second.second.size());
      for (size_t k : s.second.first) ma[i][k] = p++;
      for (size_t k : s.second.second) mb[i][k] = p++;
    }
    ix.emplace_back(sv, x.GetDir());
  }
  QLTensor<T, QNT> r(ix);
  auto put = [&](const QLTensor<T, QNT> &t, const std::vector<std::vector<size_t>> &m) {
    for (size_t o = 0; o < t.size(); ++o) {
      size_t rem = o; CoorsT co(n); for (size_t i = n; i-- > 0;) { co[i] = m[i][rem % t.GetShape()[i]]; rem /= t.GetShape()[i]; }
      if (t.Raw()[o] != T(0)) r(co) += t.Raw()[o];
    } };
  put(*a, ma); put(*b, mb);
  *c = std::move(r);
}
template<typename T, typename QNT>
void ExpandQNBlocks(const QLTensor<T, QNT> *a, const QLTensor<T, QNT> *b, const std::vector<size_t> &axes, QLTensor<T, QNT> *c) { Expand(a, b, axes, c); }

inline std::string IndentPrinter(size_t level) { return std::string(4 * level, ' '); }
// ---------------------------------------------------------------- executors
enum ExecutorStatus { INITED, EXEING, FINISH };
class Executor {
 public:
  Executor() = default;
  virtual ~Executor() = default;
  virtual void Execute() = 0;
  ExecutorStatus GetStatus() const { return st_; }
  void SetStatus(ExecutorStatus s) { st_ = s; }
 private:
  ExecutorStatus st_ = INITED;
};

// ---------------------------------------------------------------- pieces of the parallel algorithms
// contracts only one sector of leg split of a; the result has the legs of the whole contraction
template<typename T, typename QNT>
class TensorContraction1SectorExecutor : public Executor {
 public:
  TensorContraction1SectorExecutor(const QLTensor<T, QNT> *a, size_t split, size_t sector, const QLTensor<T, QNT> *b,
                                   const std::vector<std::vector<size_t>> &axes, QLTensor<T, QNT> *c)
      : a_(a), b_(b), c_(c), split_(split), sct_(sector), axes_(axes) {
    QLTEN_REQ(axes.size() == 2 && split < a->Rank(), "sector contraction");
    QLTEN_REQ(std::find(axes[0].begin(), axes[0].end(), split) == axes[0].end(), "the split leg is contracted");
    SetSelectedQNSect(sector);
  }
  void SetSelectedQNSect(size_t s) { QLTEN_REQ(s < a_->GetIndex(split_).GetQNSctNum(), "sector does not exist"); sct_ = s; SetStatus(INITED); }
  void Execute() override {
    SetStatus(EXEING);
    QLTensor<T, QNT> m(*a_); size_t lo = 0, inner = 1;
    for (size_t k = 0; k < sct_; ++k) lo += a_->GetIndex(split_).GetQNSct(k).dim();
    size_t hi = lo + a_->GetIndex(split_).GetQNSct(sct_).dim();
    for (size_t i = split_ + 1; i < a_->Rank(); ++i) inner *= a_->GetShape()[i];
    size_t d = a_->GetShape()[split_];
    for (size_t o = 0; o < m.size(); ++o) { size_t c = o / inner % d; if (c < lo || c >= hi) m.Raw()[o] = T(0); }
    Contract(&m, axes_[0], b_, axes_[1], c_);
    SetStatus(FINISH);
  }
 private:
  const QLTensor<T, QNT> *a_, *b_; QLTensor<T, QNT> *c_; size_t split_, sct_; std::vector<std::vector<size_t>> axes_;
};
template<typename T, typename QNT>
void CollectiveLinearCombine(const std::vector<QLTensor<T, QNT>> &v, QLTensor<T, QNT> &res) {
  QLTEN_REQ(!v.empty(), "empty linear combination");
  QLTensor<T, QNT> r(v[0]); for (size_t i = 1; i < v.size(); ++i) r += v[i];
  res = std::move(r);
}
template<typename QNT>
Index<QNT> ExpandIndexMCAndRecordInfo(const Index<QNT> &a, const Index<QNT> &b, std::map<size_t, int> &info) {
  QLTEN_REQ(a.GetDir() == b.GetDir(), "expanding legs of different direction");
  std::vector<std::pair<QNT, size_t>> sec;
  auto add = [&](const QNSector<QNT> &q) -> size_t { for (size_t i = 0; i < sec.size(); ++i) if (sec[i].first == q.GetQn()) { sec[i].second += q.dim(); return i; } sec.emplace_back(q.GetQn(), q.dim()); return sec.size() - 1; };
  for (auto &q : a.GetQNScts()) add(q);
  for (size_t k = 0; k < b.GetQNSctNum(); ++k) info[k] = (int) add(b.GetQNSct(k));
  QNSectorVec<QNT> s; for (auto &x : sec) s.emplace_back(x.first, x.second);
  return Index<QNT>(s, a.GetDir());
}

#ifdef VERIF_MPI
namespace detail {
template<typename T> constexpr uint32_t Cplx() { return std::is_same<T, QLTEN_Complex>::value ? 1 : 0; }
template<typename T, typename QNT> std::string Pack(const QLTensor<T, QNT> &t) { std::ostringstream s; if (!t.IsDefault()) t.StreamWrite(s); return s.str(); }
template<typename T, typename QNT> void Unpack(const std::string &d, QLTensor<T, QNT> &t) {
  if (d.empty()) { t.Clear(); return; }
  QLTensor<T, QNT> r; std::istringstream s(d); r.StreamRead(s); QLTEN_REQ((bool) s, "broken tensor message"); t = std::move(r); }
}
template<typename T, typename QNT>
void BlockSparseDataTensor<T, QNT>::MPI_Send(const MPI_Comm &comm, int dst, int tag) {
  auto &t = static_cast<Ten &>(*this); QLTEN_REQ(!t.IsDefault(), "sending the data of a default tensor");
  mpisim::SendBytes(detail::Pack(t), mpisim::kBlocks + detail::Cplx<T>(), 1, dst, tag, comm);
}
template<typename T, typename QNT>
MPI_Status BlockSparseDataTensor<T, QNT>::MPI_Recv(const MPI_Comm &comm, int src, int tag) {
  auto &t = static_cast<Ten &>(*this); QLTEN_REQ(!t.IsDefault(), "receiving data into a default tensor");
  std::string d; MPI_Status st = mpisim::RecvBytes(d, mpisim::kBlocks + detail::Cplx<T>(), 1, src, tag, comm);
  Ten r; detail::Unpack(d, r); QLTEN_REQ(r.GetIndexes() == t.GetIndexes(), "data received into a tensor with other indices");
  t = std::move(r); return st;
}
template<typename T, typename QNT>
void QLTensor<T, QNT>::MPI_Send(int dst, int tag, const MPI_Comm &comm) const { mpisim::SendBytes(detail::Pack(*this), mpisim::kTensor + detail::Cplx<T>(), 1, dst, tag, comm); }
template<typename T, typename QNT>
MPI_Status QLTensor<T, QNT>::MPI_Recv(int src, int tag, const MPI_Comm &comm) {
  QLTEN_REQ(def_, "receiving into a tensor that is not default");
  std::string d; MPI_Status st = mpisim::RecvBytes(d, mpisim::kTensor + detail::Cplx<T>(), 1, src, tag, comm); detail::Unpack(d, *this); return st;
}
template<typename T, typename QNT>
void QLTensor<T, QNT>::MPI_Bcast(int root, const MPI_Comm &comm) {
  bool mine = mpisim::me().rank == root; std::string d; if (mine) d = detail::Pack(*this); else QLTEN_REQ(def_, "receiving into a tensor that is not default");
  mpisim::BcastBytes(d, mpisim::kTensor + detail::Cplx<T>(), 1, root, comm); if (!mine) detail::Unpack(d, *this);
}
template<typename T, typename QNT> void MPI_Bcast(QLTensor<T, QNT> &t, int root, const MPI_Comm &comm) { t.MPI_Bcast(root, comm); }
template<typename T, typename QNT> void MPI_Send(const QLTensor<T, QNT> &t, int dst, int tag, const MPI_Comm &comm) { t.MPI_Send(dst, tag, comm); }
template<typename T, typename QNT> MPI_Status MPI_Recv(QLTensor<T, QNT> &t, int src, int tag, const MPI_Comm &comm) { return t.MPI_Recv(src, tag, comm); }
// the master decomposes; the others only take part (the real library spreads the blocks over them)
template<typename T, typename QNT>
void MPISVDMaster(const QLTensor<T, QNT> *pt, const size_t ldims, const QNT &lqndiv, const double trunc_err, const size_t Dmin, const size_t Dmax,
                  QLTensor<T, QNT> *pu, QLTensor<QLTEN_Double, QNT> *ps, QLTensor<T, QNT> *pvt, double *perr, size_t *pD, const MPI_Comm &comm) {
  int hello = 4242 + (int) detail::Cplx<T>(); ::MPI_Bcast(&hello, 1, MPI_INT, kMPIMasterRank, comm);
  SVD(pt, ldims, lqndiv, trunc_err, Dmin, Dmax, pu, ps, pvt, perr, pD);
}
template<typename T>
void MPISVDSlave(const MPI_Comm &comm) {
  int hello = 0; ::MPI_Bcast(&hello, 1, MPI_INT, kMPIMasterRank, comm);
  QLTEN_REQ(hello == 4242 + (int) detail::Cplx<T>(), "workers and master decompose different kinds of tensors");
}
#endif
}  // namespace qlten
#endif
