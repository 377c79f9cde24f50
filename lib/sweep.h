// Variational sweeps over states kept on disk: random problems, drivers, and what the drivers print.
#ifndef VERIF_SWEEP_H
#define VERIF_SWEEP_H
#include "eff.h"

enum SweepKind { kTwoSite, kOneSite, kNoisy, kMatrix };
inline const char *SweepName(int k) { static const char *n[] = {"two-site", "single-site", "noisy-two-site", "matrix-form"}; return n[k]; }

struct SweepLog { std::vector<double> e0, trunc; std::vector<size_t> D, iter; };
inline SweepLog ParseSweep(const std::string &out) {
  SweepLog l; std::istringstream is(out); std::string s;
  while (std::getline(is, s)) {
    if (s.compare(0, 4, "Site") != 0) continue;
    auto num = [&](const char *k) { size_t p = s.find(k); if (p == std::string::npos) return std::nan(""); p = s.find('=', p); return strtod(s.c_str() + p + 1, nullptr); };
    l.e0.push_back(num(" E0 =")); l.trunc.push_back(num(" TruncErr =")); l.D.push_back((size_t) num(" D =")); l.iter.push_back((size_t) num(" Iter ="));
  }
  return l;
}

template<typename T, typename QNT> struct SweepProblem : EffProblem<T, QNT> {
  using B = EffProblem<T, QNT>; using X = typename B::X; using Ten = typename B::Ten; using MPSt = typename B::MPSt; using Idx = typename X::Idx; using Sct = typename X::Sct;
  std::vector<size_t> sector; std::vector<double> spec; double hnorm = 0; bool complete = false;
  std::vector<size_t> firstconf;      // Complete(): configuration of each state of the first bond
  SweepProblem(Rng &r, size_t N_, double pcomplete, const std::vector<Idx> *given = nullptr) : B(r, N_, given) {
    if (B::N == 0) return;
    sector = X::Sector(this->s, this->div); X::LowestIn(this->H, sector, &spec);
    for (double x : spec) hnorm = std::max(hnorm, std::abs(x));
    if (r.coin(pcomplete) && sector.size() <= 120) { Complete(r); complete = true; }
  }
  // all the weight in the first tensor, every bond carrying the whole space to its right
  void Complete(Rng &r) {
    auto &s = this->s; size_t N = this->N; Idx rv({Sct(QNT(), 1)}, OUT); std::vector<size_t> conf{0}; size_t dim = 1;
    for (size_t i = N; i-- > 0;) {
      auto qp = s[i].Qns(), qr = rv.Qns(); Idx lv;
      if (i == 0) {
        firstconf = conf; Ten t({Idx({Sct(QNT(), 1)}, IN), s[0], rv});
        for (size_t p = 0; p < qp.size(); ++p) for (size_t b = 0; b < qr.size(); ++b) if (qp[p] + qr[b] == this->div) t({0, p, b}) = rnds<T>(r);
        delete this->mps(0); this->mps(0) = new Ten(std::move(t)); break;
      }
      std::vector<QNT> seen; std::vector<std::vector<std::pair<size_t, size_t>>> at;
      for (size_t p = 0; p < qp.size(); ++p) for (size_t b = 0; b < qr.size(); ++b) {
        QNT q = qp[p] + qr[b]; size_t k = 0; while (k < seen.size() && !(seen[k] == q)) ++k;
        if (k == seen.size()) { seen.push_back(q); at.push_back({}); }
        at[k].emplace_back(p, b); }
      std::vector<Sct> sc; for (size_t k = 0; k < seen.size(); ++k) sc.emplace_back(seen[k], at[k].size());
      lv = Idx(sc, IN); Ten t({lv, s[i], rv}); size_t o = 0;
      std::vector<size_t> nc; for (auto &v : at) for (auto &pb : v) { nc.push_back(pb.first * dim + conf[pb.second]); t({o++, pb.first, pb.second}) = T(1); }
      conf = nc; dim *= s[i].dim();
      delete this->mps(i); this->mps(i) = new Ten(std::move(t)); rv = InverseIndex(lv);
    }
  }
  // after Complete(): the state v
  void Load(const Vec<T> &v) {
    auto &s = this->s; Ten &t = *this->mps(0); auto qp = s[0].Qns(), qr = t.GetIndex(2).Qns(); size_t dim = v.n() / qp.size();
    for (size_t p = 0; p < qp.size(); ++p) for (size_t b = 0; b < qr.size(); ++b) if (qp[p] + qr[b] == this->div) t({0, p, b}) = v.a[p * dim + firstconf[b]];
  }
};

struct SweepSetup {
  int kind; size_t sweeps, Dmin, Dmax, iters; double cut, err; std::vector<double> noises; double max_noise, up, down, alpha; bool noisyapi; std::string mps, tmp;
  FiniteVMPSSweepParams Params() const {
    LanczosParams l(err, iters);
    if (noisyapi) return FiniteVMPSSweepParams(sweeps, Dmin, Dmax, cut, l, noises, max_noise, up, down, alpha, mps, tmp);
    return FiniteVMPSSweepParams(sweeps, Dmin, Dmax, cut, l, mps, tmp);
  }
  bool noisy() const { if (!noisyapi || kind == kTwoSite || kind == kMatrix) return false; for (double x : noises) if (x != 0) return true; return false; }
  std::string str() const { std::ostringstream o; o << SweepName(kind) << " sweeps " << sweeps << " D " << Dmin << ".." << Dmax << " cut " << cut << " lanczos " << err << "/" << iters << " noises [" << vmon::join(noises) << "]" << (noisyapi ? "" : " none"); return o.str(); }
};
inline SweepSetup RandSetup(Rng &r, int kind, bool lossless, const std::string &mps, const std::string &tmp) {
  SweepSetup s; s.kind = kind; s.sweeps = 1 + r.below(3); s.mps = mps; s.tmp = tmp;
  static const double errs[] = {1e-14, 1e-12, 1e-9, 1e-6}; static const size_t its[] = {1, 2, 4, 20, 100, 200};
  s.err = errs[r.below(4)]; s.iters = its[r.below(6)];
  if (lossless) { s.Dmin = 1 + r.below(3); s.Dmax = 400; s.cut = r.coin() ? 0 : 1e-30; }
  else { s.Dmax = 1 + r.below(8); s.Dmin = 1 + r.below(s.Dmax); static const double cuts[] = {0, 1e-12, 1e-6, 1e-3, 0.05}; s.cut = cuts[r.below(5)]; }
  s.noisyapi = kind == kNoisy || (kind == kOneSite && r.coin(0.7)); s.max_noise = 1.0; s.up = 1.02; s.down = 0.95; s.alpha = 0.3;
  if (s.noisyapi) { size_t n = r.below(4); for (size_t i = 0; i < n; ++i) s.noises.push_back(r.coin(0.25) ? 0.0 : std::pow(10.0, -1 - 5 * r.unit())); if (r.coin(0.3)) { s.max_noise = 1e-3 + r.unit(); s.up = 1 + r.unit(); s.down = r.unit(); s.alpha = r.unit(); } }
  return s;
}
template<typename T, typename QNT> double RunSweep(SweepSetup &s, FiniteMPS<T, QNT> &mps, SweepProblem<T, QNT> &p) {
  auto par = s.Params();
  switch (s.kind) {
    case kTwoSite: case kNoisy: return TwoSiteFiniteVMPS(mps, p.mpo, par);
    case kOneSite: return SingleSiteFiniteVMPS(mps, p.mpo, par);
    default: return FiniteDMRG(mps, p.mr, par);
  }
}
template<typename T, typename QNT> double Rayleigh(const Mat<T> &H, const Vec<T> &v) { double n = v.norm(); return std::real(cd(v.dot(H * v))) / (n * n); }
#endif
