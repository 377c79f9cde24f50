// P21: single-site, two-site and noisy two-site sweeps against exact diagonalization of the same Hamiltonian.
#include "sweep.h"
template<typename T, typename QNT> void Case(size_t c, Rng &r, Mon &m) {
  using P = SweepProblem<T, QNT>; using X = typename P::X; using Ten = typename P::Ten;
  size_t N = 3 + r.below(4); P p(r, N, 0.35); if (p.N == 0) return;
  Wipe("mps"); Wipe("tmp");
  double nrm = r.coin() ? 1.0 : std::pow(10.0, 2 * r.sym());
  X::Scale(p.mps, 1.0);
  int kind = (int) r.below(3);
  size_t center = kind == kOneSite ? 0 : r.below(2);
  p.mps.Centralize(0); p.mps.Centralize((int) center); p.mps[center] *= T(nrm);
  auto psi = X::Dense(p.mps); double es = Rayleigh<T, QNT>(p.H, psi), prev = es; bool prevlossless = true;
  p.mps.Dump("mps", true);
  double tolE0 = 1e-9 * (1 + p.hnorm);
  std::vector<Ten> mpo0; for (size_t i = 0; i < N; ++i) mpo0.push_back(p.mpo[i]);
  size_t dmax = 0, runs = 1 + r.below(3); std::string hist;
  for (size_t run = 0; run < runs; ++run) {
    bool lossless = r.coin(0.6); SweepSetup s = RandSetup(r, kind, lossless, "mps", "tmp");
    bool exact = lossless && run == 0 && p.complete;
    if (kind == kNoisy && !s.noisy()) {             // becomes the plain two-site algorithm: as after any change of method
      kind = s.kind = kTwoSite; if (run) { FiniteMPS<T, QNT> w(p.sv); w.Load("mps"); w.Centralize(0); w.Dump("mps", true); Wipe("tmp"); } m.count("empty_noises"); }
    if (run && kind == kNoisy && s.Dmax < dmax) { FiniteMPS<T, QNT> w(p.sv); w.Load("mps"); w.Centralize(0); w.Dump("mps", true); Wipe("tmp"); }   // the boundaries move outwards
    dmax = s.Dmax;
    if (exact) { s.err = 1e-14; s.iters = 200; if (s.sweeps < 2) s.sweeps = 2; }
    hist += (run ? " | " : "") + s.str();
    std::string ctx = "N " + std::to_string(N) + (p.complete ? " complete " : " ") + hist + " sites " + p.desc, key = SweepName(kind);
    m.at("sweep " + ctx);
    long live = tensor_stats().live; double e0; std::string out;
    { FiniteMPS<T, QNT> w(p.sv); CoutCapture cap; e0 = RunSweep(s, w, p); out = cap.str(); bool empty = true; for (size_t i = 0; i < N; ++i) if (w(i) != nullptr) empty = false; m.check(empty, "memory-left@" + key, ctx); }
    m.check(tensor_stats().live == live, "tensors-left@" + key, [&] { return std::to_string(tensor_stats().live - live) + " tensors, " + ctx; });
    for (size_t i = 0; i < N; ++i) m.check(p.mpo[i].GetIndexes() == mpo0[i].GetIndexes() && p.mpo[i].Raw() == mpo0[i].Raw(), "operator-changed@" + key, ctx);
    FiniteMPS<T, QNT> w(p.sv); w.Load("mps"); std::string why;
    if (!m.check(X::BondsMatch(w, p.s, why), "bonds@" + key, [&] { return why + " " + ctx; })) return;
    auto v = X::Dense(w); auto log = ParseSweep(out); double last = log.trunc.empty() ? 0 : log.trunc.back(), n2 = v.norm() * v.norm();
    if (log.trunc.empty()) { m.viol("nothing-updated@" + key, ctx); return; }
    bool clean = true; for (double t : log.trunc) if (!(t < 1e-14)) clean = false;
    double tolE = tolE0; if (clean) for (double t : log.trunc) tolE += 2.1 * p.hnorm * std::sqrt(2 * std::max(t, 0.0));      // (a weight next to round-off still moves the energy by its square root)
    m.check(X::TotalDiv(w) == p.div, "charge@" + key, ctx);
    bool insec = true; { std::set<size_t> in(p.sector.begin(), p.sector.end()); for (size_t i = 0; i < v.n(); ++i) if (!in.count(i) && std::abs(v.a[i]) > 1e-12) insec = false; } m.check(insec, "sector@" + key, ctx);
    // norm: what the last step discarded and nothing else
    double loose = 1e-9; for (size_t k : log.iter) if (k > 6) loose = 1e-5;       // Lanczos vectors lose orthogonality
    if (clean) m.check(std::abs(n2 - 1) < loose, "norm@" + key, [&] { return str(n2) + " " + ctx; });
    else if (!s.noisy()) m.check(n2 < 1 + loose && n2 > 1 - last * 1.02 - loose, "norm-truncated@" + key, [&] { return str(n2) + " reported " + str(last) + " " + ctx; });
    else m.check(n2 < 1 + loose && n2 > 1e-12, "norm-noise@" + key, [&] { return str(n2) + " reported " + str(last) + " " + ctx; });
    bool wide = kind != kNoisy; for (size_t b = 0; b + 1 < N; ++b) { size_t D = w[b].GetShape()[2]; if (D > s.Dmax && s.noisy() && b <= N / 2 && !wide) { wide = true; m.count("bond_expanded_by_last_noise"); continue; } m.check(D <= s.Dmax, "bond-limit@" + key, [&] { return "bond " + std::to_string(b) + " of " + std::to_string(D) + " " + ctx; }); }
    double E = Rayleigh<T, QNT>(p.H, v);
    bool finite = std::isfinite(e0); if (!m.check(finite, "energy-not-finite@" + key, [&] { return str(e0) + " " + ctx; })) return;
    m.check(e0 > p.spec[0] - tolE, "below-ground@" + key, [&] { return str(e0) + " < " + str(p.spec[0]) + " " + ctx; });
    m.check(e0 < p.spec.back() + tolE, "above-spectrum@" + key, [&] { return str(e0) + " > " + str(p.spec.back()) + " " + ctx; });
    if (clean) { m.check(std::abs(e0 - E) < tolE * 3, "energy-of-state@" + key, [&] { return str(e0) + " state has " + str(E) + " " + ctx; }); m.count("energies_exact_state"); }
    else if (!s.noisy()) { double b = 2.1 * p.hnorm * std::sqrt(2 * last) + tolE; m.check(std::abs(e0 - E) < b, "energy-of-state-truncated@" + key, [&] { return str(e0) + " state has " + str(E) + " bound " + str(b) + " " + ctx; }); m.count("energies_truncated"); }
    m.check(std::abs(log.e0.back() - e0) < 1e-6 * (1 + std::abs(e0)), "printed-energy@" + key, ctx);
    if (clean) {
      m.check(e0 < prev + tolE, "above-start@" + key, [&] { return str(e0) + " start " + str(prev) + " " + ctx; });
      bool mono = true; std::string w2 = vmon::join(log.e0) + " trunc " + vmon::join(log.trunc) + " iter " + vmon::join(log.iter); double q = prev; for (double x : log.e0) { if (x > q + tolE + 1e-8 * (1 + std::abs(q))) { mono = false; w2 += "; " + str(x) + " after " + str(q); } q = x; }
      m.check(mono, "energy-rises@" + key, [&] { return w2 + " " + ctx; }); m.count("monotone_runs");
    }
    if (run) m.count("restarts");
    if (clean && exact) { m.check(std::abs(e0 - p.spec[0]) < 1e-7 * (1 + p.hnorm), "ground-energy@" + key, [&] { return str(e0) + " exact " + str(p.spec[0]) + " " + ctx; }); m.count("exact_runs"); }
    if (clean && std::abs(e0 - p.spec[0]) < 1e-6 * (1 + p.hnorm)) m.count("at_ground"); else if (clean) m.count("not_at_ground");
    // the centre
    size_t at = N; for (size_t k = 0; k < N; ++k) if (X::CanonErr(w, k) < 1e-9) { at = k; break; }
    auto is = [&](size_t k) { return X::CanonErr(w, k) < 1e-8; };
    bool okc = kind == kTwoSite ? is(1) : kind == kOneSite ? is(0) : false; if (kind == kNoisy) for (size_t k = 0; k <= N / 2; ++k) okc = okc || is(k);
    m.check(okc, "centre@" + key, [&] { return "found " + std::to_string(at) + " " + ctx; }); m.count(std::string("centre_") + SweepName(kind) + "_" + std::to_string(at));
    m.count(std::string("runs_") + SweepName(kind)); if (s.noisy()) m.count("noisy_runs"); if (!clean) m.count("truncated_runs"); m.count("updates", (long) log.e0.size());
    if (p.sector.size() > 1) m.distinct(vmon::hash_str(ctx + str(E) + std::to_string(c)));
    prev = E; (void) prevlossless;
    // continue: as it is, or without the environments, or with another method
    if (run + 1 < runs) {
      int how = (int) r.below(3);
      if (how == 1) { Wipe("tmp"); hist += " (no environments)"; }
      else if (how == 2) { kind = (int) r.below(3); w.Centralize(0); w.Dump("mps", true); Wipe("tmp"); hist += " (recentred)"; }
    }
  }
  Wipe("mps"); Wipe("tmp");
}
int main(int argc, char **argv) {
  QuietCout q;
  return vmon::run(argc, argv, "p21", [](size_t c, Rng &r, Mon &m) {
    switch (c % 4) { case 0: Case<double, special_qn::U1QN>(c, r, m); break; case 1: Case<cd, special_qn::U1U1QN>(c, r, m); break;
      case 2: Case<double, special_qn::TrivialRepQN>(c, r, m); break; default: Case<cd, special_qn::U1QN>(c, r, m); } });
}
