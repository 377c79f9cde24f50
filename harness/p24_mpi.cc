// P24: the parallel sweeps, on simulated ranks: real processes, and a network that chooses the order of everything.
#define VERIF_MPI
#include "tdvp.h"

struct MpiRun { mpisim::Result net; double e0 = 0; std::string out; };
inline std::string Sched(int P, uint64_t seed) { return "ranks " + std::to_string(P) + " schedule " + std::to_string(seed); }
inline void Account(Mon &m, const mpisim::Result &n, const std::string &key) {
  m.count("messages", n.messages); m.count("synchronous_messages", n.sync); m.count("collectives", n.collectives); m.count("schedule_steps", n.steps); m.count("wildcard_choices", n.choices); m.count("parallel_runs_" + key);
}
template<typename T, typename QNT> void Sweeps(size_t c, Rng &r, Mon &m) {
  using P = SweepProblem<T, QNT>; using X = typename P::X; using Ten = typename P::Ten;
  size_t N = 3 + r.below(4); P p(r, N, 0.35); if (p.N == 0) return;
  Wipe("mps"); Wipe("tmp");
  double nrm = r.coin() ? 1.0 : std::pow(10.0, 2 * r.sym()); X::Scale(p.mps, 1.0);
  static const int kinds[] = {kTwoSite, kNoisy, kMatrix}; int kind = kinds[r.below(3)];
#ifdef __SANITIZE_THREAD__
  kind = kNoisy;     // the sweep that uses threads
#endif
  size_t center = r.below(2); p.mps.Centralize(0); p.mps.Centralize((int) center); p.mps[center] *= T(nrm);
  auto psi = X::Dense(p.mps); double prev = Rayleigh<T, QNT>(p.H, psi); p.mps.Dump("mps", true);
  double tolE0 = 1e-9 * (1 + p.hnorm); std::string hist; size_t runs = 1 + r.below(3), dmax = 0; bool moved = false;
  for (size_t run = 0; run < runs; ++run) {
    bool lossless = r.coin(0.6); SweepSetup s = RandSetup(r, kind, lossless, "mps", "tmp");
    bool exact = lossless && run == 0 && p.complete; if (exact) { s.err = 1e-14; s.iters = 200; if (s.sweeps < 2) s.sweeps = 2; }
    auto recentre = [&] { FiniteMPS<T, QNT> w(p.sv); w.Load("mps"); w.Centralize(0); w.Dump("mps", true); Wipe("tmp"); };
    if (kind == kNoisy && !s.noisy()) { kind = s.kind = kTwoSite; s.noisyapi = false; if (run) recentre(); }
    int ranks = r.coin(0.1) ? 1 : 2 + (int) r.below(5); uint64_t sched = r.next(); if (ranks == 1) sched = 0;
    if (run && (s.Dmax < dmax || (ranks == 1 && moved))) recentre();     // the centre must not lie behind the first pair to update
    dmax = s.Dmax; moved = false;
    hist += (run ? " | " : "") + s.str() + " " + Sched(ranks, sched);
    std::string ctx = "N " + std::to_string(N) + (p.complete ? " complete " : " ") + hist + " sites " + p.desc, key = std::string(SweepName(kind)) + (ranks == 1 ? "-alone" : "");
    m.at("parallel sweep " + ctx);
    auto net = mpisim::Run(ranks, sched, [&](int rank) -> std::vector<double> {
      SweepSetup s2 = s; if (rank) { s2.sweeps += 1; s2.mps = "elsewhere"; s2.tmp = "elsewhere-tmp"; }     // only the master's count
      auto par = s2.Params(); FiniteMPS<T, QNT> w(p.sv); long live = tensor_stats().live;
      double e = kind == kMatrix ? FiniteDMRG(w, p.mr, par, MPI_COMM_WORLD) : TwoSiteFiniteVMPS(w, p.mpo, par, MPI_COMM_WORLD);
      bool left = false; for (size_t i = 0; i < w.size(); ++i) left = left || w(i) != nullptr;
      return {e, (double) left, (double) (tensor_stats().live - live), X::DenseMatRepr(p.s, p.mr).norm()};
    });
    Account(m, net, key);
    if (!m.check(net.ok, net.key + "@" + key, [&] { return net.why + " " + ctx; })) return;
    double e0 = net.res[0][0];
    for (int k = 0; k < ranks; ++k) {
      m.check(net.res[k][1] == 0, "memory-left@" + key, [&] { return "rank " + std::to_string(k) + " " + ctx; });
      m.check(net.res[k][2] == 0, "tensors-left@" + key, [&] { return str(net.res[k][2]) + " on rank " + std::to_string(k) + " " + ctx; });
      if (k) m.check(net.res[k][0] == 0, "worker-result@" + key, ctx);
    }
    m.check(!IsDir("elsewhere") && !IsDir("elsewhere-tmp"), "worker-wrote@" + key, ctx); Wipe("elsewhere"); Wipe("elsewhere-tmp");
    FiniteMPS<T, QNT> w(p.sv); std::string why;
    { bool read = true; try { for (size_t i = 0; i < N; ++i) w.LoadTen(i, GenMPSTenName("mps", i)); } catch (const std::exception &e) { read = false; why = e.what(); }
      if (!m.check(read, "state-unreadable@" + key, [&] { return why + " " + ctx; })) return; }
    if (!m.check(X::BondsMatch(w, p.s, why), "bonds@" + key, [&] { return why + " " + ctx; })) return;
    auto v = X::Dense(w); auto log = ParseSweep(net.out[0]); double last = log.trunc.empty() ? 0 : log.trunc.back(), n2 = v.norm() * v.norm();
    if (!m.check(!log.e0.empty(), "nothing-updated@" + key, ctx)) return;
    bool clean = true; for (double t : log.trunc) if (!(t < 1e-14)) clean = false;
    double tolE = tolE0; if (clean) for (double t : log.trunc) tolE += 2.1 * p.hnorm * std::sqrt(2 * std::max(t, 0.0));      // (a weight next to round-off still moves the energy by its square root)
    double loose = 1e-9; for (size_t k : log.iter) if (k > 6) loose = 1e-5;
    m.check(X::TotalDiv(w) == p.div, "charge@" + key, ctx);
    { std::set<size_t> in(p.sector.begin(), p.sector.end()); bool ok = true; for (size_t i = 0; i < v.n(); ++i) if (!in.count(i) && std::abs(v.a[i]) > 1e-12) ok = false; m.check(ok, "sector@" + key, ctx); }
    if (clean) m.check(std::abs(n2 - 1) < loose, "norm@" + key, [&] { return str(n2) + " " + ctx; });
    else if (!s.noisy()) m.check(n2 < 1 + loose && n2 > 1 - last * 1.02 - loose, "norm-truncated@" + key, [&] { return str(n2) + " reported " + str(last) + " " + ctx; });
    else m.check(n2 < 1 + loose && n2 > 1e-12, "norm-noise@" + key, [&] { return str(n2) + " reported " + str(last) + " " + ctx; });
    bool wide = kind != kNoisy; for (size_t b = 0; b + 1 < N; ++b) { size_t D = w[b].GetShape()[2]; if (D > s.Dmax && s.noisy() && b <= N / 2 && !wide) { wide = true; m.count("bond_expanded_by_last_noise"); continue; } m.check(D <= s.Dmax, "bond-limit@" + key, [&] { return "bond " + std::to_string(b) + " of " + std::to_string(D) + " " + ctx; }); }
    double E = Rayleigh<T, QNT>(p.H, v);
    if (!m.check(std::isfinite(e0), "energy-not-finite@" + key, ctx)) return;
    m.check(e0 > p.spec[0] - tolE && e0 < p.spec.back() + tolE, "outside-spectrum@" + key, [&] { return str(e0) + " of [" + str(p.spec[0]) + "," + str(p.spec.back()) + "] " + ctx; });
    m.check(std::abs(log.e0.back() - e0) < 1e-6 * (1 + std::abs(e0)), "printed-energy@" + key, ctx);
    if (clean) {
      m.check(std::abs(e0 - E) < tolE * 3, "energy-of-state@" + key, [&] { return str(e0) + " state has " + str(E) + " " + ctx; }); m.count("energies_exact_state");
      m.check(e0 < prev + tolE, "above-start@" + key, [&] { return str(e0) + " start " + str(prev) + " " + ctx; });
      std::string w2; double q = prev; for (double x : log.e0) { if (x > q + tolE + 1e-8 * (1 + std::abs(q))) w2 = str(x) + " after " + str(q); q = x; }
      m.check(w2.empty(), "energy-rises@" + key, [&] { return w2 + " " + ctx; });
    } else if (!s.noisy()) { double b = 2.1 * p.hnorm * std::sqrt(2 * last) + tolE; m.check(std::abs(e0 - E) < b, "energy-of-state-truncated@" + key, [&] { return str(e0) + " state has " + str(E) + " bound " + str(b) + " " + ctx; }); m.count("energies_truncated"); }
    if (clean && exact) { m.check(std::abs(e0 - p.spec[0]) < 1e-7 * (1 + p.hnorm), "ground-energy@" + key, [&] { return str(e0) + " exact " + str(p.spec[0]) + " " + ctx; }); m.count("exact_runs"); }
    LastReport(m, net.out[0], w, v, p, s, true, true, s.noisy() && ranks > 1, key, ctx);
    size_t begun = 0; for (size_t q = net.out[0].find("sweep "); q != std::string::npos; q = net.out[0].find("sweep ", q + 1)) if (q == 0 || net.out[0][q - 1] == '\n') ++begun; (void) begun;
    size_t per = log.e0.size() / s.sweeps; m.check(per * s.sweeps == log.e0.size() && per > 0, "sweeps@" + key, [&] { return std::to_string(log.e0.size()) + " updates " + ctx; });
    auto is = [&](size_t k) { return X::CanonErr(w, k) < 1e-8; };
    size_t lb = 0; { size_t q = net.out[0].rfind("left boundary = "); if (q != std::string::npos) lb = std::strtoul(net.out[0].c_str() + q + 16, nullptr, 10); }
    moved = lb > 0;
    bool okc = kind == kTwoSite ? is(ranks == 1 ? 1 : lb + 1) : is(0); if (kind == kNoisy && ranks == 1) for (size_t k = 0; k <= N / 2; ++k) okc = okc || is(k);
    m.check(okc, "centre@" + key, [&] { std::string f; for (size_t k = 0; k < N; ++k) if (is(k)) f += " " + std::to_string(k); return "found" + f + " boundary " + std::to_string(lb) + " " + ctx; });
    if (run) m.count("restarts"); m.count("updates", (long) log.e0.size()); if (!clean) m.count("truncated_runs"); m.count("ranks_" + std::to_string(ranks));
    if (ranks > 1) m.distinct(net.hash ^ vmon::hash_str(ctx));
    if (c % 37 == 0) m.sample(ctx + ": " + std::to_string(net.messages) + " messages, " + std::to_string(net.collectives) + " collectives, " + std::to_string(net.steps) + " steps, energy " + str(e0));
    prev = E;
    if (run + 1 < runs) { int how = (int) r.below(3);
      if (how == 1) { Wipe("tmp"); hist += " (no environments)"; }
      else if (how == 2) { kind = kinds[r.below(3)]; recentre(); hist += " (recentred)"; } }
  }
  Wipe("mps"); Wipe("tmp");
}
template<typename QNT> void Evolution(size_t c, Rng &r, Mon &m) {
  TdvpCase<QNT>(c, r, m, [](Rng &r, Mon &m, FiniteMPS<cd, QNT> &w0, SweepProblem<cd, QNT> &p, const std::string &ctx0, auto params) {
    TdvpRun<QNT> o; int ranks = r.coin(0.08) ? 1 : 2 + (int) r.below(5); uint64_t sched = r.next(); if (ranks == 1) sched = 0;
    o.desc = " " + Sched(ranks, sched); std::string ctx = ctx0 + o.desc, key = ranks == 1 ? "evolution-alone" : "evolution"; o.normalized = ranks > 1; o.ok = false; m.at("parallel TDVP " + ctx);
    auto net = mpisim::Run(ranks, sched, [&](int rank) -> std::vector<double> {
      auto par = params((MPITDVPSweepParams<QNT> *) nullptr); FiniteMPS<cd, QNT> w(p.sv); long live = tensor_stats().live;
      if (rank) { par.mps_path = par.initial_mps_path = "elsewhere"; par.temp_path = "elsewhere-tmp"; }
      auto res = TwoSiteFiniteTDVP(w, p.mpo, par, std::string(rank ? "elsewhere" : "corr"), MPI_COMM_WORLD);
      bool left = false; for (size_t i = 0; i < w.size(); ++i) left = left || w(i) != nullptr;
      std::vector<double> out{(double) left, (double) (tensor_stats().live - live)};
      if (!rank) for (auto &e : res) { out.push_back((double) e.sites.size()); for (auto x : e.sites) out.push_back((double) x); out.push_back((double) e.times.size()); for (auto x : e.times) out.push_back(x); out.push_back(e.avg.real()); out.push_back(e.avg.imag()); }
      return out;
    });
    Account(m, net, key);
    if (!m.check(net.ok, net.key + "@" + key, [&] { return net.why + " " + ctx; })) return o;
    for (int k = 0; k < ranks; ++k) {
      m.check(net.res[k][0] == 0, "memory-left@" + key, [&] { return "rank " + std::to_string(k) + " " + ctx; });
      m.check(net.res[k][1] == 0, "tensors-left@" + key, [&] { return str(net.res[k][1]) + " on rank " + std::to_string(k) + " " + ctx; });
    }
    m.check(!IsDir("elsewhere") && !IsDir("elsewhere-tmp") && access("elsewhere.json", F_OK) != 0, "worker-wrote@" + key, ctx); Wipe("elsewhere"); Wipe("elsewhere-tmp"); unlink("elsewhere.json");
    auto &d = net.res[0]; for (size_t i = 2; i < d.size();) { DynamicMeasuResElem<cd> e; size_t n = (size_t) d[i++]; while (n--) e.sites.push_back((size_t) d[i++]); n = (size_t) d[i++]; while (n--) e.times.push_back(d[i++]); e.avg = cd(d[i], d[i + 1]); i += 2; o.res.push_back(e); }
    o.out = net.out[0]; o.ok = true; m.count("ranks_" + std::to_string(ranks)); if (ranks > 1) m.distinct(net.hash ^ vmon::hash_str(ctx)); return o;
  });
}
int main(int argc, char **argv) {
  QuietCout q;
  return vmon::run(argc, argv, "p24", [](size_t c, Rng &r, Mon &m) {
#ifdef __SANITIZE_THREAD__
    m.count("cases_watched_for_races"); c %= 4;
#endif
    switch (c % 6) { case 4: c % 12 == 4 ? Evolution<special_qn::U1QN>(c, r, m) : Evolution<special_qn::TrivialRepQN>(c, r, m); break; case 5: Evolution<special_qn::U1U1QN>(c, r, m); break; case 0: Sweeps<double, special_qn::U1QN>(c, r, m); break; case 1: Sweeps<cd, special_qn::U1U1QN>(c, r, m); break;
      case 2: Sweeps<double, special_qn::TrivialRepQN>(c, r, m); break; default: Sweeps<cd, special_qn::U1QN>(c, r, m); } });
}
