// P25: the progress reports of the sequential drivers, each checked against the state at the moment it is printed.
#include "report.h"
#include "tdvp.h"

template<typename T, typename QNT> void Judge(Mon &m, const Report &q, const Seen &o, SweepProblem<T, QNT> &p, size_t Dmax, size_t its, double loose, bool noisy, const std::string &key, const std::string &at, const std::string &ctx) {
  auto say = [&](const std::string &w) { return w + " " + at + " " + ctx; };
  if (!m.check(o.ok, "state-broken@" + key, [&] { return say(o.why); })) return;
  double tolE = 1e-9 * (1 + p.hnorm);
  m.check(q.D == (double) o.D, "bond-dimension@" + key, [&] { return say(str(q.D) + " is " + std::to_string(o.D)); });
  m.check(q.D >= 1 && q.D <= (double) Dmax, "bond-limit@" + key, [&] { return say(str(q.D)); });
  m.check(q.iter >= 0 && q.iter <= (double) its, "iterations@" + key, [&] { return say(str(q.iter) + " of " + std::to_string(its)); });
  if (!m.check(std::isfinite(q.trunc) && q.trunc > -1e-12 && q.trunc < 1 + 1e-9 && std::isfinite(q.S), "report-values@" + key, [&] { return say(str(q.trunc) + " S " + str(q.S)); })) return;
  m.check(o.charge, "charge@" + key, [&] { return say(""); }); m.check(o.sector, "sector@" + key, [&] { return say(""); });
  if (noisy) {      // the noise is part of what is cut, and of the entropy
    if (q.trunc < 1e-14) { m.check(std::abs(o.n2 - 1) < loose, "norm-noisy@" + key, [&] { return say(str(o.n2)); }); m.check(std::abs(q.e0 - o.E) < 4 * p.hnorm * std::sqrt(std::max(q.trunc, 0.0)) + 3 * tolE, "energy-noisy@" + key, [&] { return say(str(q.e0) + " is " + str(o.E)); }); }
    m.count("noisy_updates"); return; }
  m.check(o.canon < 1e-8, "centre@" + key, [&] { return say("not on " + std::to_string(o.c)); });
  m.check(std::abs(q.S - o.S) < 2e-7 + 20 * loose, "entropy@" + key, [&] { return say(str(q.S) + " is " + str(o.S)); });
  if (o.S > 0.01) m.count("entropies_nonzero");
  m.check(std::abs(1 - q.trunc - o.n2) < loose + 0.006 * q.trunc, "discarded-weight@" + key, [&] { return say(str(q.trunc) + " is " + str(1 - o.n2)); });
  // what was cut changes the state by the square root of its weight, also where that weight is next to round-off
  bool cut = q.trunc >= 1e-14; if (cut) m.count("truncated_updates");
  double b = 2.1 * p.hnorm * std::sqrt(2 * std::max(q.trunc, 0.0)) + 3 * tolE;
  m.check(std::abs(q.e0 - o.E) < b, std::string(cut ? "energy-truncated@" : "energy@") + key, [&] { return say(str(q.e0) + " is " + str(o.E)); });
  m.count("updates_judged");
}
template<typename T, typename QNT> void Case(size_t c, Rng &r, Mon &m) {
  using P = SweepProblem<T, QNT>; using X = typename P::X;
  size_t N = 3 + r.below(4); P p(r, N, 0.25); if (p.N == 0) return;
  Wipe("mps"); Wipe("tmp"); X::Scale(p.mps, 1.0); p.mps.Centralize(0); p.mps.Dump("mps", true);
  int kind = (int) r.below(4); size_t runs = 1 + r.below(2), dmax = 0; std::string hist;
  for (size_t run = 0; run < runs; ++run) {
    SweepSetup s = RandSetup(r, kind, r.coin(0.5), "mps", "tmp");
    auto recentre = [&] { FiniteMPS<T, QNT> w(p.sv); w.Load("mps"); w.Centralize(0); w.Dump("mps", true); Wipe("tmp"); };
    if (kind == kNoisy && !s.noisy()) { kind = s.kind = kTwoSite; if (run) recentre(); }
    if (run && kind != kOneSite && s.Dmax < dmax) recentre();
    dmax = s.Dmax; hist += (run ? " | " : "") + s.str(); std::string ctx = "N " + std::to_string(N) + " " + hist + " sites " + p.desc, key = SweepName(kind); m.at("sweep " + ctx);
    std::vector<Report> rep; std::vector<Seen> seen; size_t sweep = 0; double e0; std::string out; size_t lb = 0; bool printedlb = false;
    { FiniteMPS<T, QNT> w(p.sv); LineCapture cap; int back = 0;
      cap.buf.on = [&](const std::string &l) {
        for (const char *k : {"left boundary = ", "left boundary: \t"}) if (l.compare(0, strlen(k), k) == 0) { lb = strtoul(l.c_str() + strlen(k), nullptr, 10); printedlb = true; }
        Report q; size_t was = sweep; if (!ParseReport(l, sweep, q)) { if (sweep != was) back = 0; return; }
        if (q.sites.empty()) { rep.push_back(q); return; }
        size_t f = q.sites[0]; bool left = false;
        if (kind == kMatrix) { rep.push_back(q); return; }
        // the way back begins where the printed site no longer follows its predecessor
        if (!rep.empty() && rep.back().sweep == q.sweep) { if (f != rep.back().sites[0] + 1 || (kind == kOneSite && f == N - 1)) back = 1; if (kind != kOneSite && f == rep.back().sites[0] + 2) back = 1; }
        if (kind == kOneSite && f == N - 1) back = 1;
        left = back; rep.push_back(q); size_t l0 = left ? f - (f > 0) : f, at = left ? l0 : f + 1; if (at >= N) at = N - 1; if (l0 + 1 >= N) l0 = N - 2;
        seen.push_back(Look(p, &w, "mps", l0, at, p.div));
      };
      e0 = RunSweep(s, w, p); out = cap.buf.all; }
    if (!m.check(!rep.empty(), "nothing-reported@" + key, ctx)) return;
    if (!m.check(!rep[0].sites.empty(), "unreadable-report@" + key, ctx)) return;
    size_t stated = lb, z = 0; lb = rep[0].sites[0]; for (auto &q : rep) if (!q.sites.empty()) z = std::max(z, q.sites.back());      // the right boundary is reached
    if (kind != kOneSite) { m.check((!printedlb || stated == lb) && z >= lb + 2 && z < N, "boundaries@" + key, [&] { return std::to_string(lb) + " to " + std::to_string(z) + " stated " + std::to_string(stated) + " " + ctx; });
      // what is left out needs no update: a complete space up to the ends
      FiniteMPS<T, QNT> w(p.sv); bool full = true;      // (the matrix form moves the centre over the left end afterwards) for (size_t i = 0; i < N; ++i) { w.LoadTen(i, GenMPSTenName("mps", i)); auto h = w[i].GetShape(); if (i < lb && kind != kMatrix && h[0] * h[1] != h[2]) full = false; if (i > z && h[1] * h[2] != h[0]) full = false; }
      m.check(full, "left-out@" + key, [&] { return std::to_string(lb) + " to " + std::to_string(z) + " " + ctx; }); if (lb || z + 1 < N) m.count("narrow_ranges"); }
    std::string o = Order(kind, rep, s.sweeps, N, lb, z);
    if (!m.check(o.empty(), "order@" + key, [&] { return o + " " + ctx; })) return;
    double loose = 1e-9; 
    for (size_t k = 0; k < seen.size(); ++k) { loose = rep[k].iter > 6 ? 1e-5 : 1e-9; Judge(m, rep[k], seen[k], p, s.Dmax, s.iters, loose, s.noisy() && rep[k].noise != 0, key, "update " + std::to_string(k) + " of sweep " + std::to_string(rep[k].sweep), ctx); if (k) m.check(rep[k].sweep >= rep[k - 1].sweep, "sweep-numbers@" + key, ctx); }
    if (kind == kMatrix) { auto &q = rep.back(); if (q.iter > 6) loose = 1e-5; Seen o2 = Look<T, QNT>(p, nullptr, "mps", q.sites[0], 0, p.div); Judge(m, q, o2, p, s.Dmax, s.iters, loose, false, key, "last update", ctx);
      for (auto &x : rep) m.check(x.D >= 1 && x.D <= (double) s.Dmax && x.iter >= 0 && x.iter <= (double) s.iters && x.S > -1e-9 && x.S < std::log(x.D) + 0.4 && x.e0 > p.spec[0] - 1e-9 * (1 + p.hnorm), "report-values@" + key, ctx); }
    m.check(std::abs(rep.back().e0 - e0) < 1e-12 * (1 + std::abs(e0)), "last-energy@" + key, [&] { return str(e0) + " printed " + str(rep.back().e0) + " " + ctx; });
    if (kind != kTwoSite) { auto says = [&](const std::string &k, const std::string &v) { size_t q = out.find(k), e = q; std::string got; if (q != std::string::npos) { e = out.find('\n', q); got = out.substr(q + k.size(), e - q - k.size()); size_t f = got.find_first_not_of(" \t:"); got = f == std::string::npos ? "" : got.substr(f); } m.check(got == v, "parameters@" + key, [&] { return k + " '" + got + "' for " + v + " " + ctx; }); };
      says("MPS/MPO size", std::to_string(N)); says(kind == kOneSite ? "sweep times" : "Sweep times", std::to_string(s.sweeps)); says("Bond dimension", std::to_string(s.Dmin) + "/" + std::to_string(s.Dmax)); says("Lanczos max iterations", std::to_string(s.iters)); says("MPS path", "mps"); says("Temp path", "tmp"); m.count("stated_parameters", 6); }
    else m.check(lb == 0 && z + 1 == N, "boundaries@" + key, ctx);
    m.count("runs_" + key); m.count("reports", (long) rep.size()); m.distinct(vmon::hash_str(ctx + str(e0)));
    if (c % 97 == 0) m.sample(ctx + ": " + std::to_string(rep.size()) + " reports, last energy " + str(e0) + " entropy " + str(rep.back().S));
    if (run + 1 < runs && r.coin()) { kind = (int) r.below(4); recentre(); hist += " (recentred)"; }
  }
  Wipe("mps"); Wipe("tmp");
}
int main(int argc, char **argv) {
  QuietCout q;
  return vmon::run(argc, argv, "p25", [](size_t c, Rng &r, Mon &m) {
    if (c % 8 == 7) { m.count("evolution_cases"); auto run = [](Rng &, Mon &, auto &w, auto &p, const std::string &, auto params) { CoutCapture cc; using QN = std::decay_t<decltype(p.div)>; TdvpRun<QN> o; auto par = params((TDVPEvolveParams<QN> *) nullptr); o.res = TwoSiteFiniteTDVP(w, p.mpo, par, std::string("corr")); o.out = cc.str(); return o; };
      if (c % 16 == 7) TdvpCase<special_qn::U1QN>(c, r, m, run); else TdvpCase<special_qn::TrivialRepQN>(c, r, m, run); return; }
    switch (c % 4) { case 0: Case<double, special_qn::U1QN>(c, r, m); break; case 1: Case<cd, special_qn::U1U1QN>(c, r, m); break;
      case 2: Case<double, special_qn::TrivialRepQN>(c, r, m); break; default: Case<cd, special_qn::U1QN>(c, r, m); } });
}
