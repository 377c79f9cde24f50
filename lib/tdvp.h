// Two-site time evolution against exact diagonalization, its invariants, and the correlations it reports (P23, P24).
#pragma once
#include "report.h"

// charge-resolved completeness of the Schmidt bases of v at bond b
template<typename T, typename QNT> void Complete(const std::vector<Index<QNT>> &s, const Vec<T> &v, const QNT &div, size_t b, bool &left, bool &right, bool &full) {
  using X = TN<T, QNT>; left = right = true;
  std::vector<Index<QNT>> ls(s.begin(), s.begin() + b), rs(s.begin() + b, s.end()); size_t m = X::Dim(ls), n = X::Dim(rs);
  std::vector<QNT> ql(m), qr(n); for (size_t i = 0; i < m; ++i) ql[i] = X::ConfQ(ls, X::Unrank(ls, i)); for (size_t i = 0; i < n; ++i) qr[i] = X::ConfQ(rs, X::Unrank(rs, i));
  std::vector<QNT> seen;
  for (auto &q : ql) {
    bool dup = false; for (auto &x : seen) dup = dup || x == q; if (dup) continue; seen.push_back(q);
    std::vector<size_t> L, R; for (size_t i = 0; i < m; ++i) if (ql[i] == q) L.push_back(i); for (size_t i = 0; i < n; ++i) if (qr[i] == div - q) R.push_back(i);
    if (R.empty()) continue;
    bool small = L.size() <= R.size(); Mat<T> g(std::min(L.size(), R.size()));
    for (size_t x = 0; x < g.n; ++x) for (size_t y = 0; y < g.n; ++y) { T a(0); if (small) for (size_t k : R) a += v.a[L[x] * n + k] * cj(v.a[L[y] * n + k]); else for (size_t k : L) a += v.a[k * n + R[x]] * cj(v.a[k * n + R[y]]); g(x, y) = a; }
    size_t rank = 0; for (double e : eigh(g)) if (e > 1e-5) ++rank;
    if (rank < g.n) full = false; if (rank < L.size()) left = false; if (rank < R.size()) right = false;
  }
}
template<typename QNT> struct TdvpRun { DynamicMeasuRes<cd> res; std::string out, desc; bool ok = true, normalized = false; };
// run(p, parameters..., w): performs one evolution
template<typename QNT, typename RunF> void TdvpCase(size_t c, Rng &r, Mon &m, RunF runf) {
  using T = cd; using P = SweepProblem<T, QNT>; using X = typename P::X; using Ten = typename P::Ten; using MPSt = typename P::MPSt;
  size_t N = r.coin(0.6) ? 3 + r.below(2) : 5 + r.below(2); std::vector<typename X::Idx> us(N, X::RandSite(r, N <= 4 ? 3 : 2)); P p(r, N, 0.0, &us); if (p.N == 0 || p.sector.empty()) return;
  auto &s = p.s; Wipe("mps"); Wipe("init"); Wipe("tmp"); Wipe("mtmp"); unlink("corr.json");
  // the start: random, complete, or an eigenstate
  int start = (int) r.below(4);
  if (start == 0 || p.sector.size() > 130) { start = 0; X::Scale(p.mps, 1.0); p.mps.Centralize(0); }
  else { p.Complete(r);
    if (start == 1) { Mat<T> h(p.sector.size()); for (size_t i = 0; i < h.n; ++i) for (size_t j = 0; j < h.n; ++j) h(i, j) = p.H(p.sector[i], p.sector[j]); eigh(h); size_t k = r.coin() ? 0 : r.below(h.n); Vec<T> v(p.H.n); for (size_t i = 0; i < h.n; ++i) v.a[p.sector[i]] = h(i, k); p.Load(v); }
    X::Scale(p.mps, 1.0); }
  double nrm = r.coin(0.7) ? 1.0 : std::pow(10.0, r.sym()); *p.mps(0) *= T(nrm);
  size_t site0 = r.below(N), center = r.below(site0 + 1); p.mps.Centralize((int) center);
  Vec<T> psi = X::Dense(p.mps), bra = psi; p.mps.Dump("mps", true); QNT div = p.div, bradiv = div;
  double hn = std::max(1e-3, p.hnorm); { std::vector<double> all; Mat<T> h = p.H; all = eigh(h); hn = std::max({1e-3, std::abs(all[0]), std::abs(all.back())}); }
  Mat<T> before = X::DenseMpo(p.mpo); std::map<std::string, std::string> initfiles; std::string hist;
  size_t runs = r.coin(0.3) ? 2 : 1; long live0 = tensor_stats().live;
  for (size_t run = 0; run < runs; ++run) {
    if (run) { site0 = 1 + r.below(N - 1); }      // a run leaves the centre on the second site
    // operators
    auto ch = X::OpCharges(s[site0]); QNT dq = r.coin(0.5) ? QNT() : r.pick(ch); bool ident = start == 1 || r.coin(0.2);
    Mat<T> A = ident ? Mat<T>::Id(s[site0].dim()) : X::RandOp(r, s[site0], dq, (int) r.below(3)); if (ident) dq = QNT();
    if (dq == QNT() && !ident && r.coin(0.5)) A = A + Mat<T>::Id(A.n) * T(1.5);
    bool ins0 = !ident && r.coin(0.4), ins1 = r.coin(0.4);
    auto diag = [&](const Index<QNT> &x) { if (r.coin(0.3)) { Mat<T> g = X::RandOp(r, x, QNT(), 0); double n = g.norm(); if (n > 0.1) return g * T(std::sqrt((double) g.n) / n); } Mat<T> d(x.dim()); bool sign = r.coin(0.6); auto q = x.Qns(); for (size_t i = 0; i < d.n; ++i) d(i, i) = sign ? T(r.coin() ? -1.0 : 1.0) : std::polar(0.5 + r.unit(), 3 * r.sym()); return d; };
    Mat<T> F0 = ins0 ? diag(s[0]) : Mat<T>(), F1 = ins1 ? diag(s[0]) : Mat<T>();
    // the measured operator leads back to the charge of the bra
    QNT want = bradiv - div - dq; Mat<T> O(0); 
    auto st0 = s[0];
    { auto c1 = X::OpCharges(st0); bool ok = false; for (auto &q : c1) ok = ok || q == want; if (!ok) { if (run) return; dq = QNT(); A = Mat<T>::Id(s[site0].dim()); want = QNT(); } }
    O = X::RandOp(r, st0, want, r.coin() ? 0 : 2); if (O.norm() < 1e-3) return;
    // exact evolution of the operated state
    auto emb = [&](const Mat<T> &op, const Mat<T> &f, size_t at) { std::vector<Mat<T>> o; std::vector<size_t> w; if (f.n) for (size_t j = 0; j < at; ++j) { o.push_back(f); w.push_back(j); } o.push_back(op); w.push_back(at); return X::Embed(s, o, w); };
    Vec<T> phi = emb(A, F0, site0) * psi; double n0 = phi.norm(); if (n0 < 1e-3 * psi.norm()) return; QNT div1 = div + dq;
    size_t steps = r.below(4) == 0 ? 0 : 1 + r.below(4); double x = r.coin() ? 0.02 + 0.1 * r.unit() : 0.5 * r.unit(); double tau = x / hn * (r.coin(0.2) ? -1 : 1); double e0 = r.coin(0.2) ? 0 : 3 * r.sym();
    bool lossless = r.coin(0.65); size_t Dmax = lossless ? 400 : 1 + r.below(8), Dmin = lossless ? 1 : 1 + r.below(Dmax); static const double cuts[] = {1e-9, 1e-5, 1e-3, 0.03}; double cut = lossless ? 0 : cuts[r.below(4)];
    static const double errs[] = {1e-13, 1e-11, 1e-8}; double err = errs[r.below(3)]; size_t its = 40 + r.below(60);
    bool exact = lossless, full = true;
    for (size_t b = 1; b < N; ++b) { bool l, rr; Complete<T, QNT>(s, phi * T(1 / n0), div1, b, l, rr, full); if ((b + 1 < N && !l) || (b > 1 && !rr)) exact = false; }
    bool eigen = lossless && start == 1 && run == 0; exact = exact || eigen;
    std::string ctx0 = "N " + std::to_string(N) + " start " + (start == 0 ? "random" : start == 1 ? "eigenstate" : "complete") + " centre " + std::to_string(center) + " norm " + str(nrm) + " site0 " + std::to_string(site0) + (ins0 ? " string0" : "") + (ins1 ? " string1" : "") + " charge " + qstr(dq) + " tau " + str(tau) + " x" + std::to_string(steps) + " e0 " + str(e0) + " D " + std::to_string(Dmin) + ".." + std::to_string(Dmax) + " cut " + str(cut) + " lanczos " + str(err) + "/" + std::to_string(its);
    hist += (run ? " | " : "") + ctx0; std::string ctx = hist + " sites " + p.desc; m.at("TDVP " + ctx);
    Ten tA = X::MatToOp(s[site0], A), tO = X::MatToOp(st0, O), t0, t1; if (ins0) t0 = X::MatToOp(s[0], F0); if (ins1) t1 = X::MatToOp(s[0], F1);
    MPSt w(p.sv); SweepLog log; std::vector<Report> rep; long live = tensor_stats().live; DynamicMeasuRes<T> res; bool normalized = false;
    { TdvpRun<QNT> o = runf(r, m, w, p, ctx, [&](auto *par) { using Par = std::remove_pointer_t<decltype(par)>; return Par(tau, steps, site0, tA, t0, tO, t1, e0, Dmin, Dmax, cut, LanczosParams(err, its), "mps", "init", "tmp", "mtmp"); });
      if (!o.ok) return; res = std::move(o.res); normalized = o.normalized; ctx += o.desc; hist += o.desc;
      { std::istringstream is(o.out); std::string l; size_t st = 0; Report q; while (std::getline(is, l)) if (ParseReport(l, st, q)) rep.push_back(q); }
      std::istringstream is(o.out); std::string l; while (std::getline(is, l)) if (l.find("TruncErr") != std::string::npos) { log.trunc.push_back(strtod(l.c_str() + l.find("TruncErr =") + 10, nullptr)); log.D.push_back(strtoul(l.c_str() + l.find(" D =") + 4, nullptr, 10)); } }
    m.check(tensor_stats().live == live, "tensors-left", [&] { return std::to_string(tensor_stats().live - live) + " " + ctx; });
    bool empty = true; for (size_t i = 0; i < N; ++i) empty = empty && w(i) == nullptr; m.check(empty, "memory-left", ctx);
    // states on disk
    MPSt a(p.sv), b(p.sv); std::string y;
    try { for (size_t i = 0; i < N; ++i) { a.LoadTen(i, GenMPSTenName("mps", i)); b.LoadTen(i, GenMPSTenName("init", i)); } } catch (const std::exception &e) { m.viol("state-unreadable", std::string(e.what()) + " " + ctx); return; }
    if (!m.check(X::BondsMatch(a, s, y), "bonds", [&] { return y + " " + ctx; })) return;
    if (!m.check(X::BondsMatch(b, s, y), "bonds-initial", [&] { return y + " " + ctx; })) return;
    Vec<T> v = X::Dense(a), u = X::Dense(b), kept = v; if (normalized) { m.check(v.norm() < 1 + 1e-6, "norm-above-one", [&] { return str(v.norm()) + " " + ctx; }); v = v * T(n0); }    // the parallel program keeps a normalized state
    if (!m.check(v.finite(), "not-finite", ctx)) return;
    m.check(dist(u, bra) < 1e-12 * (1 + bra.norm()), "initial-state", [&] { return str(dist(u, bra)) + " " + ctx; });
    std::map<std::string, std::string> now; Tree("init", now); if (run) m.check(now == initfiles, "initial-files-changed", ctx); initfiles = now;
    m.check(X::TotalDiv(a) == div1, "charge", ctx);
    { bool ok = true; for (size_t i = 0; i < v.n(); ++i) if (std::abs(v.a[i]) > 1e-12 * n0 && !(X::ConfQ(s, X::Unrank(s, i)) == div1)) ok = false; m.check(ok, "sector", ctx); }
    bool clean = true; for (double t : log.trunc) if (!(t < 1e-13)) clean = false;
    size_t perstep = (N - 2) + (N - 1) + 0; (void) perstep;
    m.check(log.trunc.size() == steps * (2 * N - 3), "updates", [&] { return std::to_string(log.trunc.size()) + " " + ctx; });
    // the reports: every step goes to the right and back, each pair followed by one site backwards in time, and ends on the first pair
    { std::string bad; std::vector<std::pair<size_t, bool>> want; for (size_t i = 0; i + 2 < N; ++i) { want.emplace_back(i, true); want.emplace_back(i + 1, false); } for (size_t i = N - 1; i > 1; --i) { want.emplace_back(i, true); want.emplace_back(i - 1, false); } want.emplace_back(0, true);
      if (rep.size() != want.size() * steps) bad = std::to_string(rep.size()) + " reports, expected " + std::to_string(want.size() * steps);
      for (size_t k = 0; k < rep.size() && bad.empty(); ++k) { auto &q = rep[k]; auto &e = want[k % want.size()]; bool pair = !std::isnan(q.D);
        if (q.sites.size() != 1 || q.sites[0] != e.first || pair != e.second || q.sweep != k / want.size()) bad = "report " + std::to_string(k) + " of site " + vmon::join(q.sites) + " in step " + std::to_string(q.sweep);
        else if (!(q.iter >= 0 && q.iter <= (double) its)) bad = "iterations " + str(q.iter);
        else if (pair && !(q.D >= 1 && q.D <= (double) Dmax && q.trunc > -1e-12 && std::isfinite(q.S))) bad = "values of report " + std::to_string(k); }
      if (bad.empty() && steps) { auto &q = rep.back(); double S = 0; for (double x : X::Schmidt(s, kept, 1)) { double z = x * x; if (z > 1e-300) S -= z * std::log(z); }
        if (q.D != (double) a[0].GetShape()[2]) bad = "bond dimension " + str(q.D) + " is " + std::to_string(a[0].GetShape()[2]);
        else if (!(std::abs(q.S - S) < 1e-6 * (1 + std::abs(S)) + 2e-7)) bad = "entropy " + str(q.S) + " is " + str(S);
        m.count("entropies"); }
      m.check(bad.empty(), "reports", [&] { return bad + " " + ctx; }); m.count("reports", (long) rep.size()); }
    double t = tau * (double) steps, tol = 1e-8 + 200.0 * (steps + 1) * N * err;
    if (clean) for (double x : log.trunc) tol += 2 * std::sqrt(2 * std::max(x, 0.0));      // a weight next to round-off still turns the state by its square root
    if (steps) m.check(X::CanonErr(a, 1) < 1e-8, "centre", ctx); else m.check(X::CanonErr(a, 0) < 1e-8, "centre-start", ctx);
    for (size_t k = 0; k + 1 < N && steps; ++k) { size_t D = a[k].GetShape()[2]; if (!(D <= Dmax)) { m.viol("bond-limit", std::to_string(D) + " at " + std::to_string(k) + " " + ctx); break; } }
    if (clean) { m.check(std::abs(v.norm() / n0 - 1) < tol, "norm", [&] { return str(v.norm()) + " from " + str(n0) + " " + ctx; }); m.count("norms_kept");
      double E0 = Rayleigh<T, QNT>(p.H, phi), E1 = Rayleigh<T, QNT>(p.H, v); m.check(std::abs(E1 - E0) < tol * (1 + hn), "energy", [&] { return str(E1) + " from " + str(E0) + " " + ctx; }); m.count("energies_kept"); }
    else { m.check(v.norm() < n0 * (1 + tol), "norm-grew", [&] { return str(v.norm()) + " from " + str(n0) + " " + ctx; }); m.count("truncated_runs"); }
    Vec<T> ex = expmv(p.H, cd(0, -t), phi);
    if (exact && clean) { double d = dist(v, ex) / n0; m.check(d < tol * 10, "evolution", [&] { return str(d) + " " + ctx; }); m.count(eigen ? "exact_eigenstates" : "exact_evolutions"); }
    else if (clean && lossless && full) { double d = dist(v, ex) / n0, z = std::abs(tau) * hn, b2 = 3 * steps * z * z * z + tol; m.check(d < b2, "evolution-step-error", [&] { return str(d) + " bound " + str(b2) + " " + ctx; }); m.count("step_error_evolutions"); }
    // correlations
    if (!m.check(res.size() == N * (steps + 1), "result-size", [&] { return std::to_string(res.size()) + " " + ctx; })) return;
    auto corr = [&](const Vec<T> &k, size_t i) { return bra.dot(emb(O, F1, i) * k); };
    double sc = bra.norm() * n0 * 5; for (size_t i = 0; i < N && ins1; ++i) sc *= 1.5;
    bool where = true, wt = true; for (size_t k = 0; k <= steps; ++k) for (size_t i = 0; i < N; ++i) { auto &e = res[k * N + i]; where = where && e.sites == std::vector<size_t>{site0, i}; wt = wt && e.times.size() == 2 && e.times[0] == 0 && std::abs(e.times[1] - tau * k) < 1e-12; }
    m.check(where, "sites-stated", ctx); m.check(wt, "times-stated", ctx);
    for (size_t k = 0; k <= steps; ++k) {
      Vec<T> ket; double tl = 1e-9; bool known = true;
      if (k == 0) ket = phi; else if (k == steps) ket = v; else if (exact && clean) { ket = expmv(p.H, cd(0, -tau * (double) k), phi); tl = tol * 10; } else known = false;
      if (!known) continue;
      double d = 0; for (size_t i = 0; i < N; ++i) d = std::max(d, std::abs(res[k * N + i].avg - corr(ket, i) * std::exp(cd(0, e0 * tau * (double) k))));
      std::string kn = k == 0 ? "equal-time" : k == steps ? "final" : "during"; m.check(d < tl * sc, "correlation@" + kn, [&] { return str(d) + " step " + std::to_string(k) + " " + ctx; }); m.count("correlations_" + kn, (long) N);
    }
    // the file says the same
    { std::string f = ReadAll("corr.json"); std::vector<double> num; int depth = 0; bool ok = true; for (size_t i = 0; i < f.size();) { char ch2 = f[i]; if (ch2 == '[') { ++depth; ++i; } else if (ch2 == ']') { --depth; ++i; } else if (isdigit(ch2) || ch2 == '-') { char *e; num.push_back(strtod(f.c_str() + i, &e)); i = e - f.c_str(); } else if (isspace(ch2) || ch2 == ',') ++i; else { ok = false; break; } }
      ok = ok && depth == 0 && num.size() == res.size() * 6;
      for (size_t k = 0; ok && k < res.size(); ++k) { double *q = &num[6 * k]; ok = q[0] == (double) res[k].sites[0] && q[1] == (double) res[k].sites[1] && q[2] == 0 && std::abs(q[3] - res[k].times[1]) < 1e-9 * (1 + std::abs(q[3])) && std::abs(cd(q[4], q[5]) - res[k].avg) < 1e-10 * (1 + std::abs(res[k].avg)); }
      m.check(ok, "result-file", [&] { return f.substr(0, 300) + " " + ctx; }); m.count("result_files"); }
    m.count("runs"); m.count("steps", (long) steps); if (run) m.count("continued"); m.distinct(vmon::hash_str(ctx + str(v.norm())));
    if (c % 53 == 0) m.sample(ctx + ": norm " + str(v.norm()) + " distance to exact " + str(dist(v, ex)));
    psi = kept; div = div1; center = 1; Wipe("tmp"); Wipe("mtmp"); if (steps == 0) break;
  }
  m.check(dist(before, X::DenseMpo(p.mpo)) == 0, "hamiltonian-changed"); m.check(tensor_stats().live == live0, "tensors-left@end");
  Wipe("mps"); Wipe("init"); Wipe("tmp"); Wipe("mtmp"); unlink("corr.json");
}
