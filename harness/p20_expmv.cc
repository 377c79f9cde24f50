// P20: the Lanczos exponential solver against the dense matrix exponential of the effective Hamiltonian.
#include "eff.h"
template<typename QNT> void Case(size_t c, Rng &r, Mon &m) {
  using T = cd; using P = EffProblem<T, QNT>; using Ten = typename P::Ten;
  size_t N = 2 + r.below(4); bool clean = r.coin(0.25); P p(r, N, nullptr, clean); if (p.N == 0) return;
  for (size_t rep = 0; rep < 6; ++rep) {
    size_t k = 1 + r.below(2); size_t at = r.below(N - k + 1); p.Envs(at, k);
    Ten st = p.State(k); auto sup = p.Support(st); Mat<T> h = p.Heff(k, sup); size_t d = sup.size(); if (d == 0) continue;
    double scale = 1e-3; for (auto &x : h.a) scale = std::max(scale, std::abs(x)); scale *= std::sqrt((double) d);
    Mat<T> V(h); auto w = eigh(V); double hn = std::max(std::abs(w[0]), std::abs(w[d - 1]));
    auto col = [&](size_t j) { Vec<T> v(d); for (size_t i = 0; i < d; ++i) v.a[i] = V(i, j); return v; };
    int style = clean && r.coin(0.8) ? (r.coin() ? 0 : 4) : (int) r.below(7); Vec<T> v(d); std::string sn;
    switch (style) {
      case 0: v = p.Pick(st, sup); sn = "state"; break;
      case 1: case 5: for (auto &x : v.a) x = rnds<T>(r); sn = "random"; break;
      case 2: v = col(r.below(d)) * std::polar(1.0, 3 * r.sym()); sn = "eigenvector"; break;
      case 3: { size_t n = std::min<size_t>(d, 2 + r.below(3)); for (size_t i = 0; i < n; ++i) v = v + col(r.below(d)) * T(0.3 + r.unit()); sn = "few-eigenvectors"; break; }
      case 6: { v = col(r.below(d)); Vec<T> w2(d); for (auto &x : w2.a) x = rnds<T>(r); v = v + w2 * T(std::pow(10.0, -2 - 12 * r.unit()) / w2.norm()); sn = "near-eigenvector"; break; }
      default: v.a[r.below(d)] = T(1); sn = "element";
    }
    if (v.norm() < 1e-3) continue;
    double nrm = r.coin(clean ? 0.9 : 0.6) ? 1.0 : std::pow(10.0, 3 * r.sym()); v = v * T(nrm / v.norm());
    static const double errs[] = {1e-14, 1e-12, 1e-9, 1e-7, 1e-3}; static const size_t its[] = {1, 2, 3, 5, 8, 30, 100, 200};
    LanczosParams par(errs[r.below(5)], its[r.below(8)]);
    double dt = r.coin(0.1) ? 0.0 : std::pow(10.0, -3 + 3.3 * r.unit()) * (r.coin() ? 1 : -1);
    std::string F = k == 1 ? "one-site" : "two-site";
    std::string ctx = F + " site " + std::to_string(at) + " of " + std::to_string(N) + " dim " + std::to_string(d) + " start " + sn + " norm " + str(nrm) + " step " + str(dt) + " err " + str(par.error) + " max " + std::to_string(par.max_iterations) + " " + p.desc;
    m.at("Expmv " + ctx);
    std::vector<Ten> before; auto e = p.Tensors(k); for (auto *t : e) before.push_back(*t);
    long live = tensor_stats().live; ExpmvRes<Ten> res;
    { auto *init = new Ten(st); p.Put(*init, sup, v); res = LanczosExpmvSolver(e, init, k == 1 ? &eff_ham_mul_single_site_state<T, QNT> : &eff_ham_mul_two_site_state<T, QNT>, dt, par); }
    m.count("solves"); if (clean) m.count("clean_solves"); m.count("steps", (long) res.iters);
    m.check(tensor_stats().live == live + 1, "tensors-left@" + F, [&] { return std::to_string(tensor_stats().live - live - 1) + " tensors left " + ctx; });
    bool same = true; for (size_t i = 0; i < e.size(); ++i) same = same && e[i]->Identical(before[i]); m.check(same, "input-modified@" + F, ctx);
    if (!m.check(res.expmv && res.expmv->GetIndexes() == st.GetIndexes(), "result-indices@" + F, ctx)) { delete res.expmv; continue; }
    Vec<T> g = p.Pick(*res.expmv, sup); double full = res.expmv->Get2Norm(); delete res.expmv;
    m.check(g.finite() && std::abs(full - g.norm()) < 1e-10 * (1 + nrm), "outside-sector@" + F, ctx);
    // long Krylov sequences lose orthogonality to round-off
    double slack = res.iters > 15 ? std::max(1e-3, par.error) : 1e-8;
    m.check(std::abs(full / nrm - 1) < slack, "norm@" + F, [&] { return str(full) + " from " + str(nrm) + " iters " + std::to_string(res.iters) + " " + ctx; });
    m.check(res.iters >= 1 && res.iters <= par.max_iterations, "iterations@" + F, [&] { return std::to_string(res.iters) + " " + ctx; });
    Vec<T> ex = expmv(h, cd(0, -dt), v);
    Krylov<T> K(h, v, std::min<size_t>(d, std::min<size_t>(par.max_iterations, 60)), scale);
    if (clean && K.exhausted && K.n() > 1 && res.iters == K.n() && res.iters < par.max_iterations) m.count("exact_zero_residuals");
    auto proj = [&](size_t n) { Vec<cd> q(d); auto co = K.Exp(n, cd(0, -dt)); for (size_t i = 0; i < co.n(); ++i) q = q + K.q[i] * co.a[i]; return q * T(nrm); };
    double err = dist(g, ex) / nrm;
    if (K.weakest > 1e-5 && res.iters <= 12) { double ke = dist(g, proj(res.iters)) / nrm; m.check(ke < 1e-7, "krylov-result@" + F, [&] { return "distance " + str(ke) + " iters " + std::to_string(res.iters) + " " + ctx; }); m.count("krylov_results"); }
    if (K.weakest > 1e-5 && res.iters < par.max_iterations && res.iters < K.n()) {
      double step = res.iters > 1 ? dist(proj(res.iters), proj(res.iters - 1)) / nrm : 1.0; m.check(step < par.error + 1e-9, "stopped-early@" + F, [&] { return "last change " + str(step) + " iters " + std::to_string(res.iters) + " " + ctx; }); m.count("early_stops"); }
    if (K.weakest > 1e-5 && par.error > 1e-8 && res.iters <= 12) for (size_t n = 3; n < res.iters && n <= K.n(); ++n) { double step = dist(proj(n), proj(n - 1)) / nrm;
      m.check(step > par.error - 2e-8, "stopped-late@" + F, [&] { return "vector " + std::to_string(n) + " changes the result by " + str(step) + " only, iters " + std::to_string(res.iters) + " " + ctx; }); m.count("continued"); }
    // exact result when the iteration was not cut short
    bool enough = par.max_iterations > d + 1 || (par.max_iterations >= 30 && std::abs(dt) * hn < 3);
    if (enough) { double tol = std::max(par.error * 20, 10 * slack); if (par.error > 1e-4 || tol > 0.05) tol = 0.05; m.check(err < tol, "evolved@" + F, [&] { return "distance " + str(err) + " iters " + std::to_string(res.iters) + " " + ctx; }); m.count("exact_results"); }
    if (K.exhausted) m.count("invariant_subspaces");
    m.count("start_" + sn); m.distinct(vmon::hash_str(ctx + str(full)));
    if (c % 101 == 0 && rep == 0) m.sample(ctx + ": distance " + str(err) + " iters " + std::to_string(res.iters));
  }
  // pieces: tridiagonal exponential and distance
  size_t n = 1 + r.below(12); std::vector<double> a(n + 2), b(n + 2); for (auto &x : a) x = 3 * r.sym(); for (auto &x : b) x = r.coin(0.8) ? 2 * r.sym() : 0.0;
  Mat<double> t(n); for (size_t i = 0; i < n; ++i) { t(i, i) = a[i]; if (i + 1 < n) t(i, i + 1) = t(i + 1, i) = b[i]; }
  double dt = 2 * r.sym(); std::vector<cd> out(n + 1, cd(7, 7)); auto a0 = a, b0 = b; m.at("TridiagExpme1Solver"); TridiagExpme1Solver(a, b, n, dt, out.data());
  Vec<cd> e1(n); e1.a[0] = 1; auto ex = expmv(t, cd(0, -dt), e1); Vec<cd> got(n); for (size_t i = 0; i < n; ++i) got.a[i] = out[i];
  m.check(dist(ex, got) < 1e-10 && out[n] == cd(7, 7) && a == a0 && b == b0, "tridiagonal-exponential", [&] { return str(dist(ex, got)); });
  std::vector<cd> x(n), y(n); double want = 0; for (size_t i = 0; i < n; ++i) { x[i] = rnds<cd>(r); y[i] = rnds<cd>(r); want += std::norm(x[i] - y[i]); }
  m.check(std::abs(Distance(x.data(), y.data(), n) - std::sqrt(want)) < 1e-12, "distance");
}
int main(int argc, char **argv) {
  QuietCout q;
  return vmon::run(argc, argv, "p20", [](size_t c, Rng &r, Mon &m) {
    switch (c % 3) {
      case 0: Case<special_qn::U1QN>(c, r, m); break;
      case 1: Case<special_qn::U1U1QN>(c, r, m); break;
      default: Case<special_qn::TrivialRepQN>(c, r, m);
    }
  });
}
