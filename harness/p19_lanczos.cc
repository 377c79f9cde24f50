// P19: the ground-state Lanczos solvers (one site, two sites, matrix form) against the dense effective Hamiltonian.
#include "eff.h"
template<typename T, typename QNT> void Case(size_t c, Rng &r, Mon &m) {
  using P = EffProblem<T, QNT>; using Ten = typename P::Ten;
  size_t N = 2 + r.below(4); bool clean = r.coin(0.25); P p(r, N, nullptr, clean); if (p.N == 0) return;
  for (size_t rep = 0; rep < 6; ++rep) {
    int form = (int) r.below(3); size_t k = form == 0 ? 1 : 2; size_t at = r.below(N - k + 1);
    p.Envs(at, k);
    Ten st = p.State(k); auto sup = p.Support(st); Mat<T> h = p.Heff(k, sup); size_t d = sup.size();
    if (d == 0) continue;
    double scale = 1e-3; for (auto &x : h.a) scale = std::max(scale, std::abs(x)); scale *= std::sqrt((double) d);
    Mat<T> V(h); auto w = eigh(V);
    auto col = [&](size_t j) { Vec<T> v(d); for (size_t i = 0; i < d; ++i) v.a[i] = V(i, j); return v; };
    // start vectors: the state itself, random, eigenvectors, few eigenvectors together, a single basis element
    int style = clean && r.coin(0.8) ? (r.coin() ? 0 : 4) : (int) r.below(7); Vec<T> v(d); std::string sn;
    switch (style) {
      case 0: v = p.Pick(st, sup); sn = "state"; break;
      case 1: case 5: for (auto &x : v.a) x = rnds<T>(r); sn = "random"; break;
      case 2: v = col(r.below(d)); sn = "eigenvector"; break;
      case 3: { size_t n = std::min<size_t>(d, 2 + r.below(3)); for (size_t i = 0; i < n; ++i) v = v + col(r.below(d)) * T(0.3 + r.unit()); sn = "few-eigenvectors"; break; }
      case 6: { v = col(r.below(d)); Vec<T> w2(d); for (auto &x : w2.a) x = rnds<T>(r); v = v + w2 * T(std::pow(10.0, -2 - 12 * r.unit()) / w2.norm()); sn = "near-eigenvector"; break; }   // as left by an earlier solve
      default: v.a[r.below(d)] = T(1); sn = "element";
    }
    if (v.norm() < 1e-3) continue;
    v = v * T(1.0 / v.norm()); double nrm = r.coin() ? 1.0 : std::pow(10.0, 3 * r.sym());
    double es = std::real(cd(v.dot(h * v)));
    static const double errs[] = {1e-14, 1e-12, 1e-9, 1e-7, 1e-3, 3e-2}; static const size_t its[] = {1, 2, 3, 5, 8, 30, 100, 200};
    LanczosParams par(errs[r.below(6)], its[r.below(8)]);
    std::string ctx = "form " + std::to_string(form) + " site " + std::to_string(at) + " of " + std::to_string(N) + " dim " + std::to_string(d) + " start " + sn + " err " + str(par.error) + " max " + std::to_string(par.max_iterations) + " " + p.desc;
    m.at("Lanczos " + ctx);
    std::string F = form == 0 ? "one-site" : form == 1 ? "two-site" : "matrix-form", key = F;
    // the product with the effective Hamiltonian
    { Ten probe(st); Vec<T> x(d); for (auto &e : x.a) e = rnds<T>(r); p.Put(probe, sup, x); Ten *y;
      if (form == 2) { auto terms = p.Terms(); y = super_block_hamiltonian_mul_two_site_state(terms, &probe);
        if (r.coin(0.3)) { std::vector<Ten> bs, sb; auto lo = p.LO.back(); auto ro = p.RO.back(); auto t2 = p.Terms(); combine_operators_in_super_blk_hamiltonian(t2, bs, sb); p.LO.back() = lo; p.RO.back() = ro;
          Ten *z = super_block_hamiltonian_mul_two_site_state(bs, sb, (const Ten *) &probe); m.check(z->GetIndexes() == y->GetIndexes() && dist(p.Pick(*z, sup), p.Pick(*y, sup)) < 1e-9 * scale * (1 + x.norm()), "combined-operators", ctx); delete z; m.count("combined"); } }
      else { auto e = p.Tensors(k); y = form == 0 ? eff_ham_mul_single_site_state(e, &probe) : eff_ham_mul_two_site_state(e, &probe); }
      bool ix = y->GetIndexes() == st.GetIndexes(); m.check(ix, "product-indices@" + F, ctx);
      if (ix) { Vec<T> g = p.Pick(*y, sup); double e = dist(g, h * x); m.check(e < 1e-9 * scale * (1 + x.norm()), "product@" + F, [&] { return "distance " + str(e) + " " + ctx; });
        double in = g.norm(), all = y->Get2Norm(); m.check(std::abs(in - all) < 1e-9 * (1 + all), "product-sector@" + F, ctx); }
      delete y; }
    std::vector<Ten> before; auto keep = [&](std::vector<Ten> &o) { o.clear(); if (form == 2) { o = p.LO.back(); o.insert(o.end(), p.RO.back().begin(), p.RO.back().end()); } else for (auto *t : p.Tensors(k)) o.push_back(*t); };
    keep(before);
    long live = tensor_stats().live;
    LanczosRes<Ten> res;
    {
      auto *init = new Ten(st); p.Put(*init, sup, v * T(nrm));
      if (form == 2) { auto terms = p.Terms(); res = LanczosSolver(terms, init, par); }
      else { auto e = p.Tensors(k); res = LanczosSolver(e, init, form == 0 ? &eff_ham_mul_single_site_state<T, QNT> : &eff_ham_mul_two_site_state<T, QNT>, par); }
    }
    m.count("solves"); if (clean) m.count("clean_solves"); m.count("steps", (long) res.iters);
    m.check(tensor_stats().live == live + 1, "tensors-left@" + F, [&] { return std::to_string(tensor_stats().live - live - 1) + " tensors left " + ctx; });
    { std::vector<Ten> after; keep(after); bool same = true; for (size_t i = 0; i < after.size(); ++i) same = same && after[i].Identical(before[i]); m.check(same, "input-modified@" + F, ctx); }
    bool ix = res.gs_vec && res.gs_vec->GetIndexes() == st.GetIndexes();
    if (!m.check(ix, "result-indices@" + F, ctx)) { delete res.gs_vec; continue; }
    Vec<T> g = p.Pick(*res.gs_vec, sup); double full = res.gs_vec->Get2Norm(); delete res.gs_vec;
    m.check(g.finite() && std::isfinite(res.gs_eng), "not-finite@" + F, ctx);
    m.check(std::abs(full - g.norm()) < 1e-10, "outside-sector@" + F, ctx);
    m.check(std::abs(full - 1) < (res.iters > 6 ? 1e-5 : 1e-8), "norm@" + F, [&] { return "norm " + str(full) + " iters " + std::to_string(res.iters) + " " + ctx; });
    double ee = std::real(cd(g.dot(h * g))), E = res.gs_eng, tol = 1e-8 * scale;
    m.check(std::abs(ee - E) < 10 * tol, "energy-of-vector@" + F, [&] { return str(E) + " reported, vector has " + str(ee) + " " + ctx; });
    m.check(E >= w[0] - tol, "below-lowest@" + F, [&] { return str(E) + " < " + str(w[0]) + " " + ctx; });
    m.check(E <= es + tol, "above-start@" + F, [&] { return str(E) + " > " + str(es) + " " + ctx; });
    m.check(res.iters >= 1 && res.iters <= par.max_iterations, "iterations@" + F, [&] { return std::to_string(res.iters) + " " + ctx; });
    // the best energy in the Krylov space it says it used
    size_t n = std::min<size_t>(d, std::min<size_t>(par.max_iterations, 60)); Krylov<T> K(h, v, n, scale);
    bool clear = K.weakest > 1e-5; if (clean && K.exhausted && K.n() > 1 && res.iters == K.n() && res.iters < par.max_iterations) m.count("exact_zero_residuals");
    if (clear) {
      double kl = K.Low(res.iters);
      // behind an exhausted space, round-off may open the way to still lower energies
      if (res.iters <= 12) { m.check(res.iters > K.n() ? E < kl + 1e-6 * scale : std::abs(E - kl) < 1e-6 * scale, "krylov-energy@" + F, [&] { return str(E) + " with " + std::to_string(res.iters) + " vectors, best is " + str(kl) + " " + ctx; }); m.count("krylov_energies"); }
      if (res.iters < par.max_iterations && res.iters < K.n()) {
        double drop = K.Low(res.iters - 1) - kl; m.check(drop < par.error + 1e-7 * scale && res.iters > 1, "stopped-early@" + F, [&] { return "iters " + std::to_string(res.iters) + " last drop " + str(drop) + " " + ctx; }); m.count("early_stops");
      }
      // ... and it ends with the first vector which lowers the energy by less than the error asked for
      for (size_t k = 2; k < res.iters && k <= K.n() && res.iters <= 12; ++k) { double drop = K.Low(k - 1) - K.Low(k);
        m.check(drop > par.error - 1e-6 * scale, "stopped-late@" + F, [&] { return "iters " + std::to_string(res.iters) + " but vector " + std::to_string(k) + " lowers the energy by " + str(drop) + " only " + ctx; }); if (par.error > 1e-5 * scale) m.count("continued"); }
      // the lowest energy reachable from the start vector
      if (par.error <= 1e-9 && par.max_iterations >= 30 && par.max_iterations > d + 2) {
        double reach = w[0]; bool ok = false; for (size_t j = 0; j < d && !ok; ++j) { double o = std::abs(col(j).dot(v)); if (o > 1e-2) { reach = w[j]; ok = true; } else if (o > 1e-9) break; }
        if (ok && sn == "random") { m.check(E < reach + 1e-5 * scale, "not-converged@" + F, [&] { return str(E) + " not " + str(reach) + " after " + std::to_string(res.iters) + " " + ctx; }); m.count("converged"); }
      }
    }
    if (K.exhausted) m.count("invariant_subspaces");
    if (d == 1) m.count("one_dimensional");
    m.count("start_" + sn);
    m.distinct(vmon::hash_str(ctx + str(E)));
    if (c % 101 == 0 && rep == 0) m.sample(ctx + ": " + str(E) + " exact " + str(w[0]) + " iters " + std::to_string(res.iters));
  }
  // the tridiagonal solver on its own
  size_t n = 1 + r.below(12); std::vector<double> a(n + 2), b(n + 2); for (auto &x : a) x = 3 * r.sym(); for (auto &x : b) x = r.coin(0.8) ? r.sym() : 0.0;
  Mat<double> t(n); for (size_t i = 0; i < n; ++i) { t(i, i) = a[i]; if (i + 1 < n) t(i, i + 1) = t(i + 1, i) = b[i]; } Mat<double> t0(t); auto w = eigh(t);
  double e = 1e300, *gv = nullptr; auto a0 = a, b0 = b; m.at("TridiagGsSolver"); TridiagGsSolver(a, b, n, e, gv, 'N'); m.check(gv == nullptr && std::abs(e - w[0]) < 1e-10, "tridiagonal-energy");
  e = 1e300; TridiagGsSolver(a, b, n, e, gv, 'V'); Vec<double> x(n); if (m.check(gv != nullptr, "tridiagonal-vector-missing")) { for (size_t i = 0; i < n; ++i) x.a[i] = gv[i]; delete[] gv; }
  m.check(std::abs(e - w[0]) < 1e-10 && std::abs(x.norm() - 1) < 1e-10 && dist(t0 * x, x * e) < 1e-9, "tridiagonal-vector"); m.check(a == a0 && b == b0, "tridiagonal-input");
}
int main(int argc, char **argv) {
  QuietCout q;
  return vmon::run(argc, argv, "p19", [](size_t c, Rng &r, Mon &m) {
    switch (c % 4) {
      case 0: Case<double, special_qn::U1QN>(c, r, m); break;
      case 1: Case<cd, special_qn::U1U1QN>(c, r, m); break;
      case 2: Case<double, special_qn::TrivialRepQN>(c, r, m); break;
      default: Case<cd, special_qn::U1QN>(c, r, m);
    }
  });
}
