// P12: parameter objects carry exactly what was asked for, through every way of building, copying and converting them.
#include "tn.h"
#include "qlmps/algorithm/tdvp/tdvp_evolve_params.h"
#include <list>
#include <memory>
#include <cstring>
using Q1 = special_qn::U1QN; using CTen = QLTensor<QLTEN_Complex, Q1>;
static bool Bits(double a, double b) { return std::memcmp(&a, &b, sizeof a) == 0; }
static double RandD(Rng &r) { switch (r.below(9)) { case 0: return 0.0; case 1: return -0.0; case 2: return 1e-7; case 3: return 5e-324; case 4: return std::numeric_limits<double>::max(); case 5: return -std::numeric_limits<double>::infinity(); case 6: return std::numeric_limits<double>::quiet_NaN(); case 7: return (double) r.range(-5, 5); default: return (r.unit() - 0.5) * std::pow(10.0, r.range(-20, 20)); } }
static size_t RandS(Rng &r) { switch (r.below(5)) { case 0: return 0; case 1: return 1; case 2: return std::numeric_limits<size_t>::max(); case 3: return (size_t) 1 << r.below(64); default: return r.below(1000); } }
static std::string RandStr(Rng &r) { std::string s; size_t n = r.coin(0.1) ? 0 : r.coin(0.1) ? 200 + r.below(2000) : 1 + r.below(30); for (size_t i = 0; i < n; ++i) s += (char) (r.coin(0.05) ? 0 : 32 + r.below(224)); return s; }
struct WantL { double e; size_t m; };
static bool Eq(const LanczosParams &p, const WantL &w) { return Bits(p.error, w.e) && p.max_iterations == w.m; }
struct WantS { size_t sweeps, dmin, dmax; double te; WantL l; std::string mps, temp; bool nv; std::vector<double> n; double mx, inc, dec, al; };
static std::string Diff(const FiniteVMPSSweepParams &p, const WantS &w) {
  std::string d; auto f = [&](bool ok, const char *n) { if (!ok) d += std::string(n) + " "; };
  f(p.sweeps == w.sweeps, "sweeps"); f(p.Dmin == w.dmin, "Dmin"); f(p.Dmax == w.dmax, "Dmax"); f(Bits(p.trunc_err, w.te), "trunc_err"); f(Eq(p.lancz_params, w.l), "lancz_params"); f(p.mps_path == w.mps, "mps_path"); f(p.temp_path == w.temp, "temp_path");
  f(p.noise_valid == w.nv, "noise_valid"); f(p.noises.size() == w.n.size() && std::equal(p.noises.begin(), p.noises.end(), w.n.begin(), Bits), "noises"); f(Bits(p.max_noise, w.mx), "max_noise"); f(Bits(p.noise_increase, w.inc), "noise_increase"); f(Bits(p.noise_decrease, w.dec), "noise_decrease"); f(Bits(p.alpha, w.al), "alpha"); return d; }
template<typename P, typename W, typename F> void Spread(const P &p, const W &w, Rng &r, Mon &m, F diff, const std::string &k) { // copies, assignments, containers, lifetimes
  auto ck = [&](const P &x, const char *how) { std::string d = diff(x, w); m.check(d.empty(), k + "-" + how, [&] { return d; }); };
  ck(p, "built"); std::vector<P> v; for (size_t i = 0, n = 1 + r.below(5); i < n; ++i) v.push_back(p); for (auto &x : v) ck(x, "vector");
  auto up = std::make_unique<P>(p); P c(*up); up.reset(); ck(c, "copy-outlives-source"); P mv(std::move(c)); ck(mv, "moved"); std::list<P> l(3, mv); ck(l.back(), "list"); [](P a, const P &, auto &f) { f(a, "by-value"); }(mv, mv, ck); P self(p); const P &alias = self; self = alias; ck(self, "self-assigned"); ck(p, "source-unchanged"); }
int main(int argc, char **argv) {
  QuietCout q;
  return vmon::run(argc, argv, "p12", [](size_t c, Rng &r, Mon &m) {
    { // Lanczos
      WantL w{RandD(r), RandS(r)}; int how = (int) r.below(3); LanczosParams p = how == 0 ? LanczosParams(w.e, w.m) : how == 1 ? LanczosParams(w.e) : LanczosParams(); if (how) w.m = 200; if (how == 2) w.e = 1.0E-7;
      auto d = [](const LanczosParams &p, const WantL &w) { return Eq(p, w) ? std::string() : "error " + std::to_string(p.error) + " max_iterations " + std::to_string(p.max_iterations) + " wanted " + std::to_string(w.e) + " " + std::to_string(w.m); };
      Spread(p, w, r, m, d, "lanczos"); LanczosParams a(1.5, 7); a = p; m.check(Eq(a, w), "lanczos-assigned"); a.error = 2.5; a.max_iterations = 9; m.check(Eq(p, w), "lanczos-not-independent"); LanczosParams b(a); m.check(Eq(b, {2.5, 9}), "lanczos-edited-copy"); LanczosParams arr[4] = {p, a, LanczosParams(), LanczosParams(w.e)}; m.check(Eq(arr[0], w) && Eq(arr[1], {2.5, 9}) && Eq(arr[2], {1.0E-7, 200}) && Eq(arr[3], {w.e, 200}), "lanczos-array");
      LanczosParams im = w.e; m.check(Eq(im, {w.e, 200}), "lanczos-implicit"); m.count("lanczos"); }
    WantL l{RandD(r), RandS(r)}; LanczosParams lp(l.e, l.m);
    { // sweeps
      WantS w{RandS(r), RandS(r), RandS(r), RandD(r), l, RandStr(r), RandStr(r), false, {}, 0, 0, 0, 0}; size_t nd = r.below(3); if (nd > 0) w.temp = ".temp"; if (nd > 1) w.mps = "mps";
      if (r.coin(0.4)) { m.count("plain_sweeps"); FiniteVMPSSweepParams p = nd == 0 ? FiniteVMPSSweepParams(w.sweeps, w.dmin, w.dmax, w.te, lp, w.mps, w.temp) : nd == 1 ? FiniteVMPSSweepParams(w.sweeps, w.dmin, w.dmax, w.te, lp, w.mps) : FiniteVMPSSweepParams(w.sweeps, w.dmin, w.dmax, w.te, lp); Spread(p, w, r, m, Diff, "sweep"); }
      else { size_t n = r.below(7); int kind = (int) r.below(4); for (size_t i = 0; i < n; ++i) { double x = kind == 0 ? (r.coin() ? 0.0 : -0.0) : RandD(r); if (x != x) x = 0.0; if (kind == 1) x = i + 1 == n ? 5e-324 : 0.0; if (kind == 2) x = i == 0 ? -1e-3 : 0.0; w.n.push_back(x); if (x != 0.0) w.nv = true; }
        m.count(w.nv ? "noisy_sweeps" : n ? "zero_noise_sweeps" : "empty_noise_sweeps"); w.mx = RandD(r); w.inc = RandD(r); w.dec = RandD(r); w.al = RandD(r); size_t k = r.below(7); w.mps = k > 4 ? w.mps : "mps"; w.temp = k > 5 ? RandStr(r) : ".temp"; if (k < 1) w.mx = 1.0; if (k < 2) w.inc = 1.02; if (k < 3) w.dec = 0.95; if (k < 4) w.al = 0.3;
        auto mk = [&](auto... e) { return FiniteVMPSSweepParams(w.sweeps, w.dmin, w.dmax, w.te, lp, w.n, e...); };
        FiniteVMPSSweepParams p = k == 0 ? mk() : k == 1 ? mk(w.mx) : k == 2 ? mk(w.mx, w.inc) : k == 3 ? mk(w.mx, w.inc, w.dec) : k == 4 ? mk(w.mx, w.inc, w.dec, w.al) : k == 5 ? mk(w.mx, w.inc, w.dec, w.al, w.mps) : mk(w.mx, w.inc, w.dec, w.al, w.mps, w.temp);
        Spread(p, w, r, m, Diff, "noisy-sweep"); FiniteVMPSSweepParams o(1, 2, 3, 4.0, LanczosParams(5.0, 6), "x", "y"); o = p; m.check(Diff(o, w).empty(), "sweep-assigned", [&] { return Diff(o, w); }); o.noises.push_back(3.0); o.mps_path += "z"; m.check(Diff(p, w).empty(), "sweep-not-independent"); }
    }
    { // time evolution
      using P = TDVPEvolveParams<Q1>; Index<Q1> s({QNSector<Q1>(Q1(0), 1), QNSector<Q1>(Q1(1), 1)}, TenIndexDirType::OUT);
      auto op = [&](int k) { CTen t({InverseIndex(s), s}); for (size_t i = 0; i < 2; ++i) for (size_t j = 0; j < 2; ++j) if ((int) i - (int) j == k) t({i, j}) = cd(1 + r.unit(), r.unit()); return t; };
      CTen o0 = op((int) r.below(3) - 1), i0 = op(0), o1 = op((int) r.below(3) - 1), i1 = op(0); double tau = RandD(r), e0 = RandD(r), te = RandD(r); size_t step = RandS(r), s0 = RandS(r), dmin = RandS(r), dmax = RandS(r), k = r.below(5); std::string a = k > 0 ? RandStr(r) : "mps", b = k > 1 ? RandStr(r) : "initial_mps", cc = k > 2 ? RandStr(r) : ".temp", d = k > 3 ? RandStr(r) : ".measure_temp";
      auto mk = [&](auto... e) { return P(tau, step, s0, o0, i0, o1, i1, e0, dmin, dmax, te, lp, e...); };
      P p = k == 0 ? mk() : k == 1 ? mk(a) : k == 2 ? mk(a, b) : k == 3 ? mk(a, b, cc) : mk(a, b, cc, d);
      auto diff = [&](const P &p, int) { std::string x; auto f = [&](bool ok, const char *n) { if (!ok) x += std::string(n) + " "; };
        f(Bits(p.tau, tau), "tau"); f(p.step == step, "step"); f(p.site_0 == s0, "site_0"); f(p.local_op_corr, "local_op_corr"); f(p.local_op0.Identical(o0), "local_op0"); f(p.inst0.Identical(i0), "inst0"); f(p.local_op1.Identical(o1), "local_op1"); f(p.inst1.Identical(i1), "inst1"); f(Bits(p.e0, e0), "e0"); f(p.Dmin == dmin, "Dmin"); f(p.Dmax == dmax, "Dmax"); f(Bits(p.trunc_err, te), "trunc_err"); f(Eq(p.lancz_params, l), "lancz_params"); f(p.mps_path == a, "mps_path"); f(p.initial_mps_path == b, "initial_mps_path"); f(p.temp_path == cc, "temp_path"); f(p.measure_temp_path == d, "measure_temp_path"); return x; };
      Spread(p, 0, r, m, diff, "tdvp"); P dflt; m.check(dflt.local_op_corr, "tdvp-default"); dflt = p; m.check(diff(dflt, 0).empty(), "tdvp-assigned", [&] { return diff(dflt, 0); });
      WantS w{step, dmin, dmax, te, l, a, cc, false, {}, 0, 0, 0, 0}; const P &cp = p; FiniteVMPSSweepParams sp = cp; m.check(Diff(sp, w).empty(), "tdvp-conversion", [&] { return Diff(sp, w); }); sp.mps_path = "q"; m.check(diff(p, 0).empty(), "tdvp-not-independent"); m.count("tdvp"); }
    m.distinct(vmon::hash_str(std::to_string(l.e) + "," + std::to_string(l.m) + "," + std::to_string(c))); if (c % 997 == 0) m.sample("lanczos(" + std::to_string(l.e) + "," + std::to_string(l.m) + ")");
  });
}
