// P26: the file system and the process around every driver: what is left, what is new, what was touched.
#include "sweep.h"
#include <regex>

// everything happens in a directory of this harness's own; nothing is wiped anywhere else
static void Scratch() {
  static std::string home; char b[4096];
  if (home.empty()) { if (mkdir("p26.work", 0755) && errno != EEXIST) { perror("p26.work"); _exit(3); } if (chdir("p26.work") || !getcwd(b, sizeof b)) _exit(3); home = b; }
  if (!getcwd(b, sizeof b) || home != b || home.size() < 10 || home.compare(home.size() - 9, 9, "/p26.work")) _exit(3);
  for (auto &n : ListDir(".")) { struct stat st; if (lstat(n.c_str(), &st) == 0 && S_ISDIR(st.st_mode)) Wipe(n); else unlink(n.c_str()); }
}
// the sanitizer's own watcher opens files for a moment now and then: only what stays open counts
static size_t Fds() { size_t n = ListDir("/proc/self/fd").size(); for (int i = 0; i < 2; ++i) { usleep(200); n = std::min(n, ListDir("/proc/self/fd").size()); } return n; }
static bool NoneLeftOpen(size_t before) { for (int i = 0; i < 50; ++i) { if (ListDir("/proc/self/fd").size() <= before) return true; usleep(4000); } return false; }
using Files = std::map<std::string, std::string>;
static Files Here() { Files m; Tree(".", m); return m; }
static void Decoy(Rng &r, const std::string &p, Files &keep, const std::string &rel) { std::string t = "kept " + std::to_string(r.next()); std::ofstream(p, std::ios::binary) << t; keep[rel] = t; }

template<typename T, typename QNT> void Case(size_t c, Rng &r, Mon &m) {
  using P = SweepProblem<T, QNT>; using X = typename P::X; using Ten = typename P::Ten; using MPSt = typename P::MPSt;
  Scratch();
  size_t N = 3 + r.below(5); std::vector<typename X::Idx> us(N, X::RandSite(r, N <= 4 ? 3 : 2)); P p(r, N, 0.0, r.coin(0.7) ? &us : nullptr); if (p.N == 0) return;
  X::Scale(p.mps, 1.0); bool defaults = r.coin(0.2); std::string md = defaults ? kMpsPath : "state" + std::to_string(r.below(100)), td = defaults ? kRuntimeTempPath : r.coin() ? "tmp" : md + "_env";
  if (!defaults && r.coin(0.3)) { mkdir("deep", 0755); md = "deep/" + md; td = "deep/" + td; }
  p.mps.Centralize(r.below(2)); p.mps.Dump(md, true); Files keep;
  Decoy(r, "notes.txt", keep, "notes.txt"); Decoy(r, "mps_ten0.qlten", keep, "mps_ten0.qlten"); Decoy(r, md + "/notes.txt", keep, md + "/notes.txt"); if (r.coin()) Decoy(r, md + "/mps_ten" + std::to_string(N) + ".qlten", keep, md + "/mps_ten" + std::to_string(N) + ".qlten");
  if (r.coin()) Decoy(r, md + "/lenv0.qlten", keep, md + "/lenv0.qlten");
  if (r.coin(0.3)) { mkdir("other", 0755); Decoy(r, "other/mps_ten1.qlten", keep, "other/mps_ten1.qlten"); }
  std::string ctx0 = "N " + std::to_string(N) + " state " + md + " temp " + td, hist; size_t runs = 1 + r.below(3); Mat<T> H0 = X::DenseMpo(p.mpo), H1 = X::DenseMatRepr(p.s, p.mr);
  static const std::regex envf("^[lr]" + kEnvFileBaseName + "([0-9]+)\\." + kQLTenFileSuffix + "$"), opf("^[lr]" + kOpFileBaseName + "([0-9]+)Comp[0-9]+\\." + kQLTenFileSuffix + "$");
  auto after = [&](const std::string &what, const Files &before, const std::set<std::string> &mayNew, size_t fds, const std::string &ctx) {
    Files now = Here();
    m.check(NoneLeftOpen(fds), "open-files@" + what, [&] { return std::to_string(Fds()) + " open, " + std::to_string(fds) + " before " + ctx; });
    for (auto &k : keep) { auto it = now.find(k.first); m.check(it != now.end() && it->second == k.second, "foreign-file@" + what, [&] { return k.first + (it == now.end() ? " removed " : " changed ") + ctx; }); }
    for (auto &f : now) { if (keep.count(f.first)) continue; bool dir = f.first.back() == '/'; std::string n = dir ? f.first.substr(0, f.first.size() - 1) : f.first;
      if (before.count(f.first)) { bool mine = n.compare(0, md.size() + 1, md + "/") == 0 || n.compare(0, td.size() + 1, td + "/") == 0; if (!dir && !mine && !mayNew.count(n)) m.check(before.at(f.first) == f.second, "changed-outside@" + what, [&] { return n + " " + ctx; }); continue; }
      bool ok = mayNew.count(n) || n == td || n.compare(0, td.size() + 1, td + "/") == 0; for (auto &d : mayNew) if (n.compare(0, d.size() + 1, d + "/") == 0) ok = true;
      if (n.compare(0, md.size() + 1, md + "/") == 0) ok = false;
      if (!dir || !ok) m.check(ok, "stray-file@" + what, [&] { return n + " " + ctx; }); }
    for (auto &f : before) if (!now.count(f.first)) { bool tmp = f.first.compare(0, td.size() + 1, td + "/") == 0; m.check(tmp, "removed@" + what, [&] { return f.first + " " + ctx; }); }
    size_t tens = 0; for (size_t i = 0; i < N; ++i) tens += now.count(md + "/" + kMpsTenBaseName + std::to_string(i) + "." + kQLTenFileSuffix); m.check(tens == N, "state-files@" + what, [&] { return std::to_string(tens) + " " + ctx; });
    m.count("file_checks", (long) now.size());
    return now;
  };
  auto temps = [&](const std::string &what, const Files &now, const std::string &ctx, bool matrix) {
    size_t l = 0, rr = 0; for (auto &f : now) { if (f.first.compare(0, td.size() + 1, td + "/") || f.first == td + "/" || keep.count(f.first)) continue; std::string n = f.first.substr(td.size() + 1); std::smatch mm; bool ok = std::regex_match(n, mm, envf) || std::regex_match(n, mm, opf); if (ok) ok = std::stoul(mm[1]) <= N; m.check(ok, "temp-name@" + what, [&] { return n + " " + ctx; }); if (!matrix) { (n[0] == 'l' ? l : rr)++; } }
    if (!matrix) m.check(l <= 2 && rr <= N, "temp-count@" + what, [&] { return std::to_string(l) + " left, " + std::to_string(rr) + " right " + ctx; });
  };
  size_t dmax = 0; int lastkind = -1;
  for (size_t run = 0; run < runs; ++run) {
    int kind = run && r.coin(0.6) ? lastkind : (int) r.below(4);
    if (run && kind != lastkind) {       // each method has its own centre and environments
      MPSt z(p.sv); for (size_t i = 0; i < N; ++i) z.LoadTen(i, GenMPSTenName(md, i)); z.Centralize(0); z.Dump(md, true); Wipe(td); keep.erase(td + "/own.log"); }
    else if (run && !keep.count(td + "/own.log") && r.coin()) Decoy(r, td + "/own.log", keep, td + "/own.log");
    SweepSetup s = RandSetup(r, kind, r.coin(0.3), md, td); if (run && kind == lastkind && (s.Dmax < dmax)) s.Dmax = dmax; if (kind == kNoisy && run && kind == lastkind) s.Dmax = dmax; dmax = s.Dmax; s.Dmin = std::min(s.Dmin, s.Dmax); lastkind = kind;
    if (kind == kOneSite && run == 0) { MPSt z(p.sv); for (size_t i = 0; i < N; ++i) z.LoadTen(i, GenMPSTenName(md, i)); z.Centralize(0); z.Dump(md, true); }
    if (run && kind == kNoisy && !s.noisy()) s.noises = {1e-3};
    hist += (run ? " | " : "") + s.str(); std::string ctx = ctx0 + " " + hist, what = SweepName(kind); m.at(what + " " + ctx);
    Files before = Here(); size_t fds = Fds();
    { MPSt w(p.sv); RunSweep(s, w, p); }
    Files now = after(what, before, {td}, fds, ctx); temps(what, now, ctx, kind == kMatrix); m.count("runs_" + what); if (run) m.count("repeats");
    MPSt a(p.sv); std::string why; for (size_t i = 0; i < N; ++i) a.LoadTen(i, GenMPSTenName(md, i)); if (!m.check(X::BondsMatch(a, p.s, why), "bonds@" + what, [&] { return why + " " + ctx; })) return;
  }
  m.check(dist(H0, X::DenseMpo(p.mpo)) == 0 && dist(H1, X::DenseMatRepr(p.s, p.mr)) == 0, "hamiltonian-changed", ctx0 + hist);
  // measurements from disk: the state directory is only read
  bool uni = true; for (auto &x : p.s) uni = uni && x == p.s[0];
  if (uni) {
    { MPSt z(p.sv); for (size_t i = 0; i < N; ++i) z.LoadTen(i, GenMPSTenName(md, i)); z.Centralize(0); z.Dump(md, true); }
    Files before = Here(); size_t fds = Fds(); int which = (int) r.below(5); MPSt w(p.sv); Ten o = X::MatToOp(p.s[0], X::RandHermOp(r, p.s[0])), id = X::MatToOp(p.s[0], Mat<T>::Id(p.s[0].dim())); std::string f = "res" + std::to_string(r.below(9)); std::string ctx = ctx0 + " measurement " + std::to_string(which); m.at(ctx);
    std::vector<std::vector<size_t>> sites; for (size_t b = 1; b < N; ++b) sites.push_back({0, b});
    std::set<std::string> out{f + ".json"};
    switch (which) {
      case 0: MeasureOneSiteOp(w, md, o, f); break;
      case 1: MeasureTwoSiteOpGroup(w, md, o, o, r.below(N - 1), id, f); break;
      case 2: { MPSt q(p.sv); q.Load(md); MeasureOneSiteOp(q, o, f); break; }
      case 3: { out.insert("second.json"); MeasureOneSiteOp(w, md, std::vector<Ten>{o, id}, std::vector<std::string>{f, "second"}); break; }
      default: { MPSt q(p.sv); q.Load(md); MeasureTwoSiteOp(q, std::vector<Ten>{o, o}, id, sites, f); break; }
    }
    for (size_t i = 0; i < N; ++i) w.dealloc(i);
    Files now = after("measurement", before, out, fds, ctx); bool same = true; for (auto &b : before) if (b.first.compare(0, md.size(), md) == 0) same = same && now.count(b.first) && now[b.first] == b.second; m.check(same, "state-written@measurement", ctx);
    for (auto &n : out) m.check(now.count(n), "no-result@measurement", [&] { return n + " " + ctx; }); m.count("measurements");
  }
  // operators: an exponential leaves its powers under the given prefix only
  if (N <= 4 && r.coin(0.3)) {
    Files before = Here(); size_t fds = Fds(); m.at("ExpFiniteMPO " + ctx0); std::string pre = "rho"; size_t order = 3 + r.below(4); double tau = 0.01 + 0.1 * r.unit() / (1 + p.hnorm);
    { auto res = ExpFiniteMPO(p.mpo, tau, order, 1e-13, 1e-16, 1, 4000, 4, 1e-13, pre, td); }
    std::set<std::string> ok; for (size_t n = 1; n < order; ++n) ok.insert(GenHnMpoPath(pre, n, tau));
    Files now = after("exponential", before, ok, fds, ctx0); for (auto &d : ok) if (now.count(d + "/")) { size_t k = 0; for (auto &f : now) if (f.first.compare(0, d.size() + 1, d + "/") == 0 && f.first != d + "/") ++k; m.check(k == N + 1, "power-files@exponential", [&] { return std::to_string(k) + " in " + d + " " + ctx0; }); } m.count("exponentials");
  }
  if constexpr (std::is_same_v<T, cd>) if (uni && r.coin(0.7)) {
    MPSt z(p.sv); for (size_t i = 0; i < N; ++i) z.LoadTen(i, GenMPSTenName(md, i)); z.Centralize(0); z.Dump(md, true); if (r.coin()) { Wipe(td); keep.erase(td + "/own.log"); }
    Ten o = X::MatToOp(p.s[0], X::RandHermOp(r, p.s[0])), none; size_t site0 = r.below(N); Files before = Here(); size_t fds = Fds(); std::string ctx = ctx0 + " evolution from site " + std::to_string(site0); m.at(ctx);
    std::string in = md + "_init", mt = "mtmp" + std::to_string(r.below(9)); size_t steps = r.below(4);
    { TDVPEvolveParams<QNT> par(0.05 / (1 + p.hnorm), steps, site0, o, none, o, none, 0.0, 1, 1 + r.below(8), 1e-10, LanczosParams(1e-10, 40), md, in, td, mt); MPSt w(p.sv); auto res = TwoSiteFiniteTDVP(w, p.mpo, par, std::string("corr")); }
    Files now = after("evolution", before, {in, td, mt, "corr.json"}, fds, ctx);
    m.check(now.count("corr.json"), "no-result@evolution", ctx); size_t k = 0; for (size_t i = 0; i < N; ++i) k += now.count(in + "/" + kMpsTenBaseName + std::to_string(i) + "." + kQLTenFileSuffix); m.check(k == N, "initial-state-files@evolution", [&] { return std::to_string(k) + " " + ctx; });
    for (auto &f : now) if (f.first.compare(0, mt.size() + 1, mt + "/") == 0 && f.first != mt + "/") ++k; m.check(k <= 3 * N, "temp-count@evolution-measurement", [&] { return std::to_string(k) + " " + ctx; });
    m.count("evolutions");
  }
  m.distinct(vmon::hash_str(ctx0 + hist)); if (c % 41 == 0) m.sample(ctx0 + " " + hist);
  Scratch();
}
int main(int argc, char **argv) {
  QuietCout q;
  return vmon::run(argc, argv, "p26", [](size_t c, Rng &r, Mon &m) {
    switch (c % 3) { case 0: Case<double, special_qn::U1QN>(c, r, m); break; case 1: Case<cd, special_qn::U1U1QN>(c, r, m); break; default: Case<cd, special_qn::TrivialRepQN>(c, r, m); } });
}
