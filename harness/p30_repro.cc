// P30: a run depends on its input alone.  Every case runs three times: in two processes whose fresh memory holds different
// bytes at different addresses, below directories of different names, and once more in one of those
// processes, after a run with another input.  The tensors
// and files written, the values returned and the numbers the sweeps report must be the same to the last bit.
#include "perturb.h"
#include "report.h"
#include "symb.h"
#include <sys/wait.h>

static std::string Self() { char b[4096]; ssize_t n = readlink("/proc/self/exe", b, sizeof b); return std::string(b, n > 0 ? n : 0); }
struct Rec {
  std::string s; size_t n = 0;
  template<typename V> void raw(const std::string &k, const V &v) { char b[64]; std::string h; const unsigned char *p = (const unsigned char *) &v; for (size_t i = 0; i < sizeof v; ++i) { snprintf(b, sizeof b, "%02x", p[i]); h += b; } s += k + " " + h + "\n"; ++n; }
  void put(const std::string &k, double v) { if (v == 0) v = 0; raw(k, v); }
  void put(const std::string &k, cd v) { put(k, v.real()); put(k + "'", v.imag()); }
  void put(const std::string &k, size_t v) { raw(k, v); }
  void put(const std::string &k, int v) { raw(k, v); }
  // the numbers the sweeps report (energies, weights, dimensions, iterations, entropies), not the times nor the words
  void log(const std::string &v) {
    std::istringstream is(v); std::string l;
    while (std::getline(is, l)) {
      if (l.compare(0, 4, "Site") || l.find(" = ") == std::string::npos) continue;
      std::istringstream ls(l); std::string a, b; std::vector<std::string> w; while (ls >> a) w.push_back(a);
      for (size_t i = 1; i + 1 < w.size(); ++i) if (w[i] == "=" && w[i - 1].back() != 'T') { s += "LOG " + w[i - 1] + " " + w[i + 1] + "\n"; ++n; } } }
  void text(const std::string &k, const std::string &v) { s += k + ":\n" + v + "\n"; ++n; }
  template<typename Ten> void ten(const std::string &k, const Ten &t) { for (size_t d : t.GetShape()) put(k, d); for (auto &x : t.Raw()) put(k, x); }
  template<typename R> void measu(const std::string &k, const R &r) { for (auto &e : r) { for (size_t i : e.sites) put(k, i); put(k, e.avg); } }
};
static const char *kNames[] = {"two-site", "noisy", "single-site", "matrix-form", "evolution", "hamiltonian", "measurements", "operators", "initial-state", "truncation", "symbolic"};
template<typename T, typename QNT> void Body(int kind, Rng &r, Rec &o) {
  using P = SweepProblem<T, QNT>; using X = typename P::X; using Ten = typename P::Ten; using Idx = typename X::Idx; using Sct = typename X::Sct; using M = Mat<T>;
  srand((unsigned) r.next());
  if (kind <= 3) {
    static const int ks[] = {kTwoSite, kNoisy, kOneSite, kMatrix}; int k = ks[kind]; size_t N = 3 + r.below(3);
    P p(r, N, 0.2); if (p.N == 0) return; X::Scale(p.mps, 1.0); p.mps.Centralize(0); p.mps.Dump("mps", true);
    size_t runs = 1 + r.below(2), dmax = 0;
    for (size_t run = 0; run < runs; ++run) {
      SweepSetup s = RandSetup(r, k, r.coin(), "mps", "tmp"); if (k == kNoisy && !s.noisy()) s.noises = {1e-3, 1e-4};
      if (run && s.Dmax < dmax) { FiniteMPS<T, QNT> w(p.sv); w.Load("mps"); w.Centralize(0); w.Dump("mps", true); Wipe("tmp"); }
      dmax = s.Dmax; FiniteMPS<T, QNT> w(p.sv); CoutCapture cap; double e = RunSweep(s, w, p); o.put("energy", e); o.log(cap.str()); o.put("centre", w.GetCenter());
    }
  } else if (kind == 4) {
    if constexpr (std::is_same<T, cd>::value) {
      size_t N = 3 + r.below(3); std::vector<Idx> us(N, X::RandSite(r, 2)); P p(r, N, 0.0, &us); if (p.N == 0) return; X::Scale(p.mps, 1.0); p.mps.Centralize(0); p.mps.Dump("mps", true);
      M A = X::RandOp(r, us[0], QNT(), 0), O = X::RandOp(r, us[0], QNT(), 0); if (A.norm() < 0.1 || O.norm() < 0.1) return; Ten none, a = X::MatToOp(us[0], A), b = X::MatToOp(us[0], O);
      size_t D = r.coin() ? 60 : 2 + r.below(3); FiniteMPS<T, QNT> w(p.sv); CoutCapture cap;
      TDVPEvolveParams<QNT> par(0.1 / (1 + p.hnorm), 1 + r.below(3), r.below(N), a, r.coin() ? a : none, b, r.coin() ? b : none, r.sym(), 1, D, r.coin() ? 0.0 : 1e-6, LanczosParams(1e-10, 1 + r.below(40)), "mps", "init", "tmp", "mtmp");
      auto res = TwoSiteFiniteTDVP(w, p.mpo, par, std::string("corr")); for (auto &e : res) { for (size_t i : e.sites) o.put("corr", i); for (double t : e.times) o.put("corr", t); o.put("corr", e.avg); } o.log(cap.str());
    }
  } else if (kind == 5) {
    auto s = X::RandSites(r, 2 + r.below(4), 4, 100); SiteVec<T, QNT> sv(s); MPOGenerator<T, QNT> g(sv); size_t n = 1 + r.below(8), got = 0; CoutCapture cap;
    for (size_t i = 0; i < n; ++i) { typename X::Term t; if (!X::RandTerm(r, s, 4, t)) continue; ++got; X::Add(g, s, t); } if (!got) return;
    bool comp = r.coin(); auto mpo = g.Gen(comp, r.coin()); for (size_t i = 0; i < mpo.size(); ++i) o.ten("mpo", mpo[i]);
    auto mr = g.GenMatReprMPO(r.coin()); for (size_t i = 0; i < mr.size(); ++i) { o.put("rows", mr[i].rows); o.put("cols", mr[i].cols); for (size_t a = 0; a < mr[i].rows; ++a) for (size_t b = 0; b < mr[i].cols; ++b) { const auto &e = mr[i](a, b); o.put("rank", e.Rank()); if (e.Rank()) o.ten("elem", e); } }
    o.log(cap.str());
  } else if (kind == 6 || kind == 9 || kind == 8) {
    size_t N = 4 + r.below(2); bool uni = kind == 6; std::vector<Idx> s = uni ? std::vector<Idx>(N, X::RandSite(r, 3)) : X::RandSites(r, N, 3, 100); N = s.size(); SiteVec<T, QNT> sv(s); FiniteMPS<T, QNT> mps(sv);
    if (kind == 8) {
      std::vector<std::vector<size_t>> set; auto conf = X::RandConf(r, s); QNT q = X::ConfQ(s, conf); auto sec = X::Sector(s, q); set.push_back(conf); for (size_t k = r.below(4); k-- > 0;) set.push_back(X::Unrank(s, r.pick(sec)));
      if (r.coin(0.3)) DirectStateInitMps(mps, conf); else ExtendDirectRandomInitMps(mps, set, 1 + r.below(4)); for (size_t i = 0; i < N; ++i) o.ten("mps", mps[i]); return; }
    X::RandMps(r, mps, s, 4, 3); X::Scale(mps, 1.0);
    if (kind == 9) { CoutCapture cap; TruncateMPS(mps, r.coin() ? 0.0 : 1e-3, 1, 1 + r.below(6)); o.log(cap.str()); auto ee = mps.GetEntanglementEntropy(1 + r.below(2)); for (double e : ee) o.put("entropy", e); mps.Dump("mps"); return; }
    if (N < 4) return; auto op = [&] { return X::MatToOp(s[0], X::RandOp(r, s[0], QNT(), (int) r.below(2))); }; CoutCapture cap;
    o.measu("one", MeasureOneSiteOp(mps, op(), std::string("a"))); o.measu("two", MeasureTwoSiteOp(mps, std::vector<Ten>{op(), op()}, op(), {{0, 2}, {1, N - 1}}, std::string("b")));
    mps.Centralize(0); mps.Dump("mps", true); Ten in = op(); o.measu("group", MeasureTwoSiteOpGroup(mps, std::string("mps"), op(), op(), r.below(2), {2, N - 1}, in));
    std::array<Ten, 4> q{op(), op(), op(), op()}; o.measu("four", MeasureFourSiteOpGroup(mps, std::string("mps"), q, {0, 1}, {{2, 3}}, in)); o.measu("disk-one", MeasureOneSiteOp(mps, std::string("mps"), op(), std::string("c"))); o.log(cap.str());
  } else if (kind == 7) {
    auto s = X::RandSites(r, 3 + r.below(2), 3, 40); SiteVec<T, QNT> sv(s); size_t N = s.size(); if (N < 3) return; CoutCapture cap;
    auto mk = [&] { MPOGenerator<T, QNT> g(sv); X::RandHam(r, s, 3, 3, g); return FiniteMPO<T, QNT>(g.Gen(true, false)); };
    FiniteMPO<T, QNT> a = mk(), b = mk(), c(N), d(N); MpoProduct(a, b, c); d = c; c.Truncate(r.coin() ? 1e-12 : 1e-3, 1, 1 + r.below(12)); c.Dump("trunc");
    d.Truncate(0, 1, 4); MpoProduct(a, b, d, 1, 20, 0.0, 3, 1e-10, "tmp", false); d.Dump("var"); a += b; a.Centralize((int) r.below(N)); o.put("norm", a.Normalize()); a.Dump("sum"); o.put("trace", b.Trace());
    auto e = ExpFiniteMPO(b, 0.01, 3, 1e-10, 1e-14, 1, 60, 3, 1e-8, std::string("exp"), std::string("tmp")); for (size_t i = 0; i < N; ++i) o.ten("exp", e.second[i]); o.put("lambda", e.first); o.log(cap.str());
  } else {
    CoutCapture cap; symb::Problem p = symb::gen_problem(r, r.below(8), false); FSM f = symb::make_fsm(p); for (auto &t : p.terms) f.AddPath(t.head, t.tail(), t.reprs());
    auto mats = r.coin() ? f.GenMatRepr() : f.GenCompressedMatRepr();
    for (auto &m : mats) { o.put("rows", m.rows); o.put("cols", m.cols); for (long e : m.indexes) o.put("index", (size_t) e); for (auto &x : m.data) { for (auto &l : x.GetOpLabelList()) o.put("op", (size_t) l); for (auto &cf : x.GetCoefReprList()) for (auto &l : cf.GetCoefLabelList()) o.put("coef", (size_t) l); } }
    o.log(cap.str());
  }
}
struct Ran { std::string tree; size_t facts = 0; };
static std::string Now(const Rec &o, size_t *files) { std::map<std::string, std::string> m; Tree(".", m); std::string t = o.s; for (auto &f : m) { t += "FILE " + f.first + " " + std::to_string(f.second.size()) + "\n" + f.second + "\n"; } *files = m.size(); return t; }
static const struct { const char *name; size_t pad; } kRooms[] = {{"a", 0}, {"b-longer-name/and.deeper", 9}};
static void Dispatch(int kind, int qn, Rng &r, Rec &o) {
  switch (qn) { case 0: kind == 4 ? Body<cd, special_qn::U1QN>(kind, r, o) : Body<double, special_qn::U1QN>(kind, r, o); break; case 1: Body<cd, special_qn::U1U1QN>(kind, r, o); break;
    case 2: Body<cd, special_qn::TrivialRepQN>(kind, r, o); break; default: kind == 4 ? Body<cd, special_qn::TrivialRepQN>(kind, r, o) : Body<double, special_qn::TrivialRepQN>(kind, r, o); } }
// one process: --body room kind qn seed byte shift
static int Process(char **v) {
  int k = atoi(v[2]), kind = atoi(v[3]), qn = atoi(v[4]), byte = atoi(v[6]); uint64_t seed = strtoull(v[5], 0, 10);
  perturb::start(byte, kRooms[k].pad, strtoull(v[7], 0, 10)); std::string room = kRooms[k].name; mkdir("b-longer-name", 0755); char home[4096]; if (!getcwd(home, sizeof home)) return 90;
  for (int again = 0; again <= k; ++again) {
    if (mkdir(room.c_str(), 0755) || chdir(room.c_str())) return 91;
    Rec o; Rng rr(seed); std::cout.copyfmt(std::ios(nullptr)); try { Dispatch(kind, qn, rr, o); } catch (const std::exception &e) { o.text("exception", e.what()); }
    size_t nf = 0; std::string t = Now(o, &nf); if (chdir(home)) return 92;
    std::ofstream f("out/" + std::to_string(k + again)); f << o.n << " " << nf << "\n" << t; f.close(); 
    if (!again && k) {      // what the process computes in between: another input of the same kind
      if (mkdir("b-longer-name/between", 0755) || chdir("b-longer-name/between")) return 94;
      Rec w; Rng other(seed ^ 0x5bd1e995u); std::cout.copyfmt(std::ios(nullptr)); try { Dispatch(kind, qn, other, w); } catch (const std::exception &e) {}
      if (chdir(home)) return 95; perturb::stack(byte ^ 0x11, 1 << 18); }
    room += "x"; }
  return 0; }
static void Case(int kind, int qn, Rng &r, Mon &m) {
  uint64_t seed = r.next(), shift = r.next(); int b0 = (int) r.below(256), b1 = (b0 + 1 + (int) r.below(255)) & 255; if (r.coin(0.5)) { b0 = 0; static const int odd[] = {0xff, 0xc3, 0x7f, 0x3f, 0x55, 1}; b1 = odd[r.below(6)]; }
  Wipe("a"); Wipe("b-longer-name"); Wipe("out"); mkdir("out", 0755); std::string name = kNames[kind]; m.at(name); std::string ctx = name + " seed " + std::to_string(seed) + " bytes " + std::to_string(b0) + " " + std::to_string(b1);
  std::vector<std::string> got; std::string bad; size_t files = 0, facts = 0;
  for (int k = 0; k < 2; ++k) {
    pid_t pid = fork();
    if (pid == 0) {
      std::string self = Self(); if (k && access((self + ".twin").c_str(), X_OK) == 0) self += ".twin";
      std::string a[] = {self, "--body", std::to_string(k), std::to_string(kind), std::to_string(qn), std::to_string(seed), std::to_string(k ? b1 : b0), std::to_string(shift)};
      char *av[9] = {}; for (int i = 0; i < 8; ++i) av[i] = (char *) a[i].c_str(); execv(self.c_str(), av); _exit(93);
    }
    int st = 0; while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {} if (st) { bad = "run " + std::to_string(k) + " ended with status " + std::to_string(st); break; }
  }
  if (!m.check(bad.empty(), "run-died@" + name, [&] { return bad + " " + ctx; })) return;
  for (int k = 0; k < 3; ++k) { std::string s = ReadAll("out/" + std::to_string(k)); size_t e = s.find('\n'); if (k == 0) { facts = (size_t) atol(s.c_str()); files = (size_t) atol(s.c_str() + s.find(' ')); } got.push_back(s.substr(e + 1)); }
  auto where = [&](const std::string &a, const std::string &b) { size_t i = 0, n = std::min(a.size(), b.size()); while (i < n && a[i] == b[i]) ++i; size_t l = a.rfind('\n', i), f = a.rfind("FILE ", i); l = l == std::string::npos ? 0 : l + 1; std::string w; if (f != std::string::npos && (f == 0 || a[f - 1] == '\n')) w = a.substr(f, a.find('\n', f) - f) + ": ";
    auto clip = [&](const std::string &x) { std::string y = x.substr(l, std::min<size_t>(160, x.size() - l)); for (char &ch : y) if ((unsigned char) ch < 32 || (unsigned char) ch > 126) ch = '.'; return y; }; return w + "'" + clip(a) + "' against '" + clip(b) + "'"; };
  m.check(got[0] == got[1], "depends-on-memory@" + name, [&] { return where(got[0], got[1]) + " " + ctx; });
  m.check(got[1] == got[2], "depends-on-history@" + name, [&] { return where(got[1], got[2]) + " " + ctx; });
  m.check(got[0].find("exception:") == std::string::npos, "exception@" + name, [&] { return got[0].substr(got[0].find("exception:"), 300) + ctx; });
  if (access((Self() + ".twin").c_str(), X_OK) == 0) m.count("runs_with_other_stack");
  if (facts + files) { m.count("runs_" + name); m.count("values_compared", (long) facts); m.count("files_compared", (long) files); m.count("bytes_compared", (long) got[0].size()); m.distinct(vmon::hash_str(got[0])); } else m.count("empty_cases");
}
int main(int argc, char **argv) {
  setenv("MKL_CBWR", "COMPATIBLE", 1);
  QuietCout q;
  if (argc == 8 && std::string(argv[1]) == "--body") return Process(argv);
  return vmon::run(argc, argv, "p30", [](size_t c, Rng &r, Mon &m) { Case((int) (c % 11), (int) ((c / 11) % 4), r, m); });
}
