// P22: the matrix-form DMRG against exact diagonalization, and its reaction to signals delivered at chosen points.
#include "report.h"
#include <sys/wait.h>
#include <signal.h>

// counts the pieces of output and raises a signal at one of them
struct SignalBuf : std::stringbuf {
  long n = 0, at = -1, at2 = -1; int sig = 0, sig2 = 0; size_t mark = std::string::npos;
  long first = -1, last = -1; size_t seen = 0;      // the events of the updates
  void look() { std::string t = str(); bool up = t.find("Site (", seen) != std::string::npos; if (up) { if (first < 0) first = n; last = n; } seen = t.size() < 5 ? 0 : t.size() - 5; }
  bool watch = false;
  void tick() { if (watch) look(); if (n == at) { mark = str().size(); raise(sig); } if (n == at2) raise(sig2); ++n; }
  std::streamsize xsputn(const char *s, std::streamsize k) override { auto r = std::stringbuf::xsputn(s, k); tick(); return r; }
  int_type overflow(int_type c) override { auto r = std::stringbuf::overflow(c); if (c == '\n') tick(); return r; }
  int sync() override { tick(); return 0; }
};
struct Ran { bool died = false; int status = 0; double e0 = 0; std::string out; long events = 0, first = -1, last = -1; size_t mark = std::string::npos; bool left = false; long live = 0; };
// in a process of its own: the stop requests of the driver outlive a run
template<typename T, typename QNT> Ran RunChild(SweepSetup s, SweepProblem<T, QNT> &p, long at, int sig, long at2, int sig2) {
  Ran r; unlink("child.res"); unlink("child.out");
  pid_t pid = fork();
  if (pid == 0) {
    SignalBuf buf; buf.at = at; buf.sig = sig; buf.at2 = at2; buf.sig2 = sig2; buf.watch = at < 0;
    if (at >= 0) { int d = open("/dev/null", O_WRONLY); if (d >= 0) dup2(d, 2); }      // the handler writes to stderr
    std::cout.rdbuf(&buf); std::cout.clear();
    long live = tensor_stats().live; double e0 = 0; bool left = false;
    try { FiniteMPS<T, QNT> w(p.sv); e0 = RunSweep(s, w, p); for (size_t i = 0; i < w.size(); ++i) left = left || w(i) != nullptr; }
    catch (const std::exception &e) { std::ofstream("child.out") << "exception " << e.what(); _exit(99); }
    std::ofstream("child.out") << buf.str();
    FILE *f = fopen("child.res", "w"); if (!f) _exit(98); fprintf(f, "%.17g %ld %zu %d %ld %ld %ld\n", e0, buf.n, buf.mark, (int) left, tensor_stats().live - live, buf.first, buf.last); fclose(f); _exit(0);
  }
  while (waitpid(pid, &r.status, 0) < 0 && errno == EINTR) {}
  r.out = ReadAll("child.out");
  if (!WIFEXITED(r.status) || WEXITSTATUS(r.status) != 0) { r.died = true; return r; }
  FILE *f = fopen("child.res", "r"); int l = 0; if (!f || fscanf(f, "%lf %ld %zu %d %ld %ld %ld", &r.e0, &r.events, &r.mark, &l, &r.live, &r.first, &r.last) != 7) r.died = true; r.left = l; if (f) fclose(f);
  return r;
}
static size_t Count(const std::string &s, const std::string &k, size_t to = std::string::npos) { size_t n = 0; for (size_t p = s.find(k); p != std::string::npos && p < to; p = s.find(k, p + 1)) ++n; return n; }

template<typename T, typename QNT> void Case(size_t c, Rng &r, Mon &m) {
  using P = SweepProblem<T, QNT>; using X = typename P::X; using Ten = typename P::Ten;
  size_t N = 3 + r.below(5); P p(r, N, 0.35); if (p.N == 0) return;
  Wipe("mps"); Wipe("tmp");
  double nrm = r.coin() ? 1.0 : std::pow(10.0, 2 * r.sym()); X::Scale(p.mps, 1.0);
  size_t center = r.below(2); p.mps.Centralize(0); p.mps.Centralize((int) center); p.mps[center] *= T(nrm);
  auto psi = X::Dense(p.mps); double prev = Rayleigh<T, QNT>(p.H, psi); p.mps.Dump("mps", true);
  double tolE0 = 1e-9 * (1 + p.hnorm); std::string hist; size_t runs = 1 + r.below(3), dmax = 0;
  Mat<T> before = X::DenseMatRepr(p.s, p.mr);
  for (size_t run = 0; run < runs; ++run) {
    int mode = (int) r.below(4); bool wide = mode > 1 && r.coin(0.6), lossless = !wide && r.coin(0.6); SweepSetup s = RandSetup(r, kMatrix, lossless, "mps", "tmp");
    bool exact = lossless && run == 0 && p.complete; if (exact) { s.err = 1e-14; s.iters = 200; if (s.sweeps < 2) s.sweeps = 2; }
    if (wide) { s.Dmax = 1 + r.below(3); s.Dmin = 1 + r.below(s.Dmax); }      // small bonds: nearly every pair is updated
    if (run && s.Dmax < dmax) Wipe("tmp");     // the boundaries move outwards
    dmax = s.Dmax;
    static const int sigs[] = {SIGUSR1, SIGUSR2, SIGINT, SIGTERM};
    int sig = 0, sig2 = 0; long at = -1, at2 = -1; size_t persweep = 0;
    if (mode > 0) {       // where the output events of this very run are: a rehearsal on copies
      if (mode > 1 && s.sweeps < 2) s.sweeps = 2 + r.below(2);
      std::map<std::string, std::string> a, b; Tree("mps", a); bool had = IsDir("tmp"); if (had) Tree("tmp", b);
      Ran t = RunChild(s, p, -1, 0, -1, 0);
      auto put = [](const std::string &d, std::map<std::string, std::string> &t) { Wipe(d); mkdir(d.c_str(), 0755); for (auto &f : t) std::ofstream(d + "/" + f.first, std::ios::binary) << f.second; };
      put("mps", a); if (had) put("tmp", b); else Wipe("tmp");
      if (t.died) { m.viol("run-died@rehearsal", t.out.substr(0, 200) + " " + s.str()); return; }
      persweep = Count(t.out, "Site (") / s.sweeps;
      sig = sigs[r.below(4)]; at = r.coin(0.35) ? t.events - 1 - (long) r.below(12) : (long) r.below(t.events);
      if (t.first >= 0 && t.last > t.first && r.coin()) at = t.first + (long) r.below(t.last - t.first);      // between the first update and the last
      if (at < 0) at = 0;
      if (r.coin(0.2)) { sig2 = sigs[r.below(4)]; at2 = at + (long) r.below(20); }
    }
    hist += (run ? " | " : "") + s.str() + (sig ? " signal " + std::to_string(sig) + " at " + std::to_string(at) + (sig2 ? " and " + std::to_string(sig2) + " at " + std::to_string(at2) : "") : "");
    std::string ctx = "N " + std::to_string(N) + (p.complete ? " complete " : " ") + hist + " sites " + p.desc;
    m.at("DMRG " + ctx);
    Ran g = RunChild(s, p, at, sig, at2, sig2);
    if (!m.check(!g.died, "run-died", [&] { return "status " + std::to_string(g.status) + " " + g.out.substr(0, 200) + " " + ctx; })) return;
    bool urgent = sig == SIGINT || sig == SIGTERM || ((sig2 == SIGINT || sig2 == SIGTERM) && at2 < g.events);
    std::string key = sig == 0 ? "plain" : urgent ? "urgent-stop" : "graceful-stop"; double e0 = g.e0;
    m.check(!g.left, "memory-left@" + key, ctx); m.check(g.live == 0, "tensors-left@" + key, [&] { return std::to_string(g.live) + " " + ctx; });
    FiniteMPS<T, QNT> w(p.sv); std::string why;
    { bool read = true; try { for (size_t i = 0; i < N; ++i) w.LoadTen(i, GenMPSTenName("mps", i)); } catch (const std::exception &e) { read = false; why = e.what(); }
      if (!m.check(read, "state-unreadable@" + key, [&] { return why + " " + ctx; })) return; }
    if (!m.check(X::BondsMatch(w, p.s, why), "bonds@" + key, [&] { return why + " " + ctx; })) return;
    auto v = X::Dense(w); auto log = ParseSweep(g.out); double last = log.trunc.empty() ? 0 : log.trunc.back(), n2 = v.norm() * v.norm();
    if (!m.check(!log.e0.empty(), "nothing-updated@" + key, ctx)) return;
    bool clean = true; for (double t : log.trunc) if (!(t < 1e-14)) clean = false;
    double tolE = tolE0; if (clean) for (double t : log.trunc) tolE += 2.1 * p.hnorm * std::sqrt(2 * std::max(t, 0.0));      // (a weight next to round-off still moves the energy by its square root)
    double loose = 1e-9; for (size_t k : log.iter) if (k > 6) loose = 1e-5;
    m.check(X::TotalDiv(w) == p.div, "charge@" + key, ctx);
    { std::set<size_t> in(p.sector.begin(), p.sector.end()); bool ok = true; for (size_t i = 0; i < v.n(); ++i) if (!in.count(i) && std::abs(v.a[i]) > 1e-12) ok = false; m.check(ok, "sector@" + key, ctx); }
    if (clean) m.check(std::abs(n2 - 1) < loose, "norm@" + key, [&] { return str(n2) + " " + ctx; });
    else m.check(n2 < 1 + loose && n2 > 1 - last * 1.02 - loose, "norm-truncated@" + key, [&] { return str(n2) + " reported " + str(last) + " " + ctx; });
    if (!urgent) for (size_t b = 0; b + 1 < N; ++b) { size_t D = w[b].GetShape()[2]; m.check(D <= s.Dmax, "bond-limit@" + key, [&] { return "bond " + std::to_string(b) + " of " + std::to_string(D) + " " + ctx; }); }
    double E = Rayleigh<T, QNT>(p.H, v);
    if (!m.check(std::isfinite(e0), "energy-not-finite@" + key, ctx)) return;
    m.check(e0 > p.spec[0] - tolE && e0 < p.spec.back() + tolE, "outside-spectrum@" + key, [&] { return str(e0) + " of [" + str(p.spec[0]) + "," + str(p.spec.back()) + "] " + ctx; });
    m.check(std::abs(log.e0.back() - e0) < 1e-6 * (1 + std::abs(e0)), "printed-energy@" + key, ctx);
    if (clean) {
      m.check(std::abs(e0 - E) < tolE * 3, "energy-of-state@" + key, [&] { return str(e0) + " state has " + str(E) + " " + ctx; }); m.count("energies_exact_state");
      m.check(e0 < prev + tolE, "above-start@" + key, [&] { return str(e0) + " start " + str(prev) + " " + ctx; });
      std::string w2; double q = prev; for (double x : log.e0) { if (x > q + tolE + 1e-8 * (1 + std::abs(q))) w2 = str(x) + " after " + str(q); q = x; }
      m.check(w2.empty(), "energy-rises@" + key, [&] { return w2 + " " + ctx; });
    } else { double b = 2.1 * p.hnorm * std::sqrt(2 * last) + tolE; m.check(std::abs(e0 - E) < b, "energy-of-state-truncated@" + key, [&] { return str(e0) + " state has " + str(E) + " bound " + str(b) + " " + ctx; }); m.count("energies_truncated"); }
    if (clean && exact && !urgent) { m.check(std::abs(e0 - p.spec[0]) < 1e-7 * (1 + p.hnorm), "ground-energy@" + key, [&] { return str(e0) + " exact " + str(p.spec[0]) + " " + ctx; }); m.count("exact_runs"); }
    LastReport(m, g.out, w, v, p, s, true, !sig, false, key, ctx);
    // when it stopped
    size_t begun = Count(g.out, "\nsweep "), done = Count(g.out, "Site ("), begunAt = Count(g.out, "\nsweep ", g.mark), doneAt = Count(g.out, "Site (", g.mark);
    size_t per = log.e0.size() / std::max<size_t>(begun, 1);
    if (!sig) m.check(begun == s.sweeps, "sweeps@" + key, [&] { return std::to_string(begun) + " " + ctx; });
    else if (!urgent) { size_t want = std::max<size_t>(1, begunAt); if (want < s.sweeps || begun < want) m.check(begun == want || (begun == want + 1 && doneAt == want * per), "sweeps@" + key, [&] { return std::to_string(begun) + " begun, " + std::to_string(begunAt) + " at the signal " + ctx; });
      m.check(done == begun * per && done % std::max<size_t>(begun, 1) == 0, "unfinished-sweep@" + key, [&] { return std::to_string(done) + " updates in " + std::to_string(begun) + " sweeps " + ctx; }); }
    else if (!sig2) { if (persweep > 2 && doneAt % persweep != 0 && doneAt % persweep + 1 < persweep) m.count(doneAt % persweep * 2 >= persweep ? "urgent_on_the_way_back" : "urgent_on_the_way_out"); m.check(done <= doneAt + 1, "updates-after@" + key, [&] { return std::to_string(done) + " updates, " + std::to_string(doneAt) + " at the signal " + ctx; }); }
    // the centre
    if (!urgent) m.check(X::CanonErr(w, 0) < 1e-8, "centre@" + key, ctx);
    else { bool any = false; for (size_t k = 0; k < N; ++k) any = any || X::CanonErr(w, k) < 1e-8; m.check(any, "no-centre@" + key, ctx); }
    m.count("runs_" + key); if (run) m.count("restarts"); m.count("updates", (long) log.e0.size()); if (!clean) m.count("truncated_runs"); if (sig && begun < s.sweeps) m.count("stopped_early");
    m.distinct(vmon::hash_str(ctx + str(E) + std::to_string(c)));
    prev = E;
    if (run + 1 < runs) {
      if (urgent) { FiniteMPS<T, QNT> z(p.sv); for (size_t i = 0; i < N; ++i) z.LoadTen(i, GenMPSTenName("mps", i)); z.Centralize(0); z.Dump("mps", true); Wipe("tmp"); hist += " (recentred)"; }
      else if (r.coin(0.4)) { Wipe("tmp"); hist += " (no environments)"; }
    }
  }
  m.check(dist(before, X::DenseMatRepr(p.s, p.mr)) == 0, "operator-changed");
  Wipe("mps"); Wipe("tmp"); unlink("child.res"); unlink("child.out");
}
int main(int argc, char **argv) {
  QuietCout q;
  return vmon::run(argc, argv, "p22", [](size_t c, Rng &r, Mon &m) {
    switch (c % 4) { case 0: Case<double, special_qn::U1QN>(c, r, m); break; case 1: Case<cd, special_qn::U1U1QN>(c, r, m); break;
      case 2: Case<double, special_qn::TrivialRepQN>(c, r, m); break; default: Case<cd, special_qn::U1QN>(c, r, m); } });
}
