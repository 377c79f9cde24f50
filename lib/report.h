// What the drivers print about every update, compared with the state as it is at that moment.
#ifndef VERIF_REPORT_H
#define VERIF_REPORT_H
#include "sweep.h"
#include <functional>

// hands over every complete line while the driver is still inside the update
struct LineBuf : std::streambuf {
  std::string all, cur; std::function<void(const std::string &)> on;
  void put(const char *s, std::streamsize n) { for (std::streamsize i = 0; i < n; ++i) { all += s[i]; if (s[i] == '\n') { std::string l; l.swap(cur); if (on) on(l); } else cur += s[i]; } }
  std::streamsize xsputn(const char *s, std::streamsize n) override { put(s, n); return n; }
  int_type overflow(int_type c) override { if (c != traits_type::eof()) { char k = (char) c; put(&k, 1); } return c; }
};
struct LineCapture { LineBuf buf; std::streambuf *old; std::ios::iostate st; std::ios::fmtflags fl; std::streamsize pr;
  LineCapture() : old(std::cout.rdbuf()), st(std::cout.rdstate()), fl(std::cout.flags()), pr(std::cout.precision()) { std::cout.rdbuf(&buf); std::cout.clear(); }
  ~LineCapture() { std::cout.rdbuf(old); std::cout.clear(); std::cout.setstate(st); std::cout.flags(fl); std::cout.precision(pr); } };

struct Report {
  size_t sweep = 0; std::vector<size_t> sites; double e0 = std::nan(""), noise = 0, trunc = std::nan(""), S = std::nan(""); double D = std::nan(""), iter = std::nan(""); bool two = false;
  static double num(const std::string &s, const char *k) { size_t p = s.find(k); if (p == std::string::npos) return std::nan(""); p = s.find('=', p); return p == std::string::npos ? std::nan("") : strtod(s.c_str() + p + 1, nullptr); }
};
// lines about updates; a line about a new sweep (step) sets the number that follows
inline bool ParseReport(const std::string &l, size_t &sweep, Report &o) {
  for (const char *w : {"sweep ", "step = "}) if (l.compare(0, strlen(w), w) == 0 && isdigit(l[strlen(w)])) { sweep = strtoul(l.c_str() + strlen(w), nullptr, 10); return false; }
  size_t a = l.find_first_not_of(' '); if (a == std::string::npos || l.compare(a, 4, "Site") != 0) return false;
  o = Report(); o.sweep = sweep; const char *q = l.c_str() + a + 4; while (*q == ' ' || *q == '(') { if (*q == '(') o.two = true; ++q; }
  for (;;) { char *e; o.sites.push_back(strtoul(q, &e, 10)); if (e == q) { o.sites.pop_back(); break; } q = e; if (*q != ',') break; ++q; while (*q == ' ') ++q; }
  auto num = Report::num; o.e0 = num(l, " E0 ="); if (l.find(" noise =") != std::string::npos) o.noise = num(l, " noise ="); o.trunc = num(l, " TruncErr ="); o.D = num(l, " D ="); o.iter = num(l, " Iter ="); o.S = num(l, " S =");
  return true;
}
// the bond between l and l+1 and the centre c after the update
struct Seen { bool ok = false; size_t l = 0, c = 0; double n2 = 0, E = 0, S = 0; size_t D = 0; double canon = 0; bool charge = false, sector = false; std::string why; };
template<typename T, typename QNT> Seen Look(SweepProblem<T, QNT> &p, FiniteMPS<T, QNT> *live, const std::string &dir, size_t l, size_t c, const QNT &div) {
  using X = TN<T, QNT>; using Ten = QLTensor<T, QNT>; Seen o; o.l = l; o.c = c; FiniteMPS<T, QNT> x(p.sv);
  for (size_t i = 0; i < p.N; ++i) {
    if (live && (*live)(i) != nullptr && !(*live)[i].IsDefault()) { delete x(i); x(i) = new Ten((*live)[i]); continue; }
    try { x.LoadTen(i, GenMPSTenName(dir, i)); } catch (const std::exception &e) { o.why = "site " + std::to_string(i) + ": " + e.what(); return o; }
  }
  if (!X::BondsMatch(x, p.s, o.why)) return o;
  auto v = X::Dense(x); double n = v.norm(); o.n2 = n * n; o.E = n > 0 ? Rayleigh<T, QNT>(p.H, v) : 0; o.D = x[l].GetShape()[2];
  for (double q : X::Schmidt(p.s, v, l + 1)) { double w = q * q; if (w > 1e-300) o.S -= w * std::log(w); }
  o.canon = X::CanonErr(x, c); o.charge = X::TotalDiv(x) == div;
  o.sector = true; for (size_t i = 0; i < v.n() && o.sector; ++i) if (std::abs(v.a[i]) > 1e-12 * (1 + n) && !(X::ConfQ(p.s, X::Unrank(p.s, i)) == div)) o.sector = false;
  o.ok = true; return o;
}
// one sweep: to the right over a..z-1, back from z to a+2 (two-site); a..N-2, N-1..1 (single-site)
inline std::string Order(int kind, const std::vector<Report> &v, size_t sweeps, size_t N, size_t a, size_t z) {
  std::vector<std::pair<size_t, size_t>> want;      // first printed site, sweep
  for (size_t s = 1; s <= sweeps; ++s) {
    if (kind == kOneSite) { for (size_t i = 0; i + 1 < N; ++i) want.emplace_back(i, s); for (size_t i = N - 1; i > 0; --i) want.emplace_back(i, s); continue; }
    for (size_t i = a; i + 1 < z; ++i) want.emplace_back(i, s);
    for (size_t i = z; i > a + 1; --i) want.emplace_back(kind == kMatrix ? i - 1 : i, s);
  }
  for (size_t k = 0; k < std::max(v.size(), want.size()); ++k) {
    if (k >= v.size()) return "only " + std::to_string(k) + " of " + std::to_string(want.size()) + " updates";
    if (k >= want.size()) return std::to_string(v.size()) + " updates, expected " + std::to_string(want.size());
    if (v[k].sites.empty() || v[k].sites[0] != want[k].first || v[k].sweep != want[k].second) return "update " + std::to_string(k) + " at " + vmon::join(v[k].sites) + " of sweep " + std::to_string(v[k].sweep) + ", expected " + std::to_string(want[k].first) + " of sweep " + std::to_string(want[k].second);
    if (kind == kMatrix && (v[k].sites.size() != 2 || v[k].sites[1] != v[k].sites[0] + 1)) return "pair " + vmon::join(v[k].sites);
  }
  return "";
}
// the last report of a finished run, against the state v (tensors x) left on disk; l: the first site of the last pair
template<typename T, typename QNT> void LastReport(Mon &m, const std::string &out, FiniteMPS<T, QNT> &x, const Vec<T> &v, SweepProblem<T, QNT> &p, const SweepSetup &s, bool leftwards, bool complete, bool unstated, const std::string &key, const std::string &ctx) {
  using X = TN<T, QNT>; std::istringstream is(out); std::string l; size_t sweep = 0; std::vector<Report> all; Report q, last; bool any = false, ok = true; std::string bad;
  while (std::getline(is, l)) if (ParseReport(l, sweep, q)) { any = true; last = q; all.push_back(q); if (q.sites.empty() || !(q.iter >= 0 && q.iter <= (double) s.iters) || !(q.D >= 1 && q.D <= (double) s.Dmax) || q.sweep < 1 || q.sweep > s.sweeps) { ok = false; bad = l; } }
  if (!any) return;
  m.check(ok, "report-values@" + key, [&] { return bad + " " + ctx; }); if (!ok) return;
  size_t b = last.two ? last.sites[0] : leftwards ? last.sites[0] - 1 : last.sites[0]; if (!m.check(b + 1 < p.N, "report-site@" + key, ctx)) return;
  m.check(last.D == (double) x[b].GetShape()[2], "report-bond@" + key, [&] { return str(last.D) + " is " + std::to_string(x[b].GetShape()[2]) + " " + ctx; });
  if (complete) { size_t z = 0; for (auto &x : all) z = std::max(z, x.sites.back()); std::string o = Order(s.kind, all, s.sweeps, p.N, all[0].sites[0], z); m.check(o.empty(), "report-order@" + key, [&] { return o + " " + ctx; }); m.count("orders"); }
  if (last.noise != 0 || last.iter > 6 || unstated) return;       // unstated: the noise is not printed
  double S = 0; for (double z : X::Schmidt(p.s, v, b + 1)) if (z * z > 1e-300) S -= z * z * std::log(z * z);
  m.check(std::abs(S - last.S) < 1e-6, "report-entropy@" + key, [&] { return str(last.S) + " is " + str(S) + " " + ctx; }); m.count("entropies_reported");
}
#endif
