// P17: every measurement equals the expectation value of the dense state, in memory, from disk and in the result file.
#include "tn.h"
#include "qlmps/one_dim_tn/mps/finite_mps/finite_mps_measu_memory.h"
#include "qlmps/one_dim_tn/mps/finite_mps/finite_mps_measu_disk.h"
#include <set>
struct J { bool num = false; double v = 0; std::vector<J> a; };     // nested lists of numbers, the only JSON the library writes here
static bool Parse(const std::string &s, size_t &i, J &j) {
  auto ws = [&] { while (i < s.size() && isspace((unsigned char) s[i])) ++i; }; ws(); if (i >= s.size()) return false;
  if (s[i] != '[') { size_t e = i; while (e < s.size() && (isdigit((unsigned char) s[e]) || strchr("+-.eE", s[e]))) ++e; if (e == i) return false; char *end; std::string t = s.substr(i, e - i); j.num = true; j.v = strtod(t.c_str(), &end); i = e; return *end == 0; }
  ++i; ws(); if (i < s.size() && s[i] == ']') { ++i; return true; }
  for (;;) { J k; if (!Parse(s, i, k)) return false; j.a.push_back(k); ws(); if (i >= s.size()) return false; if (s[i] == ',') { ++i; continue; } if (s[i] == ']') { ++i; return true; } return false; } }
static bool FileVal(const J &j, double &v) { v = j.v; return j.num; }
static bool FileVal(const J &j, cd &v) { if (j.a.size() != 2 || !j.a[0].num || !j.a[1].num) return false; v = {j.a[0].v, j.a[1].v}; return true; }
template<typename T> struct Ev { std::vector<size_t> sites; T want; double scale; };
template<typename T> static void Judge(Mon &m, const char *what, const MeasuRes<T> &got, const std::vector<Ev<T>> &want, const std::string *file = nullptr) {
  m.check(got.size() == want.size(), std::string("count-") + what, [&] { return std::to_string(got.size()) + " not " + std::to_string(want.size()); });
  for (size_t i = 0; i < got.size() && i < want.size(); ++i) {
    m.check(got[i].sites == want[i].sites, std::string("sites-") + what, [&] { return vmon::join(got[i].sites) + " not " + vmon::join(want[i].sites); });
    double d = std::abs(got[i].avg - want[i].want); m.check(d <= 1e-10 * (1 + want[i].scale), std::string("value-") + what, [&] { return "event " + std::to_string(i) + " sites " + vmon::join(want[i].sites) + " got " + str(got[i].avg) + " want " + str(want[i].want); }); m.count("values"); if (std::abs(want[i].want) > 1e-4 * want[i].scale) m.count("nonzero_values"); }
  if (!file) return; std::string s = ReadAll(*file + ".json"); size_t p = 0; J j; bool ok = Parse(s, p, j) && j.a.size() == want.size(); std::string why = "unreadable or wrong length";
  for (size_t i = 0; ok && i < want.size(); ++i) { ok = j.a[i].a.size() == 2 && j.a[i].a[0].a.size() == want[i].sites.size(); for (size_t k = 0; ok && k < want[i].sites.size(); ++k) ok = j.a[i].a[0].a[k].num && j.a[i].a[0].a[k].v == (double) want[i].sites[k]; T v(0); ok = ok && FileVal(j.a[i].a[1], v) && std::abs(v - got[i].avg) <= 1e-11 * std::abs(got[i].avg) + 1e-300; why = "entry " + std::to_string(i) + " got " + str(got[i].avg) + " file " + str(v); }
  m.check(ok, std::string("file-") + what, [&] { return why + " in " + s.substr(0, 300); }); m.count("files"); unlink((*file + ".json").c_str()); }
template<typename T, typename QNT> void Case(size_t c, Rng &r, Mon &m) {
  using X = TN<T, QNT>; using MPSt = FiniteMPS<T, QNT>; using Ten = typename X::Ten; using M = Mat<T>; using Es = std::vector<Ev<T>>;
  bool uni = r.coin(0.7); size_t N = 2 + r.below(6); std::vector<typename X::Idx> s;
  if (uni) { auto one = X::RandSite(r, N > 5 ? 2 : 3); for (size_t i = 0; i < N; ++i) s.push_back(one); } else s = X::RandSites(r, N, 3, 600);
  if (X::Dim(s) > 800) { s.resize(4); N = s.size(); }
  SiteVec<T, QNT> sv(s); MPSt mps(sv); for (int t = 0;; ++t) { X::RandMps(r, mps, s, 3, 1 + r.below(6)); if (X::Scale(mps, 1.0) != 0) break; if (t > 20) return; }
  if (r.coin()) mps.Centralize((int) r.below(N)); if (r.coin()) *mps(0) *= T(1.0);
  auto psi = X::Dense(mps); std::string desc = X::Desc(s); m.distinct(vmon::hash_str(desc + str(psi.a[psi.n() / 2]) + str(psi.norm()))); if (c % 53 == 0) m.sample(desc);
  auto same = [&](const std::string &k) { m.check(dist(X::Dense(mps), psi) < 1e-9, "state-changed-" + k); };
  auto val = [&](const std::vector<M> &ops, const std::vector<size_t> &at) { return psi.dot(X::Embed(s, ops, at) * psi); };
  auto scale = [&](const std::vector<M> &ops) { double x = 1; for (auto &o : ops) x *= o.norm(); return x; };
  auto ev = [&](const std::vector<size_t> &lab, const std::vector<M> &ops, const std::vector<size_t> &at) { return Ev<T>{lab, val(ops, at), scale(ops)}; };
  auto rop = [&](size_t i, const QNT &q) { M o = X::RandOp(r, s[i], q, (int) r.below(3)); return o; };
  auto neutral = [&](size_t i) { M o = r.coin(0.3) ? M::Id(s[i].dim()) : rop(i, QNT()); return o.norm() > 0 ? o : M::Id(s[i].dim()); };
  // k operators on ascending sites whose charges add up to nothing
  auto rops = [&](const std::vector<size_t> &at, std::vector<M> &ops) { for (int t = 0; t < 20; ++t) { ops.clear(); QNT sum; bool ok = true; for (size_t k = 0; k < at.size() && ok; ++k) { auto ch = X::OpCharges(s[at[k]]); QNT q = k + 1 == at.size() ? -sum : r.pick(ch); ok = std::find(ch.begin(), ch.end(), q) != ch.end(); if (!ok) break; sum += q; ops.push_back(rop(at[k], q)); ok = ops.back().norm() > 0; } if (ok) return; } ops.clear(); for (auto i : at) ops.push_back(neutral(i)); };
  auto asc = [&](size_t k, size_t lo) { std::vector<size_t> v; for (size_t i = lo; i < N; ++i) v.push_back(i); for (size_t i = 0; i < k; ++i) std::swap(v[i], v[i + r.below(v.size() - i)]); v.resize(k); std::sort(v.begin(), v.end()); return v; };
  auto ten = [&](const M &o, size_t i) { return X::MatToOp(s[i], o); };
  // ------------------------------------------------------------------ in memory
  std::string f = r.pick(std::vector<std::string>{"res", "out_dir", "a.b"});
  if (uni) { m.at("one-site"); M o = neutral(0); Es w; for (size_t i = 0; i < N; ++i) w.push_back(ev({i}, {o}, {i})); Judge(m, "one", MeasureOneSiteOp(mps, ten(o, 0), f), w, &f); same("one");
    std::vector<Ten> ops; std::vector<std::string> fs; std::vector<Es> ws; size_t k = 1 + r.below(3); for (size_t a = 0; a < k; ++a) { M p = neutral(0); ops.push_back(ten(p, 0)); fs.push_back("n" + std::to_string(a)); ws.emplace_back(); for (size_t i = 0; i < N; ++i) ws.back().push_back(ev({i}, {p}, {i})); }
    auto g = MeasureOneSiteOp(mps, ops, fs); m.check(g.size() == k, "sets"); for (size_t a = 0; a < k && a < g.size(); ++a) Judge(m, "one-list", g[a], ws[a], &fs[a]); same("one-list"); }
  size_t events = 1 + r.below(4);
  { m.at("two-site, own insertions"); std::vector<std::vector<size_t>> at; TenVV<T, QNT> ins; Es w; std::vector<M> ph;   // the two operators are shared by all events
    if (uni || N == 2) { std::vector<size_t> a0 = asc(2, 0); rops(a0, ph); for (size_t e = 0; e < events; ++e) { auto a = uni ? asc(2, 0) : a0; std::vector<M> ops{ph[0]}; std::vector<size_t> on{a[0]}; ins.emplace_back(); for (size_t i = a[0] + 1; i < a[1]; ++i) { M o = neutral(i); ops.push_back(o); on.push_back(i); ins.back().push_back(ten(o, i)); } ops.push_back(ph[1]); on.push_back(a[1]); at.push_back(a); w.push_back(ev(a, ops, on)); }
      Judge(m, "two", MeasureTwoSiteOp(mps, std::vector<Ten>{ten(ph[0], a0[0]), ten(ph[1], a0[1])}, ins, at, f), w, &f); same("two"); }
    if (uni) { m.at("two-site, one insertion"); M in = neutral(0); w.clear(); for (auto &a : at) { std::vector<M> ops{ph[0]}; std::vector<size_t> on{a[0]}; for (size_t i = a[0] + 1; i < a[1]; ++i) { ops.push_back(in); on.push_back(i); } ops.push_back(ph[1]); on.push_back(a[1]); w.push_back(ev(a, ops, on)); }
      Judge(m, "two-uniform", MeasureTwoSiteOp(mps, std::vector<Ten>{ten(ph[0], 0), ten(ph[1], 0)}, ten(in, 0), at, f), w, &f); same("two-uniform"); } }
  { m.at("multi-site, own insertions"); std::vector<std::vector<size_t>> at; TenVV<T, QNT> phs; TenVVV<T, QNT> ins; Es w;
    for (size_t e = 0; e < events; ++e) { size_t k = 2 + r.below(std::min<size_t>(N, 5) - 1); auto a = asc(k, 0); std::vector<M> ph; rops(a, ph); std::vector<M> ops; std::vector<size_t> on; phs.emplace_back(); ins.emplace_back();
      for (size_t q = 0; q < k; ++q) { ops.push_back(ph[q]); on.push_back(a[q]); phs.back().push_back(ten(ph[q], a[q])); size_t stop = q + 1 < k ? a[q + 1] : a[q] + 1; bool tail = q + 1 == k && r.coin(0.4); if (tail) { stop = a[q] + 1 + r.below(N - a[q]); m.count("tails"); } if (q + 1 < k || tail) { ins.back().emplace_back(); for (size_t i = a[q] + 1; i < stop; ++i) { M o = neutral(i); ops.push_back(o); on.push_back(i); ins.back().back().push_back(ten(o, i)); } } }
      at.push_back(a); w.push_back(ev(a, ops, on)); }
    Judge(m, "multi", MeasureMultiSiteOp(mps, phs, ins, at, f), w, &f); same("multi"); }
  if (uni) { m.at("multi-site, one insertion per gap"); std::vector<std::vector<size_t>> at; TenVV<T, QNT> phs, ins; Es w;
    for (size_t e = 0; e < events; ++e) { size_t k = 2 + r.below(std::min<size_t>(N, 5) - 1); auto a = asc(k, 0); std::vector<M> ph; rops(a, ph); std::vector<M> ops; std::vector<size_t> on; phs.emplace_back(); ins.emplace_back();
      for (size_t q = 0; q < k; ++q) { ops.push_back(ph[q]); on.push_back(a[q]); phs.back().push_back(ten(ph[q], 0)); if (q + 1 < k) { M in = neutral(0); ins.back().push_back(ten(in, 0)); for (size_t i = a[q] + 1; i < a[q + 1]; ++i) { ops.push_back(in); on.push_back(i); } } }
      at.push_back(a); w.push_back(ev(a, ops, on)); }
    Judge(m, "multi-uniform", MeasureMultiSiteOp(mps, phs, ins, at, f), w, &f); same("multi-uniform"); }
  // ------------------------------------------------------------------ from disk: centre on the first site, nothing in memory
  if (!uni) return;
  mps.Centralize(0); std::string dir = r.coin() ? "mps" : "d.x"; mps.Dump(dir, true); std::map<std::string, std::string> before; Tree(".", before);
  auto after = [&](const std::string &k) { m.check(mps.empty(), "left-in-memory-" + k); for (size_t i = 0; i < N; ++i) mps.dealloc(i); std::map<std::string, std::string> now; Tree(".", now); m.check(now == before, "disk-changed-" + k, [&] { std::string d; for (auto &x : now) if (!before.count(x.first)) d += "+" + x.first + " "; else if (before[x.first] != x.second) d += "*" + x.first + " "; for (auto &x : before) if (!now.count(x.first)) d += "-" + x.first + " "; return d; }); m.count("disk_runs"); };
  { m.at("disk one-site"); M o = neutral(0); Es w; for (size_t i = 0; i < N; ++i) w.push_back(ev({i}, {o}, {i})); Judge(m, "disk-one", MeasureOneSiteOp(mps, dir, ten(o, 0), f), w, &f); after("one");
    std::vector<Ten> ops; std::vector<std::string> fs; std::vector<Es> ws; size_t k = 1 + r.below(3); std::vector<size_t> at = asc(1 + r.below(N), 0); if (r.coin(0.2)) at.push_back(at.back()); bool all = r.coin(0.3); if (all) { at.resize(N); std::iota(at.begin(), at.end(), 0); }
    for (size_t a = 0; a < k; ++a) { M p = neutral(0); ops.push_back(ten(p, 0)); fs.push_back("n" + std::to_string(a)); ws.emplace_back(); for (size_t i : at) ws.back().push_back(ev({i}, {p}, {i})); }
    auto g = all ? MeasureOneSiteOp(mps, dir, ops, fs) : MeasureOneSiteOp(mps, dir, ops, at, fs); m.check(g.size() == k, "sets"); for (size_t a = 0; a < k && a < g.size(); ++a) Judge(m, "disk-one-list", g[a], ws[a], &fs[a]); after("one-list"); }
  { m.at("disk two-site group"); size_t a = r.below(N - 1); std::vector<M> ph; rops({a, a + 1}, ph); std::vector<size_t> to = asc(1 + r.below(N - a - 1), a + 1); if (r.coin(0.2)) to.push_back(to.back()); int how = (int) r.below(5); if (how > 1) { to.clear(); for (size_t i = a + 1; i < N; ++i) to.push_back(i); }
    bool di = how == 0 || how == 2; M in = di ? M::Id(s[0].dim()) : neutral(0); Es w; for (size_t b : to) { std::vector<M> ops{ph[0]}; std::vector<size_t> on{a}; for (size_t i = a + 1; i < b; ++i) { ops.push_back(in); on.push_back(i); } ops.push_back(ph[1]); on.push_back(b); w.push_back(ev({a, b}, ops, on)); }
    Ten p0 = ten(ph[0], 0), p1 = ten(ph[1], 0), ti = ten(in, 0); MeasuRes<T> g = how == 0 ? MeasureTwoSiteOpGroup(mps, dir, p0, p1, a, to) : how == 1 ? MeasureTwoSiteOpGroup(mps, dir, p0, p1, a, to, ti) : how == 2 ? MeasureTwoSiteOpGroup(mps, dir, p0, p1, a) : how == 3 ? MeasureTwoSiteOpGroup(mps, dir, p0, p1, a, ti) : MeasureTwoSiteOpGroup(mps, dir, p0, p1, a, ti, f);
    Judge(m, "disk-two", g, w, how == 4 ? &f : nullptr); after("two"); m.count("groups"); }
  if (N >= 4) { m.at("disk four-site group"); auto q = asc(2, 0); while (q[1] > N - 3) q = asc(2, 0); std::array<size_t, 2> ref{q[0], q[1]}; std::vector<M> ph; rops({0, 1, 2, 3}, ph); bool di = r.coin(0.3); M in = di ? M::Id(s[0].dim()) : neutral(0);
    std::set<std::array<size_t, 2>> want; size_t n = 1 + r.below(6); std::vector<std::array<size_t, 2>> to; for (size_t e = 0; e < n; ++e) { auto t = asc(2, q[1] + 1); if (want.insert({t[0], t[1]}).second) to.push_back({t[0], t[1]}); } for (size_t i = 0; i < to.size(); ++i) std::swap(to[i], to[i + r.below(to.size() - i)]);
    std::array<Ten, 4> pt{ten(ph[0], 0), ten(ph[1], 0), ten(ph[2], 0), ten(ph[3], 0)}; auto g = di ? MeasureFourSiteOpGroup(mps, dir, pt, ref, to) : MeasureFourSiteOpGroup(mps, dir, pt, ref, to, ten(in, 0));
    Es w; for (auto &e : g) { if (e.sites.size() != 4 || !want.erase({e.sites[2], e.sites[3]})) { m.check(false, "sites-disk-four", [&] { return vmon::join(e.sites); }); continue; } std::vector<M> ops{ph[0]}; std::vector<size_t> on{q[0]}; auto fill = [&](size_t a, size_t b) { for (size_t i = a + 1; i < b; ++i) { ops.push_back(in); on.push_back(i); } }; fill(q[0], q[1]); ops.push_back(ph[1]); on.push_back(q[1]); ops.push_back(ph[2]); on.push_back(e.sites[2]); fill(e.sites[2], e.sites[3]); ops.push_back(ph[3]); on.push_back(e.sites[3]); w.push_back(ev({q[0], q[1], e.sites[2], e.sites[3]}, ops, on)); }
    m.check(want.empty(), "missing-disk-four"); Judge(m, "disk-four", g, w); after("four"); m.count("four_groups"); if (to.size() > 1) m.count("four_groups_many"); }
  Wipe(dir);
}
int main(int argc, char **argv) {
  QuietCout q;
  return vmon::run(argc, argv, "p17", [](size_t c, Rng &r, Mon &m) {
    switch (c % 4) {
      case 0: Case<double, special_qn::U1QN>(c, r, m); break;
      case 1: Case<cd, special_qn::U1U1QN>(c, r, m); break;
      case 2: Case<double, special_qn::TrivialRepQN>(c, r, m); break;
      default: Case<cd, special_qn::U1QN>(c, r, m);
    }
  });
}
