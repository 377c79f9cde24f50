// P15: histories of centre moves, local edits, copies, reloads and truncations of a finite MPS, against its state vector.
#include "tn.h"
template<typename T, typename QNT> void Case(size_t c, Rng &r, Mon &m) {
  using X = TN<T, QNT>; using MPSt = FiniteMPS<T, QNT>;
  size_t N = 2 + r.below(6);
  auto s = X::RandSites(r, N, 3, 300); SiteVec<T, QNT> sv(s); std::string desc = X::Desc(s);
  MPSt mps(sv); auto R = X::RandMps(r, mps, s, 3, 1 + r.below(4));
  if (X::Scale(mps, 0.3 + 2 * r.unit()) == 0) return;
  Vec<T> ref = X::Dense(mps); auto cur = s; bool reversed = false; std::string hist;
  auto look = [&](const std::string &op, double tol, bool strict_center, int want) {
    std::string why; auto ss = cur;
    if (!m.check(X::BondsMatch(mps, ss, why), "bonds@" + op, [&] { return why + hist + " " + desc; })) return false;
    Vec<T> v = X::Dense(mps); double e = dist(v, ref);
    m.check(e <= tol * std::max(1.0, ref.norm()), "state-changed@" + op, [&] { return "distance " + str(e) + hist + " " + desc; });
    const MPSt &k = mps; int ctr = mps.GetCenter(); auto ty = mps.GetTensCanoType(); double worst = 0;
    m.check(ty.size() == N, "flags-size@" + op);
    for (size_t i = 0; i < N; ++i) {
      if (ty[i] != mps.GetTenCanoType(i)) worst = 1;
      if (ty[i] == MPSTenCanoType::LEFT) { worst = std::max(worst, X::LeftErr(k[i])); m.count("left_flags"); }
      if (ty[i] == MPSTenCanoType::RIGHT) { worst = std::max(worst, X::RightErr(k[i])); m.count("right_flags"); }
    }
    m.check(worst < 1e-9, "flag-says-canonical@" + op, [&] { return str(worst) + hist; });
    if (ctr != kUncentralizedCenterIdx) { double ce = X::CanonErr(k, ctr); m.check(ce < 1e-9, "center-claim@" + op, [&] { return "centre " + std::to_string(ctr) + " error " + str(ce) + hist; }); m.count("center_claims"); }
    if (strict_center) {
      m.check(ctr == want, "center-index@" + op, [&] { return std::to_string(ctr) + " not " + std::to_string(want) + hist; });
      double ce = X::CanonErr(k, want), nn = 0; for (auto &x : k[want].Raw()) nn += std::norm(cd(x));
      m.check(ce < 1e-9, "not-canonical@" + op, [&] { return "error " + str(ce) + hist + " " + desc; });
      m.check(std::abs(std::sqrt(nn) - ref.norm()) < tol * std::max(1.0, ref.norm()), "center-norm@" + op);
    }
    return true;
  };
  if (!look("start", 1e-10, false, 0)) return;
  auto bonds = [&] { std::vector<size_t> b; const MPSt &k = mps; for (size_t i = 0; i + 1 < N; ++i) b.push_back(k[i].GetShape()[2]); return b; };
  std::set<int> kinds; size_t steps = 4 + r.below(10);
  for (size_t t = 0; t < steps; ++t) {
    int op = (int) std::min<size_t>(15, r.below(18)); std::string nm; bool strict = false; int want = 0; double tol = 1e-10;
    auto b0 = bonds(); bool canon_op = op <= 6;
    switch (op) {
      case 0: case 1: case 2: { int k = (int) r.below(N); nm = "Centralize"; hist += " C" + std::to_string(k); m.at(nm + hist); mps.Centralize(k); strict = true; want = k; break; }
      case 3: { size_t i = r.below(N - 1); nm = "LeftCanonicalizeTen"; hist += " l" + std::to_string(i); m.at(nm + hist); mps.LeftCanonicalizeTen(i); const MPSt &k = mps; m.check(X::LeftErr(k[i]) < 1e-9 && mps.GetTenCanoType(i) == MPSTenCanoType::LEFT, "left-ten"); break; }
      case 4: { size_t i = 1 + r.below(N - 1); bool svd = r.coin(); nm = svd ? "RightCanonicalizeTen-svd" : "RightCanonicalizeTen"; hist += (svd ? " s" : " r") + std::to_string(i); m.at(nm + hist);
        auto sing = mps.RightCanonicalizeTen(i, svd); const MPSt &k = mps; m.check(X::RightErr(k[i]) < 1e-9 && mps.GetTenCanoType(i) == MPSTenCanoType::RIGHT, "right-ten"); if (svd) canon_op = false;
        if (svd) m.check(sing.GetShape().size() == 2 && sing.GetShape()[0] == k[i].GetShape()[0], "singular-values"); break; }
      case 5: { size_t i = r.below(N - 1); nm = "LeftCanonicalize"; hist += " L" + std::to_string(i); m.at(nm + hist); mps.LeftCanonicalize(i); const MPSt &k = mps; double e = 0; for (size_t q = 0; q <= i; ++q) e = std::max(e, X::LeftErr(k[q])); m.check(e < 1e-9, "left-part", [&] { return str(e) + hist; }); break; }
      case 6: { size_t i = 1 + r.below(N - 1); nm = "RightCanonicalize"; hist += " R" + std::to_string(i); m.at(nm + hist); mps.RightCanonicalize(i); const MPSt &k = mps; double e = 0; for (size_t q = i; q < N; ++q) e = std::max(e, X::RightErr(k[q])); m.check(e < 1e-9, "right-part", [&] { return str(e) + hist; }); break; }
      case 7: { size_t i = r.below(N); T f = rnds<T>(r) + T(1.3); nm = "scale"; hist += " x" + std::to_string(i); m.at(nm + hist); if (r.coin()) mps[i] *= f; else *mps(i) *= f; ref = ref * f; break; }
      case 8: { nm = "replace"; size_t i = r.below(N); hist += " N" + std::to_string(i); m.at(nm + hist);
        const MPSt &k = mps; auto t2 = k[i]; for (auto &x : t2.Raw()) if (x != T(0)) x = rnds<T>(r);
        if (r.coin()) mps[i] = t2; else { delete mps(i); mps(i) = new typename X::Ten(t2); }
        { MPSt probe(mps); ref = X::Dense(probe); } if (ref.norm() < 1e-3) return; break; }
      case 9: { nm = "copy"; hist += " cp"; m.at(nm + hist); MPSt o(mps); MPSt p(sv); p = o; if (r.coin()) o.Centralize((int) r.below(N)); mps = r.coin() ? p : MPSt(p); { auto v = X::Dense(o); m.check(dist(v, ref) < 1e-9 * std::max(1.0, ref.norm()), "copy-state"); } break; }
      case 10: { nm = "reload"; hist += " D"; m.at(nm + hist); bool rel = r.coin(); mps.Dump("m", rel); if (r.coin()) mps.Load("m"); else for (size_t i = N; i-- > 0;) mps.LoadTen("m", i); Wipe("m"); break; }
      case 11: { // another state of the same system (any canonical form) is loaded over this one
        if (reversed) break;
        nm = "load-other"; hist += " LO"; m.at(nm + hist);
        MPSt o(sv); X::RandMps(r, o, s, 3, 1 + r.below(3), &R.div); if (X::Scale(o, 0.5 + r.unit()) == 0) break;
        if (r.coin()) o.Centralize((int) r.below(N));
        ref = X::Dense(o); o.Dump("o", true); if (r.coin()) { for (size_t i = 0; i < N; ++i) mps.dealloc(i); } mps.Load("o"); Wipe("o"); break; }
      case 12: { nm = "load-tensor"; hist += " LT"; m.at(nm + hist); size_t i = r.below(N); const MPSt &k = mps; auto t2 = k[i]; for (auto &x : t2.Raw()) if (x != T(0)) x = rnds<T>(r);
        mkdir("q", 0755); WriteQLTensorTOFile(t2, GenMPSTenName("q", i)); if (r.coin()) mps.LoadTen("q", i); else mps.LoadTen(i, GenMPSTenName("q", i)); Wipe("q"); ref = X::Dense(mps); if (ref.norm() < 1e-3) return; break; }
      case 13: { nm = "Reverse"; hist += " V"; m.at(nm + hist); mps.Reverse(); reversed = !reversed;
        std::vector<typename X::Idx> c2(cur.rbegin(), cur.rend()); Vec<T> w(ref.n()); for (size_t k = 0; k < ref.n(); ++k) { auto cf = X::Unrank(cur, k); std::reverse(cf.begin(), cf.end()); w.a[X::Rank(c2, cf)] = ref.a[k]; } ref = w; cur = c2; break; }
      case 14: { // truncation without loss
        nm = "TruncateMPS-lossless"; hist += " T0"; m.at(nm + hist); if (reversed) break;
        size_t D = 0; for (auto x : bonds()) D = std::max(D, x);
        double n = ref.norm(); TruncateMPS(mps, 0.0, (size_t) 1, std::max<size_t>(D, 1) + r.below(20)); ref = ref * T(1.0 / n); tol = 2e-8; break; }
      default: { nm = "TruncateMPS"; m.at(nm + hist); if (reversed) break;
        size_t Dmax = 1 + r.below(6), Dmin = 1 + r.below(Dmax); double err = r.coin() ? 0.0 : std::pow(10.0, -1.0 - 6 * r.unit());
        hist += " T(" + str(err) + "," + std::to_string(Dmin) + "," + std::to_string(Dmax) + ")"; m.at(nm + hist);
        Vec<T> before = ref * T(1.0 / ref.norm()); std::string out;
        { CoutCapture cap; TruncateMPS(mps, err, Dmin, Dmax); out = cap.str(); }
        Vec<T> v = X::Dense(mps); const MPSt &k = mps;
        m.check(std::abs(v.norm() - 1) < 1e-9, "truncated-norm", [&] { return str(v.norm()) + hist; });
        double angle = 0; size_t pos = 0, seen = 0; std::vector<double> rep;
        for (size_t i = 0; i + 1 < N; ++i) {
          size_t D = k[i].GetShape()[2]; m.check(D <= Dmax, "bond-limit", [&] { return std::to_string(D) + " > " + std::to_string(Dmax) + hist; });
          pos = out.find("TruncErr = ", pos); if (pos == std::string::npos) break; pos += 11; double e = strtod(out.c_str() + pos, nullptr);
          size_t dp = out.find("D = ", pos); size_t Dp = strtoul(out.c_str() + dp + 4, nullptr, 10); ++seen; rep.push_back(e);
          m.check(Dp == D, "reported-bond", [&] { return std::to_string(Dp) + " reported, " + std::to_string(D) + hist; });
          if (D > Dmin && D < Dmax) m.check(e <= err * 1.01 + 1e-14, "asked-error", [&] { return str(e) + " > " + str(err) + hist; });
          angle += std::asin(std::sqrt(std::min(1.0, e * 1.01 + 1e-15)));
        }
        m.check(seen == N - 1, "reports", [&] { return std::to_string(seen) + " of " + std::to_string(N - 1); });
        double ov = std::abs(before.dot(v)); double ang = std::acos(std::min(1.0, ov));
        m.check(ang <= angle + 1e-6, "discarded-weight", [&] { return "angle " + str(ang) + " beyond the reported " + str(angle) + hist; });
        // the first bond is cut in the exact Schmidt basis
        auto sc = X::Schmidt(s, before, 1); double tail = 0; for (size_t i = k[0].GetShape()[2]; i < sc.size(); ++i) tail += sc[i] * sc[i];
        if (!rep.empty()) m.check(std::abs(rep[0] - tail) <= 0.02 * tail + 1e-12, "first-discarded-weight", [&] { return str(rep[0]) + " vs " + str(tail) + hist; });
        for (size_t i = 0; i + 1 < N; ++i) m.check(X::LeftErr(k[i]) < 1e-9, "truncated-left-canonical");
        if (angle > 1e-3) m.count("lossy_truncations");
        ref = v; }
    }
    if (nm.empty()) continue;
    kinds.insert(op); m.count("ops");
    if (canon_op) { auto b1 = bonds(); bool grew = false; for (size_t i = 0; i + 1 < N; ++i) grew = grew || b1[i] > b0[i]; m.check(!grew, "bond-grew@" + nm, [&] { return vmon::join(b0) + " to " + vmon::join(b1) + hist; }); }
    if (!look(nm, tol, strict, want)) return;
    if (tol > 1e-9) ref = X::Dense(mps);
  }
  if (kinds.size() > 2) m.distinct(vmon::hash_str(desc + hist));
  if (c % 61 == 0) m.sample(desc + hist);
}
int main(int argc, char **argv) {
  QuietCout q;
  return vmon::run(argc, argv, "p15", [](size_t c, Rng &r, Mon &m) {
    switch (c % 4) {
      case 0: Case<double, special_qn::U1QN>(c, r, m); break;
      case 1: Case<cd, special_qn::U1U1QN>(c, r, m); break;
      case 2: Case<double, special_qn::TrivialRepQN>(c, r, m); break;
      default: Case<cd, special_qn::U1QN>(c, r, m);
    }
  });
}
