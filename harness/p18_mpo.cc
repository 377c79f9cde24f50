// P18: finite matrix product operators under histories of operations, against dense matrices.
#include "tn.h"

template<typename T, typename QNT> struct Ops {
  using X = TN<T, QNT>; using Ten = typename X::Ten; using O = FiniteMPO<T, QNT>; using Idx = typename X::Idx; using M = Mat<T>;
  static double LeftErr(const Ten &t) { auto &sh = t.GetShape(); size_t D = sh[3], n = t.size() / D; double e = 0;
    for (size_t x = 0; x < D; ++x) for (size_t y = 0; y < D; ++y) { T v(0); for (size_t k = 0; k < n; ++k) v += cj(t.Raw()[k * D + x]) * t.Raw()[k * D + y]; e = std::max(e, std::abs(v - T(x == y ? 1.0 : 0.0))); } return std::isfinite(e) ? e : 1e300; }
  static double RightErr(const Ten &t) { size_t D = t.GetShape()[0], n = t.size() / D; double e = 0;
    for (size_t x = 0; x < D; ++x) for (size_t y = 0; y < D; ++y) { T v(0); for (size_t k = 0; k < n; ++k) v += cj(t.Raw()[x * n + k]) * t.Raw()[y * n + k]; e = std::max(e, std::abs(v - T(x == y ? 1.0 : 0.0))); } return std::isfinite(e) ? e : 1e300; }
  static bool Shape(const O &o, const std::vector<Idx> &s, std::string &why) {
    for (size_t i = 0; i < o.size(); ++i) {
      if (!o(i) || o[i].Rank() != 4) { why = "tensor " + std::to_string(i); return false; }
      if (o[i].GetIndex(2) != s[i] || o[i].GetIndex(1) != InverseIndex(s[i])) { why = "physical index at " + std::to_string(i); return false; }
      if (i + 1 < o.size() && o(i + 1) && o[i].GetIndex(3) != InverseIndex(o[i + 1].GetIndex(0))) { why = "bond " + std::to_string(i); return false; } }
    if (o[0].GetShape()[0] != 1 || o[o.size() - 1].GetShape()[3] != 1) { why = "boundary"; return false; }
    return true;
  }
  static T inner(const M &a, const M &b) { T s(0); for (size_t i = 0; i < a.a.size(); ++i) s += cj(a.a[i]) * b.a[i]; return s; }
  // stated canonical types and centre are true
  static std::string Honest(const O &o) {
    auto ty = o.GetTensCanoType(); if (ty.size() != o.size()) return "types missing";
    for (size_t i = 0; i < o.size(); ++i) {
      if (ty[i] == MPSTenCanoType::LEFT && LeftErr(o[i]) > 1e-9) return "tensor " + std::to_string(i) + " called left canonical";
      if (ty[i] == MPSTenCanoType::RIGHT && RightErr(o[i]) > 1e-9) return "tensor " + std::to_string(i) + " called right canonical"; }
    int c = o.GetCenter();
    if (c >= 0) for (size_t i = 0; i < o.size(); ++i) { if ((int) i < c && LeftErr(o[i]) > 1e-9) return "left of the centre " + std::to_string(c) + " at " + std::to_string(i); if ((int) i > c && RightErr(o[i]) > 1e-9) return "right of the centre " + std::to_string(c) + " at " + std::to_string(i); }
    return "";
  }
  static O RandMpo(Rng &r, const std::vector<Idx> &s, SiteVec<T, QNT> &sv, M &dense, std::string &kind) {
    if (QNT::kNum == 0 && r.coin(0.4)) {       // arbitrary tensors
      O o(s.size()); size_t D = 1; Idx lv({typename X::Sct(QNT(), 1)}, IN); (void) D; kind = "tensors";
      for (size_t i = 0; i < s.size(); ++i) { Idx rv({typename X::Sct(QNT(), i + 1 == s.size() ? 1 : 1 + r.below(3))}, OUT); o(i) = new Ten({lv, InverseIndex(s[i]), s[i], rv}); for (auto &x : o[i].Raw()) x = rnds<T>(r); lv = InverseIndex(rv); }
      dense = X::DenseMpo(o); return o;
    }
    MPOGenerator<T, QNT> g(sv); bool herm = r.coin(0.4); dense = M(X::Dim(s)); kind = herm ? "hermitian" : "general";
    if (herm) dense = X::RandHam(r, s, 1 + r.below(4), 3, g).H;
    else { size_t n = 1 + r.below(4), got = 0; for (size_t i = 0; i < n; ++i) { typename X::Term t; if (!X::RandTerm(r, s, 3, t)) continue; ++got; X::Add(g, s, t); dense = dense + X::DenseTerm(s, t); }
      if (!got || r.coin(0.6)) { typename X::Term t; t.coef = T(0.7); t.ops = {M::Id(s[0].dim())}; t.at = {0}; X::Add(g, s, t); dense = dense + X::DenseTerm(s, t); } }
    auto mpo = g.Gen(r.coin(0.7), false); return O(mpo);
  }
  static O Ident(const std::vector<Idx> &s, SiteVec<T, QNT> &sv) { MPOGenerator<T, QNT> g(sv); g.AddTerm(T(1), {X::MatToOp(s[0], M::Id(s[0].dim()))}, {0}); return O(g.Gen(true, false)); }
};
template<typename T, typename QNT> void Case(size_t c, Rng &r, Mon &m) {
  using H = Ops<T, QNT>; using X = typename H::X; using Ten = typename H::Ten; using O = typename H::O; using M = Mat<T>;
  long live0 = tensor_stats().live; Wipe("mpo"); Wipe("init"); Wipe("tmp");
  {
  size_t N = 2 + r.below(4); auto s = X::RandSites(r, N, 3, 64); SiteVec<T, QNT> sv(s); N = s.size();
  std::string trail = "N " + std::to_string(N) + " sites " + X::Desc(s) + ":", kind; M A; O a = H::RandMpo(r, s, sv, A, kind); trail += " " + kind;
  auto ctx = [&] { return trail; }; bool stop = false;
  auto agree = [&](const std::string &op, const O &o, const M &want, double tol) {
    std::string why; if (!m.check(H::Shape(o, s, why), "shape@" + op, [&] { return why + " " + ctx(); })) { stop = true; return; }
    M g = X::DenseMpo(o); double d = dist(g, want); if (!m.check(d < tol * (1 + want.norm()), "value@" + op, [&] { return str(d) + " of " + str(want.norm()) + " " + ctx(); })) stop = true;
    why = H::Honest(o); if (!m.check(why.empty(), "canonical@" + op, [&] { return why + " " + ctx(); })) stop = true;
    m.count("op_" + op); };
  agree("create", a, A, 1e-10);
  size_t n = 3 + r.below(8); double tol = 1e-9;
  auto bond = [&](const O &o) { size_t D = 1; for (size_t i = 0; i + 1 < N; ++i) D = std::max(D, o[i].GetShape()[3]); return D; };
  for (size_t k = 0; k < n && !stop; ++k) {
    if (A.norm() < 1e-2 || A.norm() > 1e4) break;
    int op = (int) r.below(17); std::string kd; M B;
    switch (op) {
      case 0: case 1: { bool in = r.coin(); bool self = r.coin(0.15); O b = self ? a : H::RandMpo(r, s, sv, B, kd); if (self) B = A; M keep = B; trail += in ? " +=" : " +"; m.at(trail); if (bond(a) + bond(b) > 40) break;
        if (in) { if (self && r.coin()) a += a; else a += b; } else a = a + b; A = A + B; agree(in ? "add-in-place" : "add", a, A, tol); if (!self) agree("operand", b, keep, tol); break; }
      case 2: case 3: { T x = rnds<T>(r) * T(3); if (std::abs(x) < 0.1) x = T(-0.7); bool f = r.coin(); int was = a.GetCenter(); trail += (f ? " *=" : " Scale ") + str(x) + (a.GetCenter() >= 0 ? "@centre" : ""); m.at(trail); if (f) a *= x; else a.Scale(x); A = A * x; m.check(a.GetCenter() == was, "centre@scale", trail); agree("scale", a, A, tol); break; }
      case 4: case 5: case 6: { size_t q = r.below(N); trail += " Centralize " + std::to_string(q); m.at(trail); a.Centralize((int) q); agree("centralize", a, A, tol); m.check(a.GetCenter() == (int) q, "centre-stated", ctx); m.count("centralized"); break; }
      case 7: { size_t q = r.below(N - 1); trail += " Left " + std::to_string(q); m.at(trail); a.LeftCanonicalize(q); agree("left", a, A, tol); for (size_t i = 0; i <= q; ++i) m.check(a.GetTenCanoType(i) == MPSTenCanoType::LEFT, "left-type", ctx); break; }
      case 8: { size_t q = 1 + r.below(N - 1); trail += " Right " + std::to_string(q); m.at(trail); a.RightCanonicalize(q); agree("right", a, A, tol); for (size_t i = q; i < N; ++i) m.check(a.GetTenCanoType(i) == MPSTenCanoType::RIGHT, "right-type", ctx); break; }
      case 9: { trail += " Trace"; m.at(trail); T t = a.Trace(); m.check(std::abs(t - A.tr()) < tol * (1 + A.norm() * A.n), "trace", [&] { return str(t) + " not " + str(A.tr()) + " " + ctx(); }); agree("trace", a, A, tol); break; }
      case 10: { O b = H::RandMpo(r, s, sv, B, kd); if (bond(a) * bond(b) > 60) break; O p(N); bool used = r.coin(0.3); if (used) p = b; bool left = r.coin(); trail += left ? " product" : " product-from-right"; m.at(trail); M A0 = A;
        bool simple = r.coin(0.3); if (simple) { p = left ? a.SimpleProduct(b) : b.SimpleProduct(a); } else if (left) MpoProduct(a, b, p); else MpoProduct(b, a, p);
        M P = left ? A * B : B * A; agree(simple ? "simple-product" : "product", p, P, tol); agree("operand", a, A0, tol); agree("operand", b, B, tol); if (r.coin(0.6) && P.norm() > 1e-2) { a = std::move(p); A = P; } break; }
      case 11: { trail += " Truncate lossless"; m.at(trail); size_t D0 = bond(a); a.Truncate(1e-26, 1, 1000); agree("truncate-nothing", a, A, 1e-8); m.check(bond(a) <= D0, "bond-grew", ctx); break; }
      case 12: { size_t Dmax = 1 + r.below(6), Dmin = 1 + r.below(Dmax); static const double cuts[] = {0, 1e-12, 1e-6, 1e-3, 0.05}; double cut = cuts[r.below(5)]; trail += " Truncate " + str(cut) + " " + std::to_string(Dmin) + ".." + std::to_string(Dmax); m.at(trail);
        O b = a; size_t D0 = bond(a); b.Truncate(cut, Dmin, Dmax); M g = X::DenseMpo(b); std::string why; m.check(H::Shape(b, s, why), "shape@truncate", [&] { return why + " " + ctx(); }); why = H::Honest(b); m.check(why.empty(), "canonical@truncate", [&] { return why + " " + ctx(); });
        m.check(bond(b) <= Dmax, "bond-limit", [&] { return std::to_string(bond(b)) + " " + ctx(); });
        // best possible error at every bond, from the dense matrix
        double best = 0, allow = 0, nrm2 = A.norm() * A.norm(); size_t dl = 1;
        for (size_t b2 = 1; b2 < N; ++b2) { dl *= s[b2 - 1].dim(); size_t dr = A.n / dl; bool left = dl <= dr; size_t q = left ? dl * dl : dr * dr; if (q > 256) { allow = 1e300; continue; } M gr(q);
          auto el = [&](size_t x, size_t y) -> T { size_t ro = x / dl, rc = x % dl, so = y / dr, sc = y % dr; return A(ro * dr + so, rc * dr + sc); };
          size_t L = dl * dl, R = dr * dr; if (left) { for (size_t x = 0; x < L; ++x) for (size_t y = 0; y < L; ++y) { T v(0); for (size_t z = 0; z < R; ++z) v += el(x, z) * cj(el(y, z)); gr(x, y) = v; } } else for (size_t x = 0; x < R; ++x) for (size_t y = 0; y < R; ++y) { T v(0); for (size_t z = 0; z < L; ++z) v += cj(el(z, x)) * el(z, y); gr(x, y) = v; }
          auto w = eigh(gr); std::reverse(w.begin(), w.end()); double lost = 0, lostD = 0; for (size_t i = Dmax; i < w.size(); ++i) lostD += std::max(0.0, w[i]); best = std::max(best, lostD);
          // keeping as many as the cutoff asks for
          size_t keep = std::min(w.size(), Dmax); { double tail = lostD; while (keep > Dmin && tail + std::max(0.0, w[keep - 1]) <= cut * nrm2 * (1 + 1e-9)) tail += std::max(0.0, w[--keep]); lost = tail; } allow += lost; }
        double d = dist(g, A); m.check(d * d >= best * (1 - 1e-6) - 1e-12 * nrm2, "better-than-possible", [&] { return str(d * d) + " best " + str(best) + " " + ctx(); });
        // each later cut acts on an operator that is no larger
        m.check(d * d <= allow * (1 + 1e-6) + (N - 1) * cut * nrm2 + 1e-12 * (1 + nrm2), "truncation-error", [&] { return str(d * d) + " allowed " + str(allow) + " " + ctx(); });
        m.count("truncations"); if (d > 1e-6) m.count("lossy_truncations"); (void) D0; if (g.norm() > 0.1 && r.coin()) { a = b; A = g; } break; }
      case 13: { bool cen = a.GetCenter() >= 0; trail += " Normalize"; m.at(trail); double x = a.Normalize(); if (cen) m.check(std::abs(x - A.norm()) < tol * (1 + A.norm()), "norm-returned", [&] { return str(x) + " not " + str(A.norm()) + " " + ctx(); }); if (!m.check(x > 0 && std::isfinite(x), "norm-positive", ctx)) { stop = true; break; } A = A * T(1 / x); agree("normalize", a, A, tol); if (cen) m.check(std::abs(X::DenseMpo((const O &) a).norm() - 1) < tol, "normalized", ctx); break; }
      case 14: { trail += " copy/move"; m.at(trail); O b(a); M keep = A; agree("copy", b, A, tol); O e(N); e = a; agree("copy-assign", e, A, tol); a.Scale(T(2)); A = A * T(2); agree("copy-independent", b, keep, tol); O f(N); f = std::move(e); agree("move-assign", f, keep, tol); if (r.coin()) { a = f; A = keep; } break; }
      case 15: { trail += " Dump/Load"; m.at(trail); a.Dump("mpo"); O b(N); if (r.coin(0.5)) { b = H::Ident(s, sv); b.Centralize((int) r.below(N)); } m.check(b.Load("mpo"), "load-failed", ctx); agree("load", b, A, 1e-12 + tol); m.check(b.GetCenter() == a.GetCenter(), "centre-loaded", ctx); if (r.coin()) { b.Centralize((int) r.below(N)); agree("load-centralize", b, A, tol); a = b; } O q(N); m.check(!q.Load("nowhere"), "load-of-nothing", ctx); break; }
      default: { size_t q = r.below(N); trail += " write " + std::to_string(q); m.at(trail); const O &ca = a; Ten t = ca[q]; for (auto &x : t.Raw()) x *= T(0.5 + r.unit()); if (r.coin()) a[q] = t; else *a(q) = t; m.check(a.GetTenCanoType(q) == MPSTenCanoType::NONE, "type-after-write", ctx); A = X::DenseMpo(ca); agree("write", a, A, 1e-12); break; }
    }
  }
  if (!stop) m.check(a.GetMaxBondDim() == bond(a), "max-bond", ctx);
  { O id = GenerateIdentityMPO(a); m.at("GenerateIdentityMPO"); agree("identity", id, M::Id(A.n), 1e-14); }
  m.distinct(vmon::hash_str(trail));
  if (c % 97 == 0) m.sample(trail);

  // ------------------------------------------------------------ variational product
  if (N >= 3 && !stop) {
    M B, C; std::string k1, k2; O p = H::RandMpo(r, s, sv, B, k1), q = H::RandMpo(r, s, sv, C, k2); M P = B * C;
    if (P.norm() > 1e-2 && bond(p) * bond(q) <= 40) {
      O exact(N), out(N); MpoProduct(p, q, exact); size_t need = bond(exact); int guess = (int) r.below(4); std::string gn[] = {"product", "perturbed", "truncated", "first-factor"};
      bool lossless = r.coin(0.7); size_t Dmax = lossless ? 400 : 1 + r.below(6), Dmin = 1 + r.below(Dmax > 4 ? 4 : Dmax); double cut = lossless ? 0 : r.coin() ? 1e-12 : 1e-4;
      if (guess == 0) out = exact; else if (guess == 1) { O z = H::Ident(s, sv); M Z; std::string kz; O y = H::RandMpo(r, s, sv, Z, kz); z += y; z.Scale(T(0.1)); out = exact + z; } else if (guess == 2) { out = exact; out.Truncate(0, 1, std::max<size_t>(1, need / 2)); }
      std::string cx = "variational product of " + k1 + " and " + k2 + " from " + gn[guess] + " D " + std::to_string(Dmin) + ".." + std::to_string(Dmax) + " cut " + str(cut) + " " + trail; m.at(cx);
      T ov = guess == 3 ? H::inner(B, P) : H::inner(X::DenseMpo((const O &) out), P); size_t sweeps = 1 + r.below(8); double conv = r.coin() ? 1e-13 : 1e-8;
      if (std::abs(ov) > 1e-3 * P.norm()) {
        bool talk = r.coin(0.3); std::string said; { CoutCapture cap; std::cout << std::scientific << std::setprecision(16); MpoProduct(p, q, out, Dmin, Dmax, cut, sweeps, conv, "tmp", talk); said = cap.str(); } std::string why; M R;
        if (!talk) {     // it may stop before the last sweep only when the norm has settled
          std::vector<double> nn; for (size_t at = 0; (at = said.find("norm2 = ", at)) != std::string::npos; at += 8) nn.push_back(atof(said.c_str() + at + 8));
          if (!nn.empty() && nn.size() < sweeps) { size_t k = nn.size(); m.check(k >= 2 && std::abs(nn[k - 1] - nn[k - 2]) <= conv * nn[k - 2] * 1.001 + 1e-15 * nn[k - 2], "stopped-unsettled@variational", [&] { return std::to_string(k) + " of " + std::to_string(sweeps) + " sweeps, norms " + vmon::join(nn) + " tolerance " + str(conv) + " " + cx; }); m.count("variational_settled"); }
          m.check(nn.size() <= sweeps, "too-many-sweeps@variational", cx);
        }
        if (m.check(H::Shape(out, s, why), "shape@variational", [&] { return why + " " + cx; })) {
          R = X::DenseMpo((const O &) out); why = H::Honest(out); m.check(why.empty(), "canonical@variational", [&] { return why + " " + cx; }); m.check(out.GetCenter() == 1, "centre@variational", cx);
          m.check(bond(out) <= Dmax, "bond-limit@variational", cx); T pr = H::inner(R, P); double r2 = R.norm() * R.norm(), p2 = P.norm() * P.norm();
          m.check(std::abs(pr - T(r2)) < 1e-8 * p2, "projection@variational", [&] { return str(pr) + " and " + str(r2) + " " + cx; }); m.check(r2 < p2 * (1 + 1e-9), "norm-grew@variational", cx);
          if (lossless && guess <= 1) { double d = dist(R, P); m.check(d < 1e-6 * (1 + P.norm()), "value@variational", [&] { return str(d) + " of " + str(P.norm()) + " " + cx; }); m.count("variational_exact"); }
          else m.count("variational_projected");
          agree("operand", p, B, 1e-12); agree("operand", q, C, 1e-12);
        }
      }
      // square
      if (r.coin(0.5)) {
        O z = p; M Z = B; O z2(N); MpoProduct(z, z, z2); M S = Z * Z;
        if (S.norm() > 1e-2) { z2.Dump("init"); MpoVOptimizeParams par("init", 1, 400, 0.0, 4, 1e-13, "tmp"); bool nrm = r.coin(); std::string cs = (nrm ? "SquareAndNormlize " : "Square ") + k1 + " " + trail; m.at(cs);
          double x = 1; if (nrm) x = z.SquareAndNormlize(par); else z.Square(par);
          M G = X::DenseMpo((const O &) z) * T(x); double d = dist(G, S); m.check(d < 1e-6 * (1 + S.norm()), "square", [&] { return str(d) + " " + cs; }); if (nrm) m.check(std::abs(x - S.norm()) < 1e-6 * (1 + S.norm()), "square-norm", cs); std::string why = H::Honest(z); m.check(why.empty(), "canonical@square", [&] { return why + " " + cs; }); m.count("squares"); }
      }
    }
  }
  // ------------------------------------------------------------ exponential
  if (r.coin(0.5)) {
    MPOGenerator<T, QNT> g(sv); M Hm = X::RandHam(r, s, 1 + r.below(3), 2, g).H; O h(g.Gen(true, false)); M V = Hm; auto w = eigh(V); double hn = std::max(std::abs(w[0]), std::abs(w.back()));
    if (hn > 1e-3) {
      double tau = (0.05 + 1.2 * r.unit()) / hn; size_t order = 2 + r.below(14); double tolT = r.coin(0.7) ? 1e-13 : 1e-4; bool var = N >= 3 && r.coin(0.3); size_t Dmax = 0;
      if (var) { Dmax = 1; size_t dl = 1; for (size_t i = 0; i + 1 < N; ++i) { dl *= s[i].dim(); size_t dr = A.n / dl; Dmax = std::max(Dmax, std::min(dl * dl, dr * dr)); } } else Dmax = 4000;
      std::string ce = std::string("ExpFiniteMPO tau ") + str(tau) + " norm " + str(hn) + " order " + std::to_string(order) + " tol " + str(tolT) + " Dmax " + std::to_string(Dmax) + " " + trail; m.at(ce);
      if (!var || Dmax <= 16) {
        auto res = ExpFiniteMPO(h, tau, order, tolT, var ? 1e-18 : 1e-16, 1, Dmax, 8, 1e-13, std::string("exp"), std::string("tmp"));
        std::string why; if (m.check(H::Shape(res.second, s, why), "shape@exponential", [&] { return why + " " + ce; })) {
          M G = X::DenseMpo((const O &) res.second); m.check(std::abs(G.norm() - 1) < 1e-8, "exponential-normalized", ce); why = H::Honest(res.second); m.check(why.empty(), "canonical@exponential", [&] { return why + " " + ce; });
          m.check(bond(res.second) <= Dmax, "bond-limit@exponential", [&] { return std::to_string(bond(res.second)) + " " + ce; });
          G = G * T(res.first); M term = M::Id(A.n), sum = term; double best = 1e300, bestx = 1e300; size_t lo = 0; std::vector<M> part{sum};
          for (size_t k = 1; k < order; ++k) { term = term * Hm * T(-tau / k); sum = sum + term; part.push_back(sum); }
          for (size_t k = 0; k < part.size(); ++k) { double d = dist(G, part[k]); if (d < best) { best = d; lo = k; } }
          M E(A.n); { auto ex = expm(Hm, cd(-tau, 0)); for (size_t i = 0; i < ex.a.size(); ++i) { if constexpr (std::is_same_v<T, double>) E.a[i] = ex.a[i].real(); else E.a[i] = ex.a[i]; } }
          bestx = dist(G, E); double rem = 0, t = 1; for (size_t k = 1; k < 60; ++k) { t *= tau * hn / k; if (k >= order) rem += t; } rem *= std::sqrt((double) A.n); double acc = var ? 2e-3 : 2e-6; /* the compressed product converges slowly */ double allow = rem + acc * E.norm(); if (tolT > 1e-6) allow += tolT * 10 * A.n;
          m.check(bestx < allow, "exponential", [&] { return str(bestx) + " of " + str(E.norm()) + " allowed " + str(allow) + " nearest partial sum " + std::to_string(lo) + " at " + str(best) + " " + ce; });
          m.check(best < acc * E.norm() + (tolT > 1e-6 ? 0.0 : 10 * tolT * A.n), "exponential-partial-sum", [&] { return str(best) + " from order " + std::to_string(lo) + " " + ce; });
          if (tolT < 1e-6 && !var) m.check(lo + 1 == order || rem < 1e-5 * E.norm() || best < 1e-9 * E.norm() + dist(part[order - 1], part[lo]), "exponential-order", [&] { return std::to_string(lo) + " " + ce; });
          m.count(var ? "exponentials_compressed" : "exponentials");
        }
        for (auto &d : ListDir(".")) if (d.compare(0, 4, "exp_") == 0) Wipe(d);
        // a limit that really cuts: the limit, the norm and the flags still hold
        size_t full = bond(res.second);
        if (N >= 3 && full > 3 && r.coin(0.5)) {
          size_t D2 = 2 + r.below(full - 2); std::string c2 = ce + " limit " + std::to_string(D2); m.at(c2);
          auto cut = ExpFiniteMPO(h, tau * 0.3, order, tolT, 1e-16, 1, D2, 4, 1e-10, std::string("exp"), std::string("tmp"));
          std::string w2; if (m.check(H::Shape(cut.second, s, w2), "shape@limited-exponential", [&] { return w2 + " " + c2; })) {
            M G2 = X::DenseMpo((const O &) cut.second); m.check(bond(cut.second) <= D2, "bond-limit@exponential", [&] { return std::to_string(bond(cut.second)) + " " + c2; });
            m.check(std::abs(G2.norm() - 1) < 1e-8, "exponential-normalized", c2); w2 = H::Honest(cut.second); m.check(w2.empty(), "canonical@exponential", [&] { return w2 + " " + c2; }); m.count("exponentials_limited"); }
          for (auto &d : ListDir(".")) if (d.compare(0, 4, "exp_") == 0) Wipe(d);
        }
      }
    }
  }
  }
  m.check(tensor_stats().live == live0, "tensors-left", [&] { return std::to_string(tensor_stats().live - live0); });
  Wipe("mpo"); Wipe("init"); Wipe("tmp");
}
int main(int argc, char **argv) {
  QuietCout q;
  return vmon::run(argc, argv, "p18", [](size_t c, Rng &r, Mon &m) {
    switch (c % 5) { case 0: Case<double, special_qn::U1QN>(c, r, m); break; case 1: Case<cd, special_qn::U1QN>(c, r, m); break; case 2: Case<double, special_qn::TrivialRepQN>(c, r, m); break;
      case 3: Case<cd, special_qn::TrivialRepQN>(c, r, m); break; default: Case<double, special_qn::U1U1QN>(c, r, m); } });
}
