// P13: the MPO the generator returns, against the sum of Kronecker products of the terms it was given.
#include "tn.h"
template<typename T, typename QNT> void Case(size_t c, Rng &r, Mon &m) {
  using X = TN<T, QNT>; using Ten = typename X::Ten;
  size_t N = 2 + r.below(vmon::thorough() ? 6 : 5);
  auto s = X::RandSites(r, N, 4, vmon::thorough() ? 200 : 100);
  SiteVec<T, QNT> sv(s);
  std::string desc = X::Desc(s);
  m.at("construct");
  // site vectors hold the spaces they were given, copied or assigned
  auto sites = [&](const SiteVec<T, QNT> &v, const std::vector<qlten::Index<QNT>> &w, const char *how) {
    bool ok = v.size == w.size() && v.sites.size() == w.size() && v.id_ops.size() == w.size();
    for (size_t i = 0; ok && i < w.size(); ++i) {
      ok = v.sites[i] == w[i] && v.sites[i].GetDir() == TenIndexDirType::OUT && v.id_ops[i].GetIndexes().size() == 2 && v.id_ops[i].GetIndex(0) == InverseIndex(w[i]) && v.id_ops[i].GetIndex(1) == w[i];
      for (size_t a = 0; ok && a < w[i].dim(); ++a) for (size_t b = 0; b < w[i].dim(); ++b) ok = ok && v.id_ops[i].GetElem({a, b}) == T(a == b ? 1.0 : 0.0);
    }
    m.check(ok, std::string("site-vector-") + how, desc); m.count("site_vectors");
  };
  { auto in = s; for (auto &i : in) if (r.coin(0.3)) i = InverseIndex(i);   // given with either direction
    SiteVec<T, QNT> a(in); sites(a, s, "made");
    auto s2 = X::RandSites(r, 1 + r.below(4), 4, 100); SiteVec<T, QNT> b(s2), u(N, in[0]); sites(b, s2, "made");
    m.check((a == b) == (s == s2) && (a != b) == (s != s2), "site-vector-equality", desc);
    sites(u, std::vector<qlten::Index<QNT>>(N, s[0]), "uniform");
    SiteVec<T, QNT> cpy(a); b = a; sites(b, s, "assigned"); sites(cpy, s, "copied"); sites(a, s, "source");
    m.check(a == b && !(a != b) && cpy == a, "site-vector-equality", desc);
    if (r.coin()) sv = b; sites(sv, s, "assigned"); }
  MPOGenerator<T, QNT> g = r.coin() ? MPOGenerator<T, QNT>(sv) : MPOGenerator<T, QNT>(sv, QNT());
  Mat<T> H(X::Dim(s)); double scale = 0; size_t nterm = 0;
  const double unit = r.coin(0.8) ? 1.0 : r.coin() ? 1e-10 : 1e7;    // the scale of all coefficients
  const int style = (int) r.below(3); std::vector<T> used;           // coefficients: as drawn, few plain numbers, repeats
  auto Coef = [&](T x) {
    if (style == 1 || (style == 2 && r.coin(0.3))) { static const double nice[] = {1, -1, 1, 2, 0.5, -0.5, -2, 1}; x = T(nice[r.below(8)]); m.count("plain_coefficients"); }
    else if (style == 2 && !used.empty() && r.coin(0.6)) { x = r.pick(used); if (r.coin(0.2)) x = -x; m.count("repeated_coefficients"); }
    used.push_back(x); return x * T(unit);
  };
  std::vector<Mat<T>> pool; std::vector<typename X::Term> added;
  auto op = [&](const Mat<T> &a, size_t i) { return X::MatToOp(s[i], a); };
  auto note = [&](const Mat<T> &d, const char *how) { H = H + d; scale += d.norm() + 1e-3 * unit; ++nterm; m.count(how); desc += std::string(" ") + how; };
  auto addOne = [&]() {
    typename X::Term t;
    int how = (int) r.below(10);
    if (how == 0 && !added.empty()) {                      // the same operators again: repeated, opposite sign, scaled or another coefficient
      t = r.pick(added); int k = (int) r.below(4);
      if (k == 1) { size_t j = r.below(t.ops.size()); t.ops[j] = t.ops[j] * T(-1.0); }
      if (k == 2) { size_t j = r.below(t.ops.size()); t.ops[j] = t.ops[j] * T(r.coin() ? 2.0 : -0.5); }
      if (k == 3) t.coef = Coef(rnds<T>(r) + T(1.5));
      X::Add(g, s, t); note(X::DenseTerm(s, t), "again"); return;
    }
    if (how == 1) {                                        // one-body form
      size_t i = r.below(N); t.at = {i}; t.ops = {X::RandOp(r, s[i], QNT(), (int) r.below(3))}; t.coef = Coef(rnds<T>(r) + T(1.2));
      if (t.ops[0].norm() < 1e-3) return;
      g.AddTerm(t.coef, op(t.ops[0], i), i); note(X::DenseTerm(s, t), "one_body"); added.push_back(t); return;
    }
    if (how <= 4) {                                        // two physical operators, with or without a string between them
      if (!X::RandTerm(r, s, 2, t) || t.at.size() != 2) return;
      t.coef = Coef(t.coef);
      size_t i = t.at[0], j = t.at[1]; Ten A = op(t.ops[0], i), B = op(t.ops[1], j);
      if (how == 2) {
        if (r.coin(0.3) && i != 0) { g.AddTerm(t.coef, B, j, A, i); note(X::DenseTerm(s, t), "two_body_reversed"); }
        else { g.AddTerm(t.coef, A, i, B, j); note(X::DenseTerm(s, t), "two_body"); }
        added.push_back(t); return;
      }
      // the string must be one tensor that fits every site it is inserted at
      std::vector<size_t> fit; for (size_t k = 0; k < N; ++k) if (k != i && k != j && (fit.empty() || s[k] == s[fit[0]])) fit.push_back(k);
      bool uniform_ok = true; for (size_t k = i + 1; k < j; ++k) uniform_ok = uniform_ok && s[k] == s[i + 1];
      if (how == 3 && j > i + 1 && uniform_ok) {
        Mat<T> z = X::RandOp(r, s[i + 1], QNT(), (int) r.below(3)); if (z.norm() < 1e-3) return;
        for (size_t k = i + 1; k < j; ++k) { t.ops.push_back(z); t.at.push_back(k); }
        g.AddTerm(t.coef, A, i, B, j, op(z, i + 1)); note(X::DenseTerm(s, t), "two_body_string"); return;
      }
      if (how == 4 && !fit.empty()) {
        Mat<T> z = X::RandOp(r, s[fit[0]], QNT(), (int) r.below(3)); if (z.norm() < 1e-3) return;
        std::vector<size_t> at; for (auto k : fit) if (r.coin()) at.push_back(k);
        if (at.empty()) at.push_back(fit[0]);
        for (auto k : at) { t.ops.push_back(z); t.at.push_back(k); }
        g.AddTerm(t.coef, A, i, B, j, op(z, fit[0]), at); note(X::DenseTerm(s, t), "two_body_chosen_string"); return;
      }
      g.AddTerm(t.coef, A, i, B, j); note(X::DenseTerm(s, t), "two_body"); return;
    }
    if (how <= 6) {                                        // several physical operators with strings in every gap, tail string included
      if (!X::RandTerm(r, s, 4, t) || t.at.size() < 2) return;
      t.coef = Coef(t.coef);
      bool uni = true; for (size_t k = 0; k < N; ++k) uni = uni && s[k] == s[0];
      if (!uni) return;
      size_t p = t.at.size(); bool tail = r.coin(); std::vector<Ten> phys, inst; auto at = t.at; std::vector<std::vector<size_t>> where; bool explicit_ = r.coin(0.4);
      for (size_t k = 0; k < p; ++k) phys.push_back(op(t.ops[k], t.at[k]));
      for (size_t k = 0; k < p - 1 + tail; ++k) {
        Mat<T> z = X::RandOp(r, s[0], QNT(), (int) r.below(3)); if (z.norm() < 1e-3) return;
        inst.push_back(op(z, 0)); where.emplace_back();
        size_t end = k + 1 < p ? at[k + 1] : N;
        for (size_t q = at[k] + 1; q < end; ++q) if (!explicit_ || r.coin(0.7)) { t.ops.push_back(z); t.at.push_back(q); where.back().push_back(q); }
      }
      if (explicit_) g.AddTerm(t.coef, phys, at, inst, where); else g.AddTerm(t.coef, phys, at, inst);
      note(X::DenseTerm(s, t), tail ? "strings_with_tail" : "strings"); if (tail && !explicit_ && at.back() + 1 < N) m.count("implicit_tails"); return;
    }
    if (!X::RandTerm(r, s, how == 7 ? N : 3, t)) return;
    t.coef = Coef(t.coef);
    if (how == 8) {                                        // sites in any order
      std::vector<size_t> p(t.at.size()); std::iota(p.begin(), p.end(), 0); for (size_t i = 0; i < p.size(); ++i) std::swap(p[i], p[i + r.below(p.size() - i)]);
      auto u = t; for (size_t i = 0; i < p.size(); ++i) { u.at[i] = t.at[p[i]]; u.ops[i] = t.ops[p[i]]; } t = u;
      X::Add(g, s, t); note(X::DenseTerm(s, t), "unsorted"); added.push_back(t); return;
    }
    if (how == 9 && r.coin(0.3)) { auto z = t; z.coef = T(0); X::Add(g, s, z); m.count("zero_coefficient"); return; }
    X::Add(g, s, t); note(X::DenseTerm(s, t), "many_body"); added.push_back(t);
  };
  // families with much structure to compress, besides random lists
  int fam = (int) r.below(4);
  m.at("add");
  if (fam == 0) {
    typename X::Term t; if (X::RandTerm(r, s, 2, t, 1)) {
      t.coef = Coef(t.coef);
      bool uni = true; for (size_t k = 0; k < N; ++k) uni = uni && s[k] == s[0];
      if (uni && t.at.size() == 2) for (size_t i = 0; i < N; ++i) for (size_t j = i + 1; j < N; ++j) { auto u = t; u.at = {i, j}; if (r.coin(0.3)) u.coef = Coef(rnds<T>(r) + T(1.1)); X::Add(g, s, u); note(X::DenseTerm(s, u), "all_to_all"); }
    }
  }
  size_t want = 1 + r.below(fam == 1 ? 14 : 6);
  for (size_t i = 0; i < want; ++i) addOne();
  if (nterm == 0) { typename X::Term t; t.at = {r.below(N)}; t.ops = {X::RandHermOp(r, s[t.at[0]])}; t.coef = T(0.7 * unit); X::Add(g, s, t); note(X::DenseTerm(s, t), "one_body"); }
  auto judge = [&](const std::string &what) {
    for (int form = 0; form < 3; ++form) {
      const char *nm = form == 0 ? "compressed" : form == 1 ? "plain" : "matrix_form";
      m.at(std::string("gen-") + nm + " " + what);
      Mat<T> D; 
      if (form == 2) {
        auto mr = g.GenMatReprMPO(r.coin(0.1));
        m.check(mr.size() == N, "matrix-form-size");
        D = X::DenseMatRepr(s, mr);
        for (size_t i = 0; i < N; ++i) m.check(mr[i].cols == (i + 1 < N ? mr[i + 1].rows : 1), "matrix-form-bond");
      } else {
        auto mpo = g.Gen(form == 0, r.coin(0.1));
        m.check(mpo.size() == N, "mpo-size");
        for (size_t i = 0; i < N; ++i) {
          const Ten &t = mpo[i];
          m.check(t.GetIndex(1) == InverseIndex(s[i]) && t.GetIndex(2) == s[i], "physical-index", desc);
          m.check(i + 1 == N ? t.GetShape()[3] == 1 : t.GetIndex(3) == InverseIndex(mpo[i + 1].GetIndex(0)), "bond", desc);
          if (i == 0) m.check(t.GetShape()[0] == 1 && t.GetIndex(0).GetDir() == TenIndexDirType::IN, "boundary", desc);
          if (i + 1 == N) m.check(t.GetIndex(3).GetDir() == TenIndexDirType::OUT, "boundary", desc);
          m.check(t.Div() == QNT(), "divergence", desc);
          if (t.GetShape()[3] > 2) m.count("bonds_over_two");
        }
        D = X::DenseMpo(mpo);
      }
      double e = dist(D, H);
      m.check(e <= 1e-11 * (scale + 1e-3 * unit), std::string("wrong-operator-") + nm, [&] { return "distance " + str(e) + " of norm " + str(H.norm()) + " sites " + desc; });
    }
  };
  judge("first");
  if (r.coin(0.5)) { for (int i = 0; i < 3; ++i) addOne(); judge("after-more-terms"); m.count("extended"); }
  m.count("terms", nterm); if (unit != 1) m.count("scaled_lists");
  if (nterm > 1) m.distinct(vmon::hash_str(desc + str(H.norm())));
  if (c % 97 == 0) m.sample(desc);
}
int main(int argc, char **argv) {
  QuietCout q;
  return vmon::run(argc, argv, "p13", [](size_t c, Rng &r, Mon &m) {
    switch (c % 4) {
      case 0: Case<double, special_qn::U1QN>(c, r, m); break;
      case 1: Case<cd, special_qn::U1U1QN>(c, r, m); break;
      case 2: Case<double, special_qn::TrivialRepQN>(c, r, m); break;
      default: Case<cd, special_qn::U1QN>(c, r, m);
    }
  });
}
