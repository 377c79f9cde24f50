// P27: initial states.
#include "tn.h"
template<typename T, typename QNT> void Body(size_t c, Rng &r, Mon &m) {
  using X = TN<T, QNT>; using MPSt = FiniteMPS<T, QNT>;
  size_t N = 2 + r.below(7);
  auto s = X::RandSites(r, N, 4, 600); SiteVec<T, QNT> sv(s); std::string desc = X::Desc(s);
  MPSt mps(sv);
  int pre = (int) r.below(3);                        // over an empty, a random, or a centred other state
  if (pre) { X::RandMps(r, mps, s, 3, 2); if (X::Scale(mps, 2.0) == 0) return; if (pre == 2) mps.Centralize((int) r.below(N)); }
  auto conf = X::RandConf(r, s); QNT Q = X::ConfQ(s, conf);
  auto common = [&](const std::string &k, const std::vector<size_t> *cf, const QNT &q) {
    { const MPSt &e = mps; auto &l = e[0].GetIndex(0); auto &rr = e[N - 1].GetIndex(2);     // the chain is closed by trivial legs
      m.check(l.dim() == 1 && rr.dim() == 1 && l.GetQNSct(0).GetQn() == QNT() && rr.GetQNSct(0).GetQn() == QNT() && l.GetDir() == TenIndexDirType::IN && rr.GetDir() == TenIndexDirType::OUT, k + "-boundary", desc); m.count("boundaries"); }
    std::string why; m.check(X::BondsMatch(mps, s, why), k + "-bonds", [&] { return why + desc; });
    m.check(X::TotalDiv(mps) == q, k + "-charge", [&] { return qstr(X::TotalDiv(mps)) + desc; });
    int gc = mps.GetCenter(); m.check(gc == 0 || (!cf && gc == kUncentralizedCenterIdx), k + "-center", [&] { return std::to_string(gc); });
    const MPSt &km = mps; m.check(X::CanonErr(km, 0) < 1e-9, k + "-canonical");
    Vec<T> v = X::Dense(mps); m.check(std::abs(v.norm() - 1) < 1e-10, k + "-norm", [&] { return str(v.norm()); });
    for (size_t i = 0; i < v.n(); ++i) if (std::abs(v.a[i]) > 1e-12) { if (!m.check(X::ConfQ(s, X::Unrank(s, i)) == q, k + "-sector", desc)) break; }
    if (cf) { Vec<T> w(v.n()); w.a[X::Rank(s, *cf)] = T(1); m.check(dist(v, w) < 1e-12, k + "-vector", [&] { return str(dist(v, w)) + " " + vmon::join(*cf) + desc; });
      for (size_t i = 0; i < N; ++i) m.check(km[i].GetShape()[0] == 1 && km[i].GetShape()[2] == 1, k + "-bond-size"); }
    return v;
  };
  desc += " conf " + vmon::join(conf) + " pre" + std::to_string(pre);
  int what = (int) r.below(4);
  if (what == 0) { m.at("DirectStateInitMps " + desc); DirectStateInitMps(mps, conf); common("product", &conf, Q); m.count("products"); 
    const MPSt &km = mps; m.check(km[0].Div() == Q, "product-charge-site0"); }
  else if (what == 1) { m.at("DirectStateInitZeroDivMps " + desc); DirectStateInitZeroDivMps(mps, conf); common("zero-div-product", &conf, Q); m.count("zero_div_products");
    const MPSt &km = mps; for (size_t i = 0; i + 1 < N; ++i) m.check(km[i].Div() == QNT(), "zero-div-product-fluxes", desc); if (Q == QNT()) { m.check(km[N - 1].Div() == QNT(), "zero-div-product-fluxes", desc); m.count("neutral"); } }
  else {
    std::vector<std::vector<size_t>> set{conf}; size_t want = 1 + r.below(4); auto sec = X::Sector(s, Q);
    while (set.size() < want) set.push_back(X::Unrank(s, r.pick(sec)));
    size_t D = 1 + r.below(5);
    m.at("ExtendDirectRandomInitMps " + desc); ExtendDirectRandomInitMps(mps, set, D);
    auto v = common("random", nullptr, Q); m.count("random_states");
    const MPSt &km = mps; for (size_t i = 0; i + 1 < N; ++i) m.check(km[i].GetShape()[2] <= set.size() * D, "random-bond-limit", [&] { return std::to_string(km[i].GetShape()[2]) + " > " + std::to_string(set.size() * D); });
    for (auto &cf : set) m.check(std::abs(v.a[X::Rank(s, cf)]) > 1e-13, "random-misses-configuration", [&] { return vmon::join(cf) + desc; });
    if (set.size() > 1) m.count("superpositions");
    // twice the same request: two different states
    if (sec.size() > 3 && D > 1 && set.size() > 1) { MPSt o(sv); ExtendDirectRandomInitMps(o, set, D); Vec<T> w = X::Dense(o); if (std::abs(w.dot(v)) > 1 - 1e-9) m.count("same_twice"); else m.count("different_twice"); }
    desc += " D" + std::to_string(D) + "x" + std::to_string(set.size());
  }
  // what was initialized is an ordinary state
  Vec<T> v = X::Dense(mps); int k = (int) r.below(N); m.at("centralize-initial"); mps.Centralize(k);
  m.check(dist(X::Dense(mps), v) < 1e-10 && X::CanonErr(mps, k) < 1e-9, "initial-state-centralize", desc);
  m.distinct(vmon::hash_str(desc)); if (c % 61 == 0) m.sample(desc);
}
template<typename T, typename QNT> void Case(size_t c, Rng &r, Mon &m) {
  long before = tensor_stats().live; Body<T, QNT>(c, r, m);
  m.check(tensor_stats().live == before, "initializer-leaks", [&] { return std::to_string(tensor_stats().live - before) + " tensors"; });
}
int main(int argc, char **argv) {
  QuietCout q;
  return vmon::run(argc, argv, "p27", [](size_t c, Rng &r, Mon &m) {
    srand((unsigned) r.next());
    switch (c % 4) {
      case 0: Case<double, special_qn::U1QN>(c, r, m); break;
      case 1: Case<cd, special_qn::U1U1QN>(c, r, m); break;
      case 2: Case<cd, special_qn::TrivialRepQN>(c, r, m); break;
      default: Case<cd, special_qn::U1QN>(c, r, m);
    }
  });
}
