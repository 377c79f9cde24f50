// P08: what is dumped is read back bit for bit; missing, damaged and unwritable files are reported.
#include "tn.h"
#include "qlmps/one_dim_tn/mpo/finite_mpo/finite_mpo.h"
#include "qlmps/algorithm/dmrg/operator_io.h"
#include <fcntl.h>
template<typename F> bool Throws(F f) { try { f(); return false; } catch (const std::exception &) { return true; } }
template<typename T, typename QNT> void Case(size_t c, Rng &r, Mon &m) {
  using X = TN<T, QNT>; using MPSt = FiniteMPS<T, QNT>; using Ten = typename X::Ten; using MPOt = FiniteMPO<T, QNT>;
  size_t N = 2 + r.below(9);                       // two-digit file names included
  auto s = X::RandSites(r, N, 3, 1500); SiteVec<T, QNT> sv(s); std::string desc = X::Desc(s);
  mkdir("in", 0755); mkdir("in/ner", 0755);
  std::string dir = r.pick(std::vector<std::string>{"mps", "in/state", "./in/ner/deep", kMpsPath, "a b.c", "in/ner/../x1"});
  if (r.coin(0.3)) mkdir(dir.c_str(), 0755);
  auto randTen = [&]() { size_t i = r.below(N); Ten t({InverseIndex(s[i]), s[i], X::RandSite(r, 3)}); auto q0 = t.GetIndex(0).Qns(), q1 = t.GetIndex(1).Qns(), q2 = t.GetIndex(2).Qns(); QNT d = q1[0] - q0[0] + q2[0];
    for (size_t a = 0; a < q0.size(); ++a) for (size_t b = 0; b < q1.size(); ++b) for (size_t e = 0; e < q2.size(); ++e) if (q1[b] - q0[a] + q2[e] == d) t({a, b, e}) = rnds<T>(r) * T(std::pow(10.0, r.range(-300, 300))); return t; };
  { // ------------------------------------------------ states
    MPSt mps(sv); X::RandMps(r, mps, s, 4, 1 + r.below(4)); if (r.coin()) if (X::Scale(mps, 1.0) != 0) mps.Centralize((int) r.below(N));
    MPSt ref(mps); int how = (int) r.below(6); m.at("mps how=" + std::to_string(how) + " dir=" + dir);
    auto same = [&](const MPSt &x, const std::string &k) { bool ok = x.size() == N; for (size_t i = 0; i < N && ok; ++i) ok = x(i) != nullptr && x[i].Identical(static_cast<const MPSt &>(ref)[i]); m.check(ok, k, [&] { return "dir " + dir + " how " + std::to_string(how) + " " + desc; }); m.count("states_read"); };
    bool rel = false;
    if (how == 0) { const MPSt &k = mps; k.Dump(dir); }
    else if (how == 1) mps.Dump(dir, false);
    else if (how == 2) { mps.Dump(dir, true); rel = true; }
    else { if (!IsPathExist(dir)) CreatPath(dir); std::vector<size_t> ord(N); std::iota(ord.begin(), ord.end(), 0); for (size_t i = 0; i < N; ++i) std::swap(ord[i], ord[i + r.below(N - i)]);
      for (auto i : ord) { bool one = r.coin(); if (how == 3) mps.DumpTen(dir, i); else if (how == 4) { mps.DumpTen(i, GenMPSTenName(dir, i), one); if (one) m.check(static_cast<const MPSt &>(mps)(i) == nullptr, "release"); else m.check(static_cast<const MPSt &>(mps)[i].Identical(static_cast<const MPSt &>(ref)[i]), "kept"); } else { const MPSt &k = mps; k.TenVec<Ten>::DumpTen(i, GenMPSTenName(dir, i)); } } }
    if (rel) for (size_t i = 0; i < N; ++i) m.check(static_cast<const MPSt &>(mps)(i) == nullptr, "release-all");
    if (how < 2) { bool ok = true; for (size_t i = 0; i < N; ++i) ok = ok && static_cast<const MPSt &>(mps)[i].Identical(static_cast<const MPSt &>(ref)[i]); m.check(ok, "dump-changed-state"); }
    std::vector<std::string> want; for (size_t i = 0; i < N; ++i) want.push_back("mps_ten" + std::to_string(i) + ".qlten");
    std::sort(want.begin(), want.end()); m.check(ListDir(dir) == want, "files", [&] { return vmon::join(ListDir(dir)); });
    MPSt back(sv); int pre = (int) r.below(3); if (pre == 1) X::RandMps(r, back, s, 2, 1); if (pre == 2) for (size_t i = 0; i < N; ++i) back.alloc(i);
    if (r.coin()) back.Load(dir); else for (size_t i = N; i-- > 0;) { if (r.coin()) back.LoadTen(dir, i); else back.LoadTen(i, GenMPSTenName(dir, i)); }
    same(back, "state-differs"); back.Load(dir); same(back, "state-differs-second-time");
    if (rel) { mps.Load(dir); same(mps, "state-differs-reloaded"); }
    // a second state over the first
    MPSt o(sv); X::RandMps(r, o, s, 4, 1 + r.below(3)); o.Dump(dir, false); MPSt b2(sv); b2.Load(dir); bool ok = true; for (size_t i = 0; i < N; ++i) ok = ok && static_cast<const MPSt &>(b2)[i].Identical(static_cast<const MPSt &>(o)[i]); m.check(ok, "overwritten-state-differs", dir);
    // damage: a missing file, then a truncated one, then one that is a directory
    size_t v = r.below(N); std::string f = GenMPSTenName(dir, v), all = ReadAll(f);
    m.at("damaged"); unlink(f.c_str()); m.check(Throws([&] { MPSt z(sv); z.Load(dir); }), "missing-file-accepted", f); m.check(Throws([&] { MPSt z(sv); if (r.coin()) z.LoadTen(dir, v); else z.LoadTen(v, f); }), "missing-file-accepted", f);
    for (int t = 0; t < 6; ++t) { size_t cut = t == 0 ? 0 : t == 1 ? all.size() - 1 : r.below(all.size()); { std::ofstream of(f, std::ios::binary); of.write(all.data(), cut); }
      m.at("truncated at " + std::to_string(cut) + " of " + std::to_string(all.size()));
      m.check(Throws([&] { MPSt z(sv); z.LoadTen(v, f); }), "truncated-file-accepted", [&] { return std::to_string(cut) + " of " + std::to_string(all.size()) + " bytes"; });
      if (t == 2) m.check(Throws([&] { MPSt z(sv); z.Load(dir); }), "truncated-state-accepted");
      Ten q; bool got = true; try { got = ReadQLTensorFromFile(q, f); } catch (const std::exception &) { got = false; } m.check(!got, "truncated-tensor-accepted", [&] { return std::to_string(cut) + " of " + std::to_string(all.size()); }); m.count("truncated_reads"); }
    { std::ofstream of(f, std::ios::binary); of.write(all.data(), all.size()); } MPSt z(sv); z.Load(dir); m.check(static_cast<const MPSt &>(z)[v].Identical(static_cast<const MPSt &>(o)[v]), "restored");
    // a file that cannot be written completely: the dump says so, and nothing in memory is lost
    m.at("unwritable"); int uw = (int) r.below(3); unlink(f.c_str());
    if (uw == 0) { if (symlink("/dev/full", f.c_str()) != 0) _exit(71); } else if (uw == 1) { if (mkdir(f.c_str(), 0755) != 0) _exit(71); }
    std::string bad = uw == 2 ? dir + "/none/mps_ten0.qlten" : f; bool rl = r.coin(), thrown = Throws([&] { if (uw != 2 && r.coin()) o.Dump(dir, rl); else if (r.coin()) o.DumpTen(v, bad, rl); else if (r.coin()) { const MPSt &k = o; k.TenVec<Ten>::DumpTen(v, bad); } else WriteQLTensorTOFile(static_cast<const MPSt &>(o)[v], bad); });
    m.check(thrown, "unwritable-not-reported", [&] { return std::string(uw == 0 ? "device full" : uw == 1 ? "a directory is in the way" : "no such directory"); });
    m.check(static_cast<const MPSt &>(o)(v) != nullptr, "unwritable-lost-tensor"); m.count("unwritable");
    if (uw == 1) rmdir(f.c_str()); else unlink(f.c_str());
  }
  { // ------------------------------------------------ operators
    MPOGenerator<T, QNT> g(sv); X::RandHam(r, s, 1 + r.below(4), 3, g); auto mpo0 = g.Gen(); MPOt mpo(mpo0); if (r.coin()) mpo.Centralize((int) r.below(N)); MPOt ref(mpo);
    m.at("mpo"); std::string md = r.coin() ? "in/op" : kMpoPath; mpo.Dump(md); MPOt b(N); if (r.coin()) { b = mpo; b.Centralize((int) r.below(N)); }
    bool ok = b.Load(md); for (size_t i = 0; i < N && ok; ++i) ok = static_cast<const MPOt &>(b)[i].Identical(static_cast<const MPOt &>(ref)[i]);
    m.check(ok, "mpo-differs", md); m.check(b.GetCenter() == ref.GetCenter(), "mpo-center", [&] { return std::to_string(b.GetCenter()) + " not " + std::to_string(ref.GetCenter()); });
    auto fl = b.GetTensCanoType(); for (size_t i = 0; i < N; ++i) if (ref.GetCenter() < 0) m.check(fl[i] == MPOTenCanoType::NONE, "mpo-flags"); m.count("operators_read");
    m.check(!b.Load("in/nothing"), "missing-mpo-accepted");
    { unlink((md + "/center").c_str()); MPOt z(ref); bool okz = z.Load(md); for (size_t i = 0; i < N && okz; ++i) okz = static_cast<const MPOt &>(z)[i].Identical(static_cast<const MPOt &>(ref)[i]); auto fz = z.GetTensCanoType(); m.check(okz && z.GetCenter() < 0 && std::count(fz.begin(), fz.end(), MPOTenCanoType::NONE) == (long) N, "mpo-without-center-file");
      if (r.coin()) { if (symlink("/dev/full", (md + "/center").c_str()) != 0) _exit(71); m.check(Throws([&] { static_cast<const MPOt &>(ref).Dump(md); }), "unwritable-not-reported", "centre file"); unlink((md + "/center").c_str()); } }
    std::string f = GenMPOTenName(md, r.below(N)), all = ReadAll(f); { std::ofstream of(f, std::ios::binary); of.write(all.data(), r.below(all.size())); } m.check(Throws([&] { MPOt z(N); z.Load(md); }), "truncated-mpo-accepted");
    unlink(f.c_str()); m.check(Throws([&] { MPOt z(N); z.Load(md); }), "missing-mpo-tensor-accepted"); Wipe(md);
  }
  { // ------------------------------------------------ single tensors and block operator groups
    m.at("tensor-file"); Ten t = randTen(), q; WriteQLTensorTOFile(t, "t.qlten"); m.check(ReadQLTensorFromFile(q, "t.qlten") && q.Identical(t), "tensor-differs"); m.check(!ReadQLTensorFromFile(q, "absent.qlten"), "missing-tensor-accepted"); unlink("t.qlten");
    size_t n = 1 + r.below(12), len = r.below(N + 3); BlockOperatorGroup<Ten> gp(n), bk(n), b2(n); for (size_t i = 0; i < n; ++i) gp[i] = randTen();
    m.at("operator-group"); std::string rd = r.coin() ? "l" : "r"; mkdir("tmpg", 0755); WriteOperatorGroup(rd, len, gp, "tmpg"); m.check(ListDir("tmpg").size() == n, "group-files", [&] { return vmon::join(ListDir("tmpg")); });
    // other groups beside it do not interfere
    BlockOperatorGroup<Ten> g2(n); for (size_t i = 0; i < n; ++i) g2[i] = randTen(); WriteOperatorGroup(rd == "l" ? "r" : "l", len, g2, "tmpg"); WriteOperatorGroup(rd, len + 1, g2, "tmpg");
    bool ok = ReadOperatorGroup(rd, len, bk, "tmpg"); for (size_t i = 0; i < n && ok; ++i) ok = bk[i].Identical(gp[i]); m.check(ok, "group-differs"); m.check(ListDir("tmpg").size() == 3 * n, "group-read-removed-files");
    ok = ReadAndRemoveOperatorGroup(rd, len, b2, "tmpg"); for (size_t i = 0; i < n && ok; ++i) ok = b2[i].Identical(gp[i]); m.check(ok, "group-differs-removing"); m.check(ListDir("tmpg").size() == 2 * n, "group-not-removed", [&] { return vmon::join(ListDir("tmpg")); });
    BlockOperatorGroup<Ten> no(n); m.check(!ReadOperatorGroup(rd, len, no, "tmpg"), "missing-group-accepted");
    BlockOperatorGroup<Ten> ok2(n); bool o2 = ReadOperatorGroup(rd, len + 1, ok2, "tmpg"); for (size_t i = 0; i < n && o2; ++i) o2 = ok2[i].Identical(g2[i]); m.check(o2, "neighbour-group-differs");
    { std::string f = GenOpFileName(rd, len + 1, n - 1, "tmpg"); unlink(f.c_str()); BlockOperatorGroup<Ten> z(n); m.check(!ReadOperatorGroup(rd, len + 1, z, "tmpg"), "incomplete-group-accepted"); }
    Wipe("tmpg"); m.count("groups_read");
  }
  Wipe(dir == "in/ner/../x1" ? "in/x1" : dir); Wipe("in"); Wipe(dir);
  m.distinct(vmon::hash_str(desc + dir)); if (c % 41 == 0) m.sample(desc + dir);
}
int main(int argc, char **argv) {
  QuietCout q;
  return vmon::run(argc, argv, "p08", [](size_t c, Rng &r, Mon &m) {
    switch (c % 4) {
      case 0: Case<double, special_qn::U1QN>(c, r, m); break;
      case 1: Case<cd, special_qn::U1U1QN>(c, r, m); break;
      case 2: Case<double, special_qn::TrivialRepQN>(c, r, m); break;
      default: Case<cd, special_qn::U1QN>(c, r, m);
    }
  });
}
