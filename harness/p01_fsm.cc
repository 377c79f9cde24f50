// P01: matrices generated by the finite state machine multiply out to the formal sum of the added terms.
#include "symb.h"
using namespace symb;
using vmon::Mon;

static void check_mats(Mon &m, const Problem &p, const SparOpReprMatVec &mats, const std::string &which,
                       const std::vector<Point> &pts) {
  if (!m.check(mats.size() == p.n, which + "/site-count", [&] { return str(p); })) return;
  bool shape = mats[0].rows == 1 && mats[p.n - 1].cols == 1;
  for (size_t i = 0; i + 1 < p.n; ++i) shape = shape && mats[i].cols == mats[i + 1].rows;
  if (!m.check(shape, which + "/bond-mismatch", [&] { return str(p); })) return;
  for (auto &pt : pts) {
    Mat v(1, std::vector<Fp>(1, Fp(1)));
    for (size_t i = 0; i < p.n; ++i) v = mul(v, eval(mats[i], i, pt), mats[i].rows);
    bool ok = v[0][0] == eval_terms(p.terms, p.id, pt);
    if (!m.check(ok, which + "/wrong-sum/" + p.family, [&] {
          std::string s = str(p) + " got ";
          for (auto &x : mats) s += show(x) + " ";
          return s; })) return;
  }
}

int main(int argc, char **argv) {
  return vmon::run(argc, argv, "p01", [](size_t c, Rng &r, Mon &m) {
    Problem p = gen_problem(r, c, vmon::thorough() ? c % 3 == 0 : c % 17 == 0);
    std::vector<Point> pts{Point(r.next()), Point(r.next())};
    m.at("add " + str(p).substr(0, 300));
    FSM fsm = make_fsm(p);
    // interleave generation with adding: generating must not disturb the machine, and prefixes must be right too
    size_t cut = r.coin(0.3) ? 1 + r.below(p.terms.size()) : p.terms.size();
    Problem q = p;
    q.terms.assign(p.terms.begin(), p.terms.begin() + (long) cut);
    for (auto &t : q.terms) fsm.AddPath(t.head, t.tail(), t.reprs());
    if (cut < p.terms.size()) {
      check_mats(m, q, fsm.GenMatRepr(), "plain-prefix", pts);
      check_mats(m, q, fsm.GenCompressedMatRepr(), "compressed-prefix", pts);
      for (size_t i = cut; i < p.terms.size(); ++i) fsm.AddPath(p.terms[i].head, p.terms[i].tail(), p.terms[i].reprs());
      m.count("prefixes");
    }
    m.at("plain " + str(p).substr(0, 300));
    auto plain = fsm.GenMatRepr();
    check_mats(m, p, plain, "plain", pts);
    m.at("compress " + str(p).substr(0, 300));
    auto comp = fsm.GenCompressedMatRepr(r.coin(0.05));
    check_mats(m, p, comp, "compressed", pts);
    size_t b0 = 0, b1 = 0;
    for (size_t i = 0; i + 1 < p.n && i + 1 < comp.size(); ++i) {
      b0 += plain[i].cols; b1 += comp[i].cols;
      m.check(comp[i].cols <= plain[i].cols, "compressed/larger-bond", [&] { return str(p); });
    }
    m.count("bonds_plain", (long) b0); m.count("bonds_compressed", (long) b1);
    // the paths the machine recorded
    auto paths = fsm.GetFSMPaths();
    bool ok = paths.size() == p.terms.size();
    for (size_t k = 0; ok && k < paths.size(); ++k) {
      auto reprs = p.terms[k].reprs();
      for (size_t s = 0; s < p.n; ++s) {
        bool in = s >= p.terms[k].head && s <= p.terms[k].tail();
        ok = ok && paths[k].op_reprs.at(s) == (in ? reprs[s - p.terms[k].head] : OpRepr(p.id[s]));
      }
    }
    m.check(ok, "paths/wrong", [&] { return str(p); });
    // the nodes they run through: ready before the string, final after it, states of their own inside
    std::string bad; std::map<std::pair<size_t, long>, size_t> own;
    for (size_t k = 0; k < paths.size() && ok && bad.empty(); ++k) for (size_t s = 0; s <= p.n; ++s) {
      FSMNode nd = paths[k].Node(s); long want = s <= p.terms[k].head ? 0 : s > p.terms[k].tail() ? -1 : 1;
      if (nd.Site() != s || (want < 1 ? nd.Stat() != want : nd.Stat() < 1) || !(nd == paths[k].fsm_nodes.at(s))) { bad = "path " + std::to_string(k) + " node " + std::to_string(s) + " says site " + std::to_string(nd.Site()) + " state " + std::to_string(nd.Stat()); break; }
      if (want == 1 && !own.emplace(std::make_pair(s, nd.Stat()), k).second) { bad = "state shared at " + std::to_string(s); break; }
      m.count("nodes"); }
    m.check(bad.empty(), "paths/nodes", [&] { return bad + " " + str(p); });
    m.check(fsm.phys_size() == p.n && fsm.fsm_size() == p.n + 1, "size");
    m.count("terms", (long) p.terms.size());
    m.count("family_" + p.family);
    if (b1 < b0) m.count("really_compressed");
    if (p.terms.size() > 1 && p.n > 1) m.distinct(vmon::hash_str(str(p)));
    if (c < 40 && c % 7 == 0) m.sample(str(p) + " bonds " + std::to_string(b0) + "->" + std::to_string(b1));
  });
}
