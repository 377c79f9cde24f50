// P04: column and row compression keep the two-site product and never enlarge the bond.
#include "symb.h"
using namespace symb;
using vmon::Mon;

struct Obs { Mat prod; size_t lr, rc, bond; };
static Obs observe(const SparOpReprMat &L, const SparOpReprMat &R, const Point &pt) {
  return {mul(eval(L, 0, pt), eval(R, 1, pt), L.cols), L.rows, R.cols, L.cols};
}
// kind: 'c' column compression of L (follower R), 'r' row compression of R (follower L)
// number of different lines of the shared bond, lines whose entries all carry one coefficient compared without it
static size_t lines(const SparOpReprMat &a, bool cols) {
  std::set<std::string> seen; size_t n = cols ? a.cols : a.rows, k = cols ? a.rows : a.cols;
  for (size_t i = 0; i < n; ++i) {
    std::vector<OpRepr> v; for (size_t j = 0; j < k; ++j) v.push_back(cols ? a(j, i) : a(i, j));
    std::vector<long> c0; bool first = true, uni = true;
    auto sorted = [](const CoefRepr &c) { auto l = c.GetCoefLabelList(); std::vector<long> w(l.begin(), l.end()); std::sort(w.begin(), w.end()); return w; };
    for (auto &o : v) for (auto &c : o.GetCoefReprList()) { auto l = sorted(c); if (first) c0 = l, first = false; else uni = uni && l == c0; }
    std::string key; for (auto &o : v) { auto ls = o.GetOpLabelList(); auto cs = o.GetCoefReprList(); std::map<long, std::string> t; for (size_t x = 0; x < ls.size(); ++x) t[ls[x]] = uni ? "" : vmon::join(sorted(cs[x]), "+"); for (auto &e : t) key += std::to_string(e.first) + "*" + e.second + ","; key += "|"; }
    seen.insert(key);
  }
  return seen.size();
}
static bool step(Mon &m, char kind, SparOpReprMat &L, SparOpReprMat &R, const Point &pt, const std::string &ctx, size_t known = 0) {
  Obs a = observe(L, R, pt); size_t most = known ? known : lines(kind == 'c' ? L : R, kind == 'c');
  std::string before = show(L) + " * " + show(R);
  m.at(std::string(1, kind) + "-compress " + before.substr(0, 500));
  if (kind == 'c') SparOpReprMatColCompresser(L, R); else SparOpReprMatRowCompresser(R, L);
  std::string k = kind == 'c' ? "col" : "row";
  auto d = [&] { return ctx + ": " + before + " ==> " + show(L) + " * " + show(R); };
  if (!m.check(L.cols == R.rows, k + "/bond-mismatch", d)) return false;
  Obs b = observe(L, R, pt);
  bool ok = m.check(b.lr == a.lr && b.rc == a.rc, k + "/outer-bond", d);
  ok = m.check(b.bond <= a.bond, k + "/enlarged", d) && ok;
  ok = ok && m.check(a.prod == b.prod, k + "/product-changed", d);
  // what repeats, up to one coefficient for the whole line, is merged
  bool generated = known || ctx.compare(0, 9, "synthetic") != 0;     // as term lists make them
  if (a.bond > 1 && generated) { m.check(b.bond <= most, k + "/repeats-kept", [&] { return std::to_string(b.bond) + " lines, " + std::to_string(most) + " different: " + d(); }); if (most < a.bond) m.count(k + "_mergeable"); }
  m.count("bond_before", (long) a.bond); m.count("bond_after", (long) b.bond);
  if (b.bond < a.bond) m.count(k + "_reduced");
  return ok;
}

static OpRepr rnd_base(Rng &r, long nops) {
  OpRepr o(r.range(0, nops));
  if (r.coin(0.2)) { long l = r.range(0, nops); if (l != o.GetOpLabelList()[0]) o += OpRepr(l); }
  return o;
}
// the coefficient-carrying side: rows/columns proportional to each other, equal, or sums of others
static SparOpReprMat synth(Rng &r, size_t rows, size_t cols, bool by_col, bool with_coef) {
  SparOpReprMat s(rows, cols);
  long nops = r.range(1, 3), nc = r.range(1, 3);
  size_t n = by_col ? cols : rows, k = by_col ? rows : cols;
  std::vector<std::vector<OpRepr>> lines;
  for (size_t i = 0; i < n; ++i) {
    std::vector<OpRepr> v(k);
    int how = lines.empty() ? 0 : (int) r.below(5);
    if (how == 1 || how == 2) v = r.pick(lines);
    else if (how == 3 && lines.size() > 1) { auto &a = r.pick(lines); auto &b = r.pick(lines); for (size_t j = 0; j < k; ++j) v[j] = a[j] == OpRepr() ? b[j] : (b[j] == OpRepr() || !r.coin(0.5) ? a[j] : a[j]); }
    else for (size_t j = 0; j < k; ++j) if (r.coin(0.5)) v[j] = rnd_base(r, nops);
    lines.push_back(v);
  }
  for (size_t i = 0; i < n; ++i) {
    CoefRepr c = r.coin(0.5) ? kIdCoefRepr : CoefRepr((CNumberLabel) r.range(1, nc));
    if (r.coin(0.1)) c += CoefRepr((CNumberLabel) r.range(0, nc));
    for (size_t j = 0; j < k; ++j) {
      OpRepr o = lines[i][j];
      if (o == OpRepr()) continue;
      if (with_coef && r.coin(0.1)) { long l = r.range(0, nops); o = OpRepr(CoefRepr((CNumberLabel) r.range(0, nc)), l); o += OpRepr(CoefRepr((CNumberLabel) r.range(1, nc)), l + 1); }      // a sum whose parts carry coefficients of their own
      if (with_coef) { bool unit = true; for (auto &x : o.GetCoefReprList()) unit = unit && x == kIdCoefRepr; if (unit) o = CoefReprOpReprIncompleteMulti(c, o); }
      if (by_col) s.SetElem(j, i, o); else s.SetElem(i, j, o);
    }
  }
  return s;
}

// lines without common entries, and sums of them with one coefficient each, in any order; a line and its multiples
template<typename V> static void Mix(Rng &r, V &v) { for (size_t i = v.size(); i > 1; --i) std::swap(v[i - 1], v[r.below(i)]); }
static SparOpReprMat sums(Rng &r, bool by_col, size_t &bases) {
  size_t k = 2 + r.below(5), nb = 2 + r.below(std::min<size_t>(k, 4) - 1), ns = 1 + r.below(3); std::vector<size_t> owner(k);
  for (size_t j = 0; j < k; ++j) owner[j] = j < nb ? j : r.below(nb + 1);      // (nb: nobody's)
  Mix(r, owner);
  std::vector<OpRepr> base(k); long nops = r.range(1, 4); for (size_t j = 0; j < k; ++j) if (owner[j] < nb) base[j] = rnd_base(r, nops);
  std::vector<std::vector<CoefRepr>> w; for (size_t i = 0; i < nb; ++i) { std::vector<CoefRepr> z(nb, kNullCoefRepr); z[i] = kIdCoefRepr; w.push_back(z); }
  long nc = r.range(1, 3); for (size_t i = 0; i < ns; ++i) { std::vector<CoefRepr> z; size_t used = 0; for (size_t b = 0; b < nb; ++b) { z.push_back(r.coin(0.3) ? kNullCoefRepr : r.coin(0.3) ? kIdCoefRepr : CoefRepr((CNumberLabel) r.range(1, nc))); used += !(z.back() == kNullCoefRepr); } if (used) w.push_back(z); }
  Mix(r, w); bases = nb; size_t n = w.size();
  SparOpReprMat s(by_col ? k : n, by_col ? n : k);
  for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < k; ++j) { if (owner[j] == nb || w[i][owner[j]] == kNullCoefRepr) continue; OpRepr o = CoefReprOpReprIncompleteMulti(w[i][owner[j]], base[j]); if (by_col) s.SetElem(j, i, o); else s.SetElem(i, j, o); }
  return s;
}
int main(int argc, char **argv) {
  return vmon::run(argc, argv, "p04", [](size_t c, Rng &r, Mon &m) {
    Point pt(r.next());
    if (c % 2 == 0) {   // bonds as term lists generate them: column sweep, then row sweep, then both again
      Problem p = gen_problem(r, c / 2, vmon::thorough());
      m.at("generate " + str(p).substr(0, 300));
      FSM fsm = make_fsm(p);
      for (auto &t : p.terms) fsm.AddPath(t.head, t.tail(), t.reprs());
      auto mats = fsm.GenMatRepr();
      bool ok = true;
      for (size_t i = 0; ok && i + 1 < p.n; ++i) ok = step(m, 'c', mats[i], mats[i + 1], pt, str(p));
      for (size_t i = p.n - 1; ok && i > 0; --i) ok = step(m, 'r', mats[i - 1], mats[i], pt, str(p));
      if (ok && p.n > 1) {
        // the column step again, bond by bond and from fresh plain matrices as well as row-first order
        auto mats2 = fsm.GenMatRepr();
        size_t i = r.below(p.n - 1);
        ok = step(m, 'c', mats2[i], mats2[i + 1], pt, "single " + str(p));
        if (ok) step(m, 'c', mats2[i], mats2[i + 1], pt, "twice " + str(p));
        m.distinct(vmon::hash_str(str(p)));
      }
      if (c < 20) m.sample(str(p));
    } else if (c % 8 == 3) {
      bool col = r.coin(); size_t nb = 0; SparOpReprMat A = sums(r, col, nb), B = col ? synth(r, A.cols, 1 + r.below(5), false, false) : synth(r, 1 + r.below(5), A.rows, true, false);
      std::string s = show(A) + show(B); size_t b0 = col ? A.cols : A.rows;
      bool ok = col ? step(m, 'c', A, B, pt, "sums", nb) : step(m, 'r', B, A, pt, "sums", nb);
      if (ok && b0 > nb) m.count(col ? "col_sums_merged" : "row_sums_merged"); m.distinct(vmon::hash_str(s));
    } else {
      size_t a = 1 + r.below(5), b = 1 + r.below(6), d = 1 + r.below(5);
      bool col = r.coin();
      bool coef = r.coin(0.6);
      SparOpReprMat L = synth(r, a, b, true, col && coef), R = synth(r, b, d, false, !col && coef);
      std::string s = show(L) + show(R);
      if (step(m, col ? 'c' : 'r', L, R, pt, "synthetic") && !coef) step(m, col ? 'r' : 'c', L, R, pt, "synthetic-second");
      if (b > 1) m.distinct(vmon::hash_str(s));
    }
  });
}
