// P03: sparse symbolic matrix against a dense model under random edit histories.
#include "symb.h"
using namespace symb;
using vmon::Mon;

template<typename E> struct Dense {
  size_t r = 0, c = 0;
  std::vector<std::vector<E>> a;
  Dense() {}
  Dense(size_t r_, size_t c_) : r(r_), c(c_), a(r_, std::vector<E>(c_)) {}
};
static std::string es(const CoefRepr &c) { return "{" + vmon::join(c.GetCoefLabelList(), "+") + "}"; }
static std::string es(const OpRepr &o) { std::string s; auto cs = o.GetCoefReprList(); auto ls = o.GetOpLabelList(); for (size_t i = 0; i < ls.size(); ++i) s += es(cs[i]) + "o" + std::to_string(ls[i]) + " "; return s; }
static CoefRepr rnd(Rng &r, CoefRepr *) { std::vector<CNumberLabel> v; size_t n = r.below(4); for (size_t i = 0; i < n; ++i) v.push_back(r.range(0, 4)); return CoefRepr(v); }
static OpRepr rnd(Rng &r, OpRepr *) { if (r.coin(0.15)) return OpRepr(); std::vector<CNumberLabel> v{r.range(0, 3)}; OpRepr o(CoefRepr(v), r.range(0, 5)); if (r.coin(0.3)) o += OpRepr(r.range(0, 5)); return o; }

template<typename Mat, typename E>
static bool agree(const Mat &s, const Dense<E> &d, std::string &why) {
  std::ostringstream w;
  if (s.rows != d.r || s.cols != d.c) { w << "shape " << s.rows << "x" << s.cols << " want " << d.r << "x" << d.c; why = w.str(); return false; }
  const E null{};
  for (size_t x = 0; x < d.r; ++x) {
    auto row = s.GetRow(x);
    if (row.size() != d.c) { why = "row size"; return false; }
    for (size_t y = 0; y < d.c; ++y) {
      if (!(s(x, y) == d.a[x][y]) || !(row[y] == d.a[x][y])) { w << "(" << x << "," << y << ") is " << es(s(x, y)) << " want " << es(d.a[x][y]); why = w.str(); return false; }
      if (s.IsNull(x, y) != (d.a[x][y] == null)) { w << "IsNull(" << x << "," << y << ")"; why = w.str(); return false; }
    }
  }
  for (size_t y = 0; y < d.c; ++y) {
    auto col = s.GetCol(y);
    if (col.size() != d.r) { why = "col size"; return false; }
    for (size_t x = 0; x < d.r; ++x) if (!(col[x] == d.a[x][y])) { why = "GetCol"; return false; }
  }
  return true;
}
static std::vector<size_t> perm(Rng &r, size_t n) { std::vector<size_t> p(n); for (size_t i = 0; i < n; ++i) p[i] = i; for (size_t i = n; i > 1; --i) std::swap(p[i - 1], p[r.below(i)]); return p; }

template<typename Mat, typename E> static void sort_ops(Mat &, Dense<E> &, Rng &, Mon &, std::string &) {}
static void sort_ops(SparOpReprMat &s, Dense<OpRepr> &d, Rng &r, Mon &m, std::string &h) {
  bool rows = r.coin();
  h += rows ? "SortRows;" : "SortCols;";
  m.at(h.size() > 200 ? h.substr(h.size() - 200) : h);
  auto p = rows ? s.SortRows() : s.SortCols();
  size_t n = rows ? d.r : d.c;
  std::vector<bool> seen(n, false); bool ok = p.size() == n;
  for (auto x : p) { ok = ok && x < n && !seen[x]; if (x < n) seen[x] = true; }
  if (!m.check(ok, "sort/not-a-permutation", h)) return;
  Dense<OpRepr> e(d.r, d.c);
  for (size_t x = 0; x < d.r; ++x) for (size_t y = 0; y < d.c; ++y) e.a[x][y] = rows ? d.a[p[x]][y] : d.a[x][p[y]];
  d = e;
  size_t last = 0; bool asc = true;
  for (size_t i = 0; i < n; ++i) {
    size_t k = 0;
    for (size_t j = 0; j < (rows ? d.c : d.r); ++j) if (!((rows ? d.a[i][j] : d.a[j][i]) == OpRepr())) ++k;
    asc = asc && k >= last; last = k;
  }
  m.check(asc, "sort/not-ascending", h);
  m.count("sorts");
}

template<typename Mat, typename E>
static void history(Rng &r, Mon &m, size_t steps) {
  std::vector<Mat> s; std::vector<Dense<E>> d;
  for (int k = 0; k < 2; ++k) { size_t a = 1 + r.below(7), b = 1 + r.below(7); s.push_back(Mat(a, b)); d.push_back(Dense<E>(a, b)); }
  std::string h, why;
  uint64_t sig = 0; size_t kinds = 0;
  for (size_t t = 0; t < steps; ++t) {
    size_t k = r.below(2);
    auto &S = s[k]; auto &D = d[k];
    if (D.r == 0 || D.c == 0) { size_t a = 1 + r.below(6), b = 1 + r.below(6); S = Mat(a, b); D = Dense<E>(a, b); h += "new;"; }
    std::ostringstream o; o << "#" << k << ".";
    size_t op = r.below(14);
    m.at("op" + std::to_string(op) + " after " + (h.size() > 160 ? h.substr(h.size() - 160) : h));
    switch (op) {
      case 0: case 1: case 2: case 3: { size_t x = r.below(D.r), y = r.below(D.c); E e = rnd(r, (E *) nullptr); S.SetElem(x, y, e); D.a[x][y] = e; o << "Set(" << x << "," << y << "," << es(e) << ")"; break; }
      case 4: { if (D.r < 2 && r.coin(0.8)) continue; size_t x = r.below(D.r); S.RemoveRow(x); o << "RemoveRow(" << x << "/" << D.r << "x" << D.c << ")"; D.a.erase(D.a.begin() + (long) x); D.r--; if (D.r == 0) { m.check(S.rows == 0, "remove/last-row", h); D = Dense<E>(0, 0); S = Mat(); } break; }
      case 5: { if (D.c < 2 && r.coin(0.8)) continue; size_t y = r.below(D.c); S.RemoveCol(y); o << "RemoveCol(" << y << "/" << D.r << "x" << D.c << ")"; for (auto &row : D.a) row.erase(row.begin() + (long) y); D.c--; if (D.c == 0) { m.check(S.cols == 0, "remove/last-col", h); D = Dense<E>(0, 0); S = Mat(); } break; }
      case 6: { size_t x = r.below(D.r), y = r.below(D.r); S.SwapTwoRows(x, y); std::swap(D.a[x], D.a[y]); o << "SwapRows(" << x << "," << y << ")"; break; }
      case 7: { size_t x = r.below(D.c), y = r.below(D.c); S.SwapTwoCols(x, y); for (auto &row : D.a) std::swap(row[x], row[y]); o << "SwapCols(" << x << "," << y << ")"; break; }
      case 8: { auto p = perm(r, D.r); S.TransposeRows(p); Dense<E> e(D.r, D.c); for (size_t i = 0; i < D.r; ++i) e.a[i] = D.a[p[i]]; D = e; o << "PermRows(" << vmon::join(p) << ")"; break; }
      case 9: { auto p = perm(r, D.c); S.TransposeCols(p); Dense<E> e(D.r, D.c); for (size_t x = 0; x < D.r; ++x) for (size_t i = 0; i < D.c; ++i) e.a[x][i] = D.a[x][p[i]]; D = e; o << "PermCols(" << vmon::join(p) << ")"; break; }
      case 10: { s[1 - k] = S; d[1 - k] = D; o << "copy"; break; }
      case 11: { Mat c(S); size_t x = r.below(D.r), y = r.below(D.c); E e = rnd(r, (E *) nullptr); c.SetElem(x, y, e); m.check(agree(S, D, why), "copy/shares-state", [&] { return h + why; }); o << "copyctor"; break; }
      case 12: { S.Reserve(r.below(50)); Mat &T = S; S = T; o << "selfassign"; break; }
      default: { sort_ops(S, D, r, m, h); o << "sort"; }
    }
    h += o.str() + ";";
    kinds |= 1u << op; sig = vmon::mix(sig, vmon::hash_str(o.str()));
    m.count("edits");
    for (int q = 0; q < 2; ++q) if (!m.check(agree(s[q], d[q], why), "disagrees-with-dense/op" + std::to_string(op), [&] { return why + " after " + (h.size() > 900 ? h.substr(h.size() - 900) : h); })) return;
    bool eq = d[0].r == d[1].r && d[0].c == d[1].c && d[0].a == d[1].a;
    if (t % 5 == 0) { m.check((s[0] == s[1]) == eq && (s[1] == s[0]) == eq, "equality", h); if (eq && d[0].r) m.count("equal_pairs"); }
  }
  if (__builtin_popcountl(kinds) > 4) m.distinct(sig);
}

int main(int argc, char **argv) {
  return vmon::run(argc, argv, "p03", [](size_t c, Rng &r, Mon &m) {
    size_t steps = vmon::thorough() ? 120 : 60;
    switch (c % 4) {
      case 0: history<SparCoefReprMat, CoefRepr>(r, m, steps); break;
      case 1: history<SparOpReprMatBase, OpRepr>(r, m, steps); break;
      default: history<SparOpReprMat, OpRepr>(r, m, steps);
    }
    if (c < 2) m.sample("edit history of " + std::to_string(steps) + " steps on two matrices, case " + std::to_string(c));
  });
}
