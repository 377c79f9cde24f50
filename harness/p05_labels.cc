// P05: label conversion is stable and one-to-one for every history.
#include "vmon.h"
#include <complex>
#include <map>
#include "qlmps/one_dim_tn/mpo/mpogen/fsm.h"
using vmon::Mon; using vmon::Rng;

struct Obj {           // stands for an operator tensor
  std::vector<int> d;
  Obj operator-() const { Obj o(*this); for (auto &x : o.d) x = -x; return o; }
  bool operator==(const Obj &o) const { return d == o.d; }
};
static std::ostream &operator<<(std::ostream &os, const Obj &o) { return os << vmon::join(o.d); }

static void gen(Rng &r, double &x, size_t span) { x = (double) r.range(-(long) span, (long) span) / 4; if (r.coin(0.1)) x = 1e-300 * (double) r.range(1, 3); }
static void gen(Rng &r, std::complex<double> &x, size_t span) { x = {(double) r.range(-(long) span, (long) span), (double) r.range(-1, 1)}; }
static void gen(Rng &r, long &x, size_t span) { x = r.range(-(long) span, (long) span); }
static void gen(Rng &r, Obj &x, size_t span) { x.d.clear(); size_t n = 1 + r.below(3); for (size_t i = 0; i < n; ++i) x.d.push_back((int) r.range(-(long) (span % 7), (long) (span % 7))); }
template<typename T> static std::string ts(const T &t) { std::ostringstream o; o << t; return o.str(); }

// Several converters, each with its own list of first occurrences; copies and assignments between them carry both along.
template<typename T> static void history(Rng &r, Mon &m, const char *ty) {
  size_t span = 1 + r.below(20);
  struct Sub { LabelConvertor<T> lc; std::vector<T> model; };
  std::vector<Sub> sub(1 + r.below(3));
  std::vector<T> recent;          // converted lately, by any converter
  for (auto &s : sub) if (r.coin(0.7)) { T id; gen(r, id, span); s.lc = LabelConvertor<T>(id); s.model.push_back(id); }
  size_t steps = 5 + r.below(vmon::thorough() ? 200 : 60);
  std::string h = ty; uint64_t sig = 0; size_t rep = 0, labels = 0;
  for (size_t t = 0; t < steps; ++t) {
    if (r.coin(0.12)) {
      size_t i = r.below(sub.size()), j = r.below(sub.size());
      switch (r.below(4)) {
        case 0: sub[i].lc = sub[j].lc; sub[i].model = sub[j].model; h += " [" + std::to_string(i) + "]=[" + std::to_string(j) + "]"; m.count("assigned"); break;
        case 1: { LabelConvertor<T> c(sub[i].lc); T x; gen(r, x, span); c.Convert(x); h += " copy-and-use"; m.count("copied"); break; }
        case 2: { LabelConvertor<T> c(sub[i].lc); T x; gen(r, x, span); c.Convert(x); c = sub[i].lc; sub[i].lc = c; h += " round-trip"; m.count("assigned"); break; }
        default: { Sub c{sub[i].lc, sub[i].model}; sub.push_back(c); h += " copy[" + std::to_string(i) + "]"; m.count("copied"); break; }
      }
    }
    size_t w = r.below(sub.size()); auto &s = sub[w];
    T x; gen(r, x, span);
    if (r.coin(0.1)) x = -x;
    if (recent.size() && r.coin(0.35)) x = r.coin(0.5) ? recent.back() : r.pick(recent);
    m.at("convert " + ts(x));
    size_t want = 0; while (want < s.model.size() && !(s.model[want] == x)) ++want;
    size_t got = s.lc.Convert(x);
    bool fresh = want == s.model.size();
    h += " " + std::to_string(w) + ":" + ts(x) + "->" + std::to_string(got);
    if (!m.check(got == want, fresh ? "fresh-label" : "repeat-label", [&] { return h + " want " + std::to_string(want); })) return;
    if (fresh) s.model.push_back(x); else ++rep;
    recent.push_back(x); if (recent.size() > 6) recent.erase(recent.begin());
    for (size_t k = 0; k < sub.size(); ++k) {
      if (k != w && !r.coin(0.2)) continue;
      auto tab = sub[k].lc.GetLabelObjMapping();
      bool ok = tab.size() == sub[k].model.size();
      for (size_t i = 0; ok && i < tab.size(); ++i) ok = tab[i] == sub[k].model[i];
      if (!m.check(ok, "label-table", h)) return;
    }
    sig = vmon::mix(sig, vmon::hash_str(ts(x)));
    m.count("conversions");
  }
  for (auto &s : sub) labels = std::max(labels, s.model.size());
  m.count("repeated", (long) rep); m.count("labels", (long) labels);
  if (rep && labels > 2) m.distinct(sig);
  if (r.coin(0.001)) m.sample(h.substr(0, 300));
}
int main(int argc, char **argv) {
  return vmon::run(argc, argv, "p05", [](size_t c, Rng &r, Mon &m) {
    switch (c % 4) {
      case 0: history<double>(r, m, "double"); break;
      case 1: history<std::complex<double>>(r, m, "complex"); break;
      case 2: history<long>(r, m, "long"); break;
      default: history<Obj>(r, m, "object");
    }
    if (c == 0) m.sample("random conversion histories of numbers and objects");
  });
}
