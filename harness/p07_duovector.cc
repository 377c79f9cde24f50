// P07: the owning vector against a reference model, with instrumented elements and AddressSanitizer.
#include "vmon.h"
#include <memory>
#include <unordered_set>
#include "qlmps/one_dim_tn/framework/duovector.h"
using vmon::Mon; using vmon::Rng;

static std::unordered_set<const void *> g_live;
static long g_created, g_destroyed, g_bad;
struct Elem {
  long v; char *pad;     // heap payload: a shallow copy would be a double free under ASan
  void reg() { if (!g_live.insert(this).second) ++g_bad; ++g_created; }
  Elem() : v(0), pad(new char[8]) { reg(); }
  explicit Elem(long x) : v(x), pad(new char[8]) { reg(); }
  Elem(const Elem &o) : v(o.v), pad(new char[8]) { if (!g_live.count(&o)) ++g_bad; reg(); }
  Elem &operator=(const Elem &o) { if (!g_live.count(&o) || !g_live.count(this)) ++g_bad; v = o.v; return *this; }
  ~Elem() { if (!g_live.erase(this)) ++g_bad; ++g_destroyed; delete[] pad; }
};
using DV = qlmps::DuoVector<Elem>;
struct Derived : public DV { using DV::DV; Derived(size_t n) : DV(n) {} int tag = 0; };   // as the tensor vectors derive from it
using Model = std::vector<std::pair<bool, long>>;     // slot present?, value

template<typename V> static std::string compare(V &v, const Model &m) {
  std::ostringstream w;
  const V &c = v;
  if (v.size() != m.size()) { w << "size " << v.size() << " want " << m.size(); return w.str(); }
  auto raw = c.cdata();
  if (raw.size() != m.size()) return "cdata size";
  bool any = false;
  for (size_t i = 0; i < m.size(); ++i) {
    const Elem *p = c(i);
    if (raw[i] != p) { w << "cdata[" << i << "]"; return w.str(); }
    if ((p != nullptr) != m[i].first) { w << "slot " << i << (p ? " filled" : " empty"); return w.str(); }
    if (p) {
      any = true;
      if (!g_live.count(p)) { w << "slot " << i << " points to a dead element"; return w.str(); }
      if (p->v != m[i].second || c[i].v != m[i].second) { w << "slot " << i << " value " << p->v << " want " << m[i].second; return w.str(); }
    }
  }
  if (v.empty() == any) return "empty() wrong";
  if (!m.empty() && m[0].first && (&c.front() != c(0) || &v.front() != c(0))) return "front";
  if (!m.empty() && m.back().first && (&c.back() != c(m.size() - 1) || &v.back() != c(m.size() - 1))) return "back";
  return "";
}

template<typename V> static void history(Rng &r, Mon &m, size_t steps) {
  const size_t K = 4;
  g_live.clear(); g_created = g_destroyed = g_bad = 0;
  std::vector<std::unique_ptr<V>> v; std::vector<Model> md(K);
  for (size_t k = 0; k < K; ++k) { size_t n = r.below(6); v.emplace_back(new V(n)); md[k] = Model(n, {false, 0}); }
  std::string h; uint64_t sig = 0; unsigned kinds = 0;
  for (size_t t = 0; t < steps; ++t) {
    size_t a = r.below(K), b = r.below(K); auto &x = *v[a]; auto &mx = md[a]; size_t n = mx.size();
    size_t i = n ? r.below(n) : 0; long val = r.range(1, 1000000);
    unsigned op = (unsigned) r.below(16);
    std::ostringstream o; o << op << ":" << a << "," << b << "," << i << ";";
    m.at("op" + std::to_string(op) + " " + o.str() + " after " + (h.size() > 120 ? h.substr(h.size() - 120) : h));
    switch (op) {
      case 0: case 1: if (!n) continue; x[i].v = val; mx[i] = {true, val}; break;
      case 2: if (!n) continue; x.alloc(i); mx[i] = {true, 0}; break;
      case 3: if (!n) continue; x.dealloc(i); mx[i] = {false, 0}; break;
      case 4: if (!n) continue; x.dealloc(i); x(i) = new Elem(val); mx[i] = {true, val}; break;
      case 5: { if (!n) continue; delete x(i); x(i) = nullptr; mx[i] = {false, 0}; break; }
      case 6: { *v[b] = x; md[b] = mx; if (a == b) m.count("self_copy_assign"); break; }        // copy (possibly self)
      case 7: { Model s = mx; *v[b] = std::move(x); if (a != b) { md[b] = s; md[a] = Model(n, {false, 0}); } else m.count("self_move_assign"); break; }
      case 8: { if (a == b) continue; v[b].reset(new V(x)); md[b] = mx; break; }
      case 9: { if (a == b) continue; v[b].reset(new V(std::move(x))); md[b] = mx; md[a] = Model(n, {false, 0}); m.count("move_construct"); break; }
      case 10: x.clear(); md[a] = Model(n, {false, 0}); break;
      case 11: { size_t q = r.below(6); v[a].reset(new V(q)); md[a] = Model(q, {false, 0}); break; }
      case 12: { if (!n || md[b].empty() || a == b) continue; size_t j = r.below(md[b].size()); v[b]->dealloc(j); (*v[b])(j) = x(i); x(i) = nullptr; md[b][j] = mx[i]; mx[i] = {false, 0}; break; }   // hand over by pointer
      case 13: { V tmp(x); if (n && mx[i].first) tmp[i].v = -1; tmp = V(2); break; }                 // temporaries
      case 14: { if (!n || !mx[i].first) continue; Elem e(x[i]); e.v = val; x[i] = e; mx[i].second = val; break; }
      default: { std::vector<V> c(2, x); c.push_back(*v[b]); c.erase(c.begin()); v[b].reset(new V(c[0])); md[b] = mx; break; }  // inside a std::vector
    }
    h += o.str(); kinds |= 1u << op; sig = vmon::mix(sig, vmon::hash_str(o.str()));
    m.count("operations");
    size_t live = 0;
    for (size_t k = 0; k < K; ++k) {
      std::string w = compare(*v[k], md[k]);
      if (!m.check(w.empty(), "model/op" + std::to_string(op), [&] { return w + " vector " + std::to_string(k) + " after " + (h.size() > 600 ? h.substr(h.size() - 600) : h); })) _exit(80);
      for (auto &s : md[k]) live += s.first;
    }
    if (!m.check(g_bad == 0, "lifetime/dead-element/op" + std::to_string(op), h.size() > 600 ? h.substr(h.size() - 600) : h)) _exit(80);
    if (!m.check(g_live.size() == live, "lifetime/leak/op" + std::to_string(op), [&] { return std::to_string(g_live.size()) + " live elements, " + std::to_string(live) + " owned, after " + (h.size() > 600 ? h.substr(h.size() - 600) : h); })) _exit(80);
  }
  m.at("destroy");
  v.clear();
  m.check(g_live.empty() && g_created == g_destroyed && g_bad == 0, "lifetime/not-destroyed-once", [&] { return std::to_string(g_created) + " created " + std::to_string(g_destroyed) + " destroyed"; });
  m.count("elements", g_created);
  if (__builtin_popcount(kinds) > 6) m.distinct(sig);
}
int main(int argc, char **argv) {
  return vmon::run(argc, argv, "p07", [](size_t c, Rng &r, Mon &m) {
    size_t steps = vmon::thorough() ? 300 : 80;
    if (c % 2) history<DV>(r, m, steps); else history<Derived>(r, m, steps);
    if (c < 2) m.sample(std::to_string(steps) + " random operations over four vectors, case " + std::to_string(c));
  });
}
