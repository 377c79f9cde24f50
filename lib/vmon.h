// Monitor runtime shared by every harness: deterministic case generation, an event log the driver
// (check.py) reads, and a per-case boundary so that a crash or hang is attributed to its case.
#ifndef VERIF_VMON_H
#define VERIF_VMON_H
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <typeinfo>
#include <vector>
#include <fcntl.h>
#include <unistd.h>

namespace vmon {

struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed) : s(seed) {}
  uint64_t next() {
    uint64_t z = (s += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
  size_t below(size_t n) { return n ? next() % n : 0; }
  long range(long lo, long hi) { return lo + (long) below((size_t) (hi - lo + 1)); }   // inclusive
  double unit() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
  double sym() { return 2.0 * unit() - 1.0; }
  bool coin(double p = 0.5) { return unit() < p; }
  template<typename T> const T &pick(const std::vector<T> &v) { return v[below(v.size())]; }
};

inline uint64_t mix(uint64_t a, uint64_t b) {
  Rng r(a * 0x9E3779B97F4A7C15ull ^ (b + 0x7F4A7C15ull + (a << 6) + (a >> 2)));
  r.next();
  return r.next();
}
inline uint64_t hash_str(const std::string &s) {
  uint64_t h = 1469598103934665603ull;
  for (unsigned char c : s) { h ^= c; h *= 1099511628211ull; }
  return h;
}

class Mon {
 public:
  int fd = 2;
  std::map<std::string, long> counters;
  long nviol = 0;
  std::set<std::string> viol_keys;
  std::string stage;
  void raw(const std::string &line) {
    std::string l = line;
    for (auto &c : l) if (c == '\n') c = ' ';
    l.push_back('\n');
    size_t off = 0;
    while (off < l.size()) {
      ssize_t n = ::write(fd, l.data() + off, l.size() - off);
      if (n <= 0) { _exit(70); }
      off += (size_t) n;
    }
  }
  // key: short, stable class of the failure; detail: the concrete observation
  void viol(const std::string &key, const std::string &detail) {
    ++nviol;
    if (viol_keys.insert(key).second || nviol < 20) raw("V " + key + "\t" + detail);
  }
  bool check(bool ok, const std::string &key, const std::function<std::string()> &detail) {
    counters["checks"]++;
    if (!ok) viol(key, detail());
    return ok;
  }
  bool check(bool ok, const std::string &key, const std::string &detail = "") {
    counters["checks"]++;
    if (!ok) viol(key, detail);
    return ok;
  }
  void count(const std::string &name, long n = 1) { counters[name] += n; }
  // mark this case as non-trivial, with the fingerprint that makes it distinct
  void distinct(uint64_t h) { char b[32]; snprintf(b, sizeof b, "H %016llx", (unsigned long long) h); raw(b); }
  void sample(const std::string &s) { raw("S " + s.substr(0, 600)); }
  // the operation now in progress (named in the violation if the case crashes or hangs here)
  void at(const std::string &s) { stage = s; raw("A " + s); }
  void flush() {
    for (auto &kv : counters) raw("C " + kv.first + " " + std::to_string(kv.second));
    counters.clear();
  }
};

inline Mon &mon() { static Mon m; return m; }
inline uint64_t &base_seed() { static uint64_t s = 1; return s; }
inline bool &thorough() { static bool t = false; return t; }

using CaseFn = std::function<void(size_t, Rng &, Mon &)>;

// usage: prog --seed S --tier quick|thorough --from A --to B --stride K   (event log on $VMON_FD)
inline int run(int argc, char **argv, const std::string &name, const CaseFn &fn) {
  size_t from = 0, to = 1, stride = 1;
  for (int i = 1; i + 1 < argc; i += 2) {
    std::string k = argv[i], v = argv[i + 1];
    if (k == "--seed") base_seed() = strtoull(v.c_str(), nullptr, 10);
    else if (k == "--tier") thorough() = (v == "thorough");
    else if (k == "--from") from = strtoull(v.c_str(), nullptr, 10);
    else if (k == "--to") to = strtoull(v.c_str(), nullptr, 10);
    else if (k == "--stride") stride = strtoull(v.c_str(), nullptr, 10);
  }
  Mon &m = mon();
  if (const char *f = getenv("VMON_LOG")) {
    m.fd = open(f, O_WRONLY | O_CREAT | O_APPEND | O_CLOEXEC, 0644);
    if (m.fd < 0) { perror("VMON_LOG"); return 71; }
  }
  for (size_t c = from; c < to; c += stride) {
    m.raw("B " + std::to_string(c));
    m.stage.clear();
    m.nviol = 0;
    m.viol_keys.clear();
    Rng rng(mix(mix(base_seed(), hash_str(name)), c));
    try {
      fn(c, rng, m);
    } catch (const std::exception &e) {
      m.viol("exception@" + m.stage, std::string(typeid(e).name()) + ": " + e.what());
    }
    m.counters["cases"]++;
    m.flush();
    m.raw("E " + std::to_string(c));
  }
  m.raw("D");
  return 0;
}

template<typename V>
std::string join(const V &v, const char *sep = ",") {
  std::ostringstream os;
  bool first = true;
  for (auto &x : v) { if (!first) os << sep; os << x; first = false; }
  return os.str();
}
}  // namespace vmon
#endif
