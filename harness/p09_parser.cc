// P09 (MODE 9): wrong, missing or unreadable parameters are reported.  P10 (MODE 10): good ones are read exactly.
#ifndef MODE
#define MODE 9
#endif
#include "jsongen.h"
#include <sys/stat.h>
#include <sys/wait.h>
#include <fstream>
#include <functional>
#include "qlmps/case_params_parser.h"
using namespace jg; using vmon::Mon; using P = qlmps::CaseParamsParserBasic;

struct Outcome { int status = -1; std::string err; bool returned = false, threw = false; };
// run f in a child: how did the program end, and what did it say?
static Outcome in_child(const std::function<void()> &f) {
  Outcome o; char tmpl[] = "errXXXXXX"; int fd = mkstemp(tmpl);
  fflush(nullptr);
  pid_t p = fork();
  if (p < 0) _exit(71);
  if (p == 0) {
    dup2(fd, 2); int n = open("/dev/null", O_WRONLY); dup2(n, 1);
    try { f(); } catch (...) { _exit(201); }
    _exit(200);
  }
  int st = 0; waitpid(p, &st, 0);
  lseek(fd, 0, SEEK_SET); char b[4096]; ssize_t k;
  while ((k = read(fd, b, sizeof b)) > 0) o.err.append(b, (size_t) k);
  close(fd); unlink(tmpl);
  o.returned = WIFEXITED(st) && WEXITSTATUS(st) == 200;
  o.threw = WIFEXITED(st) && WEXITSTATUS(st) == 201;
  o.status = WIFEXITED(st) ? WEXITSTATUS(st) : 1000 + WTERMSIG(st);
  return o;
}
struct Reader {
  std::string name, expect;
  std::function<int(const Val &)> classify;                       // 1 good, 0 bad, -1 open
  std::function<bool(P &, const std::string &, const Val &)> good; // strict == or == try == expected?
  std::function<void(P &, const std::string &)> strict, orread;
  std::function<int(P &, const std::string &)> tryread;           // -1: output changed although false; else result
  std::function<bool(P &, const std::string &)> or_default;       // Or on a missing key gives the default
};
template<typename T, typename S, typename O, typename Y, typename C>
static Reader mk(const std::string &n, const std::string &e, S s, O o, Y y, C c, T def, T probe) {
  Reader r; r.name = n; r.expect = e;
  r.classify = [=](const Val &v) { T x{}; return c(v, x); };
  r.good = [=](P &p, const std::string &k, const Val &v) {
    T want{}; c(v, want); T out = probe;
    return (p.*s)(k) == want && (p.*o)(k, def) == want && (p.*y)(k, out) && out == want;
  };
  r.strict = [=](P &p, const std::string &k) { (void) (p.*s)(k); };
  r.orread = [=](P &p, const std::string &k) { (void) (p.*o)(k, def); };
  r.tryread = [=](P &p, const std::string &k) { T out = probe; bool b = (p.*y)(k, out); return b ? 1 : out == probe ? 0 : -1; };
  r.or_default = [=](P &p, const std::string &k) { return (p.*o)(k, def) == def && (p.*o)(k, probe) == probe; };
  return r;
}
static std::vector<Reader> readers() {
  auto vi = [](const Val &v, std::vector<int> &o) { return as_vec<int>(v, o, as_int); };
  auto vs = [](const Val &v, std::vector<size_t> &o) { return as_vec<size_t>(v, o, as_size); };
  auto vd = [](const Val &v, std::vector<double> &o) { return as_vec<double>(v, o, as_double); };
  return {
    mk<int>("Int", "integer", &P::ParseInt, &P::ParseIntOr, &P::TryParseInt, as_int, 424242, -77),
    mk<double>("Double", "number", &P::ParseDouble, &P::ParseDoubleOr, &P::TryParseDouble, as_double, 0.12345, -7.5e99),
    mk<char>("Char", "string", &P::ParseChar, &P::ParseCharOr, &P::TryParseChar, as_char, 'q', '\x7f'),
    mk<std::string>("Str", "string", &P::ParseStr, &P::ParseStrOr, &P::TryParseStr, as_str, std::string("default"), std::string("probe!")),
    mk<bool>("Bool", "boolean", &P::ParseBool, &P::ParseBoolOr, &P::TryParseBool, as_bool, true, false),
    mk<std::vector<int>>("IntVec", "array", &P::ParseIntVec, &P::ParseIntVecOr, &P::TryParseIntVec, vi, std::vector<int>{9, -8}, std::vector<int>{-5}),
    mk<std::vector<size_t>>("SizeTVec", "array", &P::ParseSizeTVec, &P::ParseSizeTVecOr, &P::TryParseSizeTVec, vs, std::vector<size_t>{9, 8}, std::vector<size_t>{5}),
    mk<std::vector<double>>("DoubleVec", "array", &P::ParseDoubleVec, &P::ParseDoubleVecOr, &P::TryParseDoubleVec, vd, std::vector<double>{.5}, std::vector<double>{-5})};
}
static std::string write_doc(const std::string &text, Rng &r) {
  std::string dir = r.coin(0.3) ? "sub dir" : "."; mkdir("sub dir", 0755);
  std::string f = dir + "/params" + std::to_string(r.below(1000)) + ".json";
  std::ofstream(f, std::ios::binary) << text;
  return f;
}

static void mode10(size_t c, Rng &r, Mon &m) {
  Doc d = doc(r); std::string f = write_doc(d.text, r);
  m.at("construct " + d.text.substr(0, 200));
  P p(f.c_str());
  unlink(f.c_str());                         // the parser must not need the file again
  P copy(p);
  static const auto rs = readers();
  for (auto &kv : d.params) {
    m.check(p.Has(kv.first) && copy.Has(kv.first), "has/present", [&] { return kv.first + " in " + d.text; });
    for (auto &rd : rs) if (rd.classify(kv.second) == 1) {
      m.at(rd.name + " " + kv.first + "=" + kv.second.text);
      // twice, through the copy as well: reading must not disturb anything
      bool ok = rd.good(p, kv.first, kv.second) && rd.good(copy, kv.first, kv.second) && rd.good(p, kv.first, kv.second);
      m.check(ok, "value/" + rd.name, [&] { return kv.first + "=" + kv.second.text; });
      m.count("values_" + rd.name);
      m.distinct(vmon::hash_str(rd.name + kv.second.text));
    }
  }
  std::vector<std::string> missing = d.outside;
  missing.push_back("absent"); missing.push_back(rnd_str(r, 8)); missing.push_back("");
  for (auto &kv : d.params) { missing.push_back(kv.first + " "); missing.push_back("/CaseParams/" + kv.first); if (!kv.first.empty()) missing.push_back(kv.first.substr(1)); }
  for (auto &k : missing) {
    bool present = false; for (auto &kv : d.params) present = present || kv.first == k;
    if (present) continue;
    m.at("missing " + k);
    m.check(!p.Has(k), "has/absent", [&] { return k + " in " + d.text; });
    for (auto &rd : rs) { m.check(rd.or_default(p, k), "default/" + rd.name, [&] { return k; }); m.check(rd.tryread(p, k) == 0, "try-missing/" + rd.name, [&] { return k; }); m.count("defaults"); }
  }
  if (c % 50 == 0) m.sample(d.text);
}

static void mode9(size_t c, Rng &r, Mon &m) {
  static const auto rs = readers();
  if (c % 8 == 7) {   // files that must not give a parser
    std::vector<std::pair<std::string, std::string>> bad{{"empty", ""}, {"blank", " \n"}, {"truncated", ""}, {"no-section", "{\"Params\": {\"a\": 1}}"}, {"array", "[1,2]"}, {"scalar", "3"}, {"null", "null"},
      {"wrong-case", "{\"caseparams\": {}}"}, {"nested-section", "{\"X\": {\"CaseParams\": {\"a\": 1}}}"}, {"unquoted", "{CaseParams: {a: 1}}"}, {"trailing-comma", "{\"CaseParams\": {\"a\": 1,}}"}, {"missing-file", ""}, {"string", "\"CaseParams\""}, {"array-of-name", "[\"CaseParams\"]"}};
    Doc d = doc(r);
    size_t cut = d.text.rfind('}'); bad[2].second = d.text.substr(0, r.below(cut));
    for (auto &b : bad) {
      std::string f = b.first == "missing-file" ? "nowhere/absent.json" : write_doc(b.second, r);
      m.at("construct " + b.first);
      Outcome o = in_child([&] { P p(f.c_str()); });
      bool nopars = !o.returned;
      bool documented = b.first != "missing-file" && b.first != "no-section" && b.first != "wrong-case" && b.first != "nested-section" ? (o.threw || o.status == 1) : o.status == 1;
      m.check(nopars && documented, "construct/" + b.first, [&] { return "status " + std::to_string(o.status) + " for " + b.second.substr(0, 300); });
      if (b.first == "missing-file" || b.first == "no-section") m.check(o.err.find(f) != std::string::npos, "construct-diagnostic/" + b.first, o.err);
      m.count("bad_files"); m.distinct(vmon::hash_str(b.first + b.second));
    }
    return;
  }
  Doc d = doc(r);
  // make sure near-miss values are present
  d.params.clear();
  for (size_t i = 0; i < 6; ++i) { Val v = gen(r, 0); d.params.push_back({r.coin() ? "k" + std::to_string(i) : "key " + std::to_string(i) + rnd_str(r, 3), v}); }
  d.text = "{\"CaseParams\":{";
  for (size_t i = 0; i < 6; ++i) d.text += (i ? "," : "") + quote(r, d.params[i].first) + ":" + d.params[i].second.text;
  d.text += "}, \"Other\": {\"absent\": 1}}";
  std::string f = write_doc(d.text, r);
  m.at("construct");
  P p(f.c_str());
  for (auto &kv : d.params)
    for (auto &rd : rs) {
      int cl = rd.classify(kv.second);
      if (cl != 0) continue;
      std::string what = rd.name + " of " + kv.second.text;
      m.at("try " + what);
      int t = rd.tryread(p, kv.first);
      std::string cls = std::string(kv.second.type()) + (kv.second.k == Val::FLT ? "-fractional" : kv.second.k == Val::ARR ? "" : "");
      m.check(t == 0, "try/" + rd.name + "/" + cls, [&] { return what + (t < 0 ? " changed its output" : " accepted"); });
      m.count("wrong_values");
      m.distinct(vmon::hash_str(what));
      if (r.coin(vmon::thorough() ? 1.0 : 0.5)) {
        bool orr = r.coin(0.4);
        m.at((orr ? "or " : "strict ") + what);
        Outcome o = in_child([&] { if (orr) rd.orread(p, kv.first); else rd.strict(p, kv.first); });
        m.check(o.status == 1, (orr ? "or/" : "strict/") + rd.name + "/" + cls, [&] { return what + " ended with " + (o.returned ? "a value" : "status " + std::to_string(o.status)); });
        if (o.status == 1) {
          bool ok = o.err.find(f) != std::string::npos && o.err.find(kv.first) != std::string::npos && o.err.find(rd.expect) != std::string::npos && o.err.find(kv.second.type()) != std::string::npos;
          m.check(ok, "diagnostic/" + rd.name, [&] { return what + ": " + o.err; });
        }
        m.count("strict_failures");
      }
    }
  for (auto &rd : rs) {
    std::string k = r.coin() ? "absent" : "gone" + rnd_str(r, 4);
    m.at("missing " + rd.name);
    m.check(rd.tryread(p, k) == 0, "try-missing/" + rd.name, k);
    Outcome o = in_child([&] { rd.strict(p, k); });
    bool ok = o.status == 1 && o.err.find(f) != std::string::npos && o.err.find(k) != std::string::npos && o.err.find(rd.expect) != std::string::npos;
    m.check(ok, "missing/" + rd.name, [&] { return k + ": status " + std::to_string(o.status) + " " + o.err; });
    m.count("missing_keys");
  }
  if (c % 50 == 0) m.sample(d.text);
}
int main(int argc, char **argv) {
  return vmon::run(argc, argv, MODE == 9 ? "p09" : "p10", [](size_t c, Rng &r, Mon &m) { if (MODE == 9) mode9(c, r, m); else mode10(c, r, m); });
}
