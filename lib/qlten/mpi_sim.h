// Stand-in for MPI: every rank is a process of its own (forked), and the harness process is the network.  A rank that
// calls MPI blocks until the network answers; the network waits until no rank is running and then picks, from the seed,
// which of the possible completions happens next (eager or synchronous sends, buffered or synchronous broadcasts, any
// of the messages a wildcard receive may match).  It reports deadlocks, collectives that do not match, messages of the
// wrong type or size, messages nobody receives, and ranks that die.
#ifndef VERIF_MPI_SIM_H
#define VERIF_MPI_SIM_H
#include <sys/socket.h>
#include <sys/types.h>
#include <sys/wait.h>
#include <poll.h>
#include <signal.h>
#include <unistd.h>
#include <fcntl.h>
#include <cstdint>
#include <cstring>
#include <deque>
#include <functional>
#include <mutex>
#include <iostream>
#include <fstream>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>

using MPI_Comm = int;
enum MPI_Datatype { MPI_INT = 1, MPI_DOUBLE = 2, MPI_UNSIGNED_LONG_LONG = 3 };
struct MPI_Status { int MPI_SOURCE = -1, MPI_TAG = -1, MPI_ERROR = 0; };
#define MPI_COMM_WORLD 91
#define MPI_ANY_SOURCE (-2)
#define MPI_ANY_TAG (-1)
#define MPI_SUCCESS 0
#define HANDLE_MPI_ERROR(x) do { if ((x) != MPI_SUCCESS) throw std::runtime_error("MPI error"); } while (0)

namespace mpisim {
enum Op : uint32_t { kSend, kRecv, kBcast, kBarrier, kFinal, kFail };
enum Kind : uint32_t { kTensor = 10, kBlocks = 20 };      // + 1 for complex elements
struct Req { uint32_t op; int32_t peer, tag; uint32_t kind; uint64_t count, len; };
struct Rep { int32_t src, tag; uint64_t count, len; };
struct Me { int rank = 0, size = 1, fd = -1; };
inline Me &me() { static Me m; return m; }
[[noreturn]] inline void Bad(const std::string &s) { throw std::runtime_error("mpi: " + s); }
inline bool Full(int fd, char *p, size_t n, bool wr) {
  while (n) { ssize_t k = wr ? ::send(fd, p, n, MSG_NOSIGNAL) : ::read(fd, p, n); if (k < 0 && errno == EINTR) continue; if (k <= 0) return false; p += k; n -= k; }
  return true;
}
inline Rep Call(uint32_t op, int peer, int tag, uint32_t kind, uint64_t count, const std::string &data, std::string &back) {
  Req q; memset(&q, 0, sizeof q); q.op = op; q.peer = peer; q.tag = tag; q.kind = kind; q.count = count; q.len = data.size();
  if (!Full(me().fd, (char *) &q, sizeof q, true) || !Full(me().fd, (char *) data.data(), data.size(), true)) _exit(77);
  Rep r; if (!Full(me().fd, (char *) &r, sizeof r, false)) _exit(77);
  back.resize(r.len); if (r.len && !Full(me().fd, &back[0], r.len, false)) _exit(77);
  return r;
}
inline void Use(MPI_Comm c) { if (c != MPI_COMM_WORLD) Bad("invalid communicator"); if (me().fd < 0) Bad("not in a parallel run"); }
inline size_t Size(MPI_Datatype t) { return t == MPI_INT ? 4 : 8; }
inline void Peer(int p, bool any) { if (p == MPI_ANY_SOURCE && any) return; if (p < 0 || p >= me().size) Bad("rank " + std::to_string(p) + " does not exist"); if (p == me().rank) Bad("message to itself"); }
inline void Tag(int t, bool any) { if (t == MPI_ANY_TAG && any) return; if (t < 0 || t > 32767) Bad("tag " + std::to_string(t) + " is not portable"); }
inline void SendBytes(const std::string &d, uint32_t kind, uint64_t count, int dst, int tag, MPI_Comm c) { Use(c); Peer(dst, false); Tag(tag, false); std::string b; Call(kSend, dst, tag, kind, count, d, b); }
inline MPI_Status RecvBytes(std::string &d, uint32_t kind, uint64_t count, int src, int tag, MPI_Comm c) {
  Use(c); Peer(src, true); Tag(tag, true); Rep r = Call(kRecv, src, tag, kind, count, "", d); MPI_Status s; s.MPI_SOURCE = r.src; s.MPI_TAG = r.tag; return s; }
inline void BcastBytes(std::string &d, uint32_t kind, uint64_t count, int root, MPI_Comm c) {
  Use(c); if (root < 0 || root >= me().size) Bad("no such root"); std::string b; Call(kBcast, root, 0, kind, count, me().rank == root ? d : std::string(), b); if (me().rank != root) d = b; }
}
inline int MPI_Comm_rank(MPI_Comm c, int *r) { if (c != MPI_COMM_WORLD) mpisim::Bad("invalid communicator"); *r = mpisim::me().rank; return 0; }
inline int MPI_Comm_size(MPI_Comm c, int *n) { if (c != MPI_COMM_WORLD) mpisim::Bad("invalid communicator"); *n = mpisim::me().size; return 0; }
inline int MPI_Send(const void *p, int n, MPI_Datatype t, int dst, int tag, MPI_Comm c) { mpisim::SendBytes(std::string((const char *) p, n * mpisim::Size(t)), t, n, dst, tag, c); return 0; }
inline int MPI_Recv(void *p, int n, MPI_Datatype t, int src, int tag, MPI_Comm c, MPI_Status *s) {
  std::string d; MPI_Status st = mpisim::RecvBytes(d, t, n, src, tag, c); memcpy(p, d.data(), d.size()); if (s) *s = st; return 0; }
inline int MPI_Bcast(void *p, int n, MPI_Datatype t, int root, MPI_Comm c) {
  std::string d((const char *) p, n * mpisim::Size(t)); mpisim::BcastBytes(d, t, n, root, c); memcpy(p, d.data(), d.size()); return 0; }
inline int MPI_Barrier(MPI_Comm c) { mpisim::Use(c); std::string b; mpisim::Call(mpisim::kBarrier, 0, 0, 0, 0, "", b); return 0; }
[[noreturn]] inline int MPI_Abort(MPI_Comm, int code) { mpisim::Bad("MPI_Abort(" + std::to_string(code) + ")"); }

// ---------------------------------------------------------------- the network
namespace mpisim {
struct Result {
  bool ok = true; std::string why, key; std::vector<std::vector<double>> res; std::vector<std::string> out;
  long messages = 0, collectives = 0, steps = 0, choices = 0, sync = 0; uint64_t hash = 1469598103934665603ull;
};
inline const char *KindName(uint32_t k) { switch (k) { case 1: return "int"; case 2: return "double"; case 3: return "size_t"; case kTensor: return "tensor"; case kTensor + 1: return "complex tensor"; case kBlocks: return "blocks"; case kBlocks + 1: return "complex blocks"; } return "?"; }
// Lines of output in the order in which they were finished; threads never mix within a line.
class LineBuf : public std::streambuf {
 public:
  std::string str() { std::lock_guard<std::mutex> g(m_); return all_ + part(); }
 protected:
  int_type overflow(int_type c) override { if (c != traits_type::eof()) { char x = (char) c; xsputn(&x, 1); } return traits_type::not_eof(c); }
  std::streamsize xsputn(const char *s, std::streamsize n) override {
    std::string &p = part(); p.append(s, (size_t) n); size_t e = p.rfind('\n');
    if (e != std::string::npos) { std::lock_guard<std::mutex> g(m_); all_.append(p, 0, e + 1); p.erase(0, e + 1); }
    return n; }
 private:
  static std::string &part() { static thread_local std::string p; return p; }
  std::mutex m_; std::string all_;
};
// fn(rank) runs in a process of its own and returns what it wants to report
inline Result Run(int P, uint64_t seed, const std::function<std::vector<double>(int)> &fn, int timeout_s = 120) {
  Result R; R.res.resize(P); R.out.resize(P);
  auto rnd = [&seed] { uint64_t z = (seed += 0x9E3779B97F4A7C15ull); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); };
  struct Msg { int src, tag; uint32_t kind; uint64_t count; std::string d; bool sync, taken = false; };
  struct Rank { pid_t pid; int fd; enum { Run, Block, Done, Dead } st = Run; Req q; std::string d; bool posted = false, eager = true; size_t coll = 0; };
  struct Coll { uint32_t op, kind; int root; uint64_t count; bool have = false, sync = false; std::string d; std::vector<char> in, out; };
  std::vector<Rank> rk(P); std::vector<std::vector<std::deque<Msg>>> q(P, std::vector<std::deque<Msg>>(P)); std::vector<Coll> coll;
  int sendmode = (int) (rnd() % 3), bcastmode = (int) (rnd() % 3), policy = (int) (rnd() % 4), special = (int) (rnd() % P);
  for (int i = 0; i < P; ++i) {
    int sv[2]; if (socketpair(AF_UNIX, SOCK_STREAM | SOCK_CLOEXEC, 0, sv)) { perror("socketpair"); _exit(72); }
    std::cout.flush(); pid_t pid = fork();
    if (pid < 0) { perror("fork"); _exit(72); }
    if (pid == 0) {
      for (int j = 0; j < i; ++j) close(rk[j].fd);
      close(sv[0]); me().rank = i; me().size = P; me().fd = sv[1];
      int e = open(("rank" + std::to_string(i) + ".err").c_str(), O_WRONLY | O_CREAT | O_TRUNC | O_CLOEXEC, 0644); if (e >= 0) dup2(e, 2);
      LineBuf buf; std::cout.rdbuf(&buf); std::cout.clear(); std::string none, data; uint32_t op = kFinal; uint64_t n = 0;
      try { std::vector<double> v = fn(i); n = v.size(); data.assign((const char *) v.data(), n * 8); data += buf.str(); }
      catch (const std::exception &x) { op = kFail; data = x.what(); }
      Req z; memset(&z, 0, sizeof z); z.op = op; z.count = n; z.len = data.size();
      if (Full(me().fd, (char *) &z, sizeof z, true)) Full(me().fd, (char *) data.data(), data.size(), true);
      _exit(0);
    }
    close(sv[1]); rk[i].pid = pid; rk[i].fd = sv[0];
  }
  auto where = [&](int i) -> std::string {
    auto &r = rk[i]; std::string s = "rank " + std::to_string(i) + " ";
    if (r.st == Rank::Done) return s + "finished"; if (r.st == Rank::Dead) return s + "dead"; if (r.st == Rank::Run) return s + "running";
    switch (r.q.op) { case kSend: return s + "sends " + KindName(r.q.kind) + " tag " + std::to_string(r.q.tag) + " to " + std::to_string(r.q.peer);
      case kRecv: return s + "waits for " + KindName(r.q.kind) + " tag " + std::to_string(r.q.tag) + " from " + std::to_string(r.q.peer);
      case kBcast: return s + "broadcasts " + KindName(r.q.kind) + " root " + std::to_string(r.q.peer); default: return s + "at a barrier"; } };
  auto all = [&] { std::string s; for (int i = 0; i < P; ++i) s += (i ? "; " : "") + where(i); return s; };
  auto fail = [&](const std::string &k, const std::string &w) { if (R.ok) { R.ok = false; R.key = k; R.why = w; } };
  auto reply = [&](int i, int src, int tag, uint64_t count, const std::string &d) {
    Rep r; memset(&r, 0, sizeof r); r.src = src; r.tag = tag; r.count = count; r.len = d.size(); rk[i].st = Rank::Run; rk[i].posted = false;
    if (!Full(rk[i].fd, (char *) &r, sizeof r, true) || !Full(rk[i].fd, (char *) d.data(), d.size(), true)) { /* noticed when reading */ } };
  auto died_with = [&](int i, int st) {
    std::ifstream f("rank" + std::to_string(i) + ".err"); std::stringstream b; b << f.rdbuf(); std::string e = b.str(), pick;
    for (const char *k : {"ERROR: AddressSanitizer", "runtime error", "Assertion", "WARNING: ThreadSanitizer", "terminate called"}) { size_t p = e.find(k); if (p != std::string::npos) { size_t a = e.rfind('\n', p), z = e.find('\n', p); a = a == std::string::npos ? 0 : a + 1; pick = e.substr(a, std::min<size_t>(z - a, 400)); break; } }
    for (size_t p = 0, n = 0; (p = e.find("include/qlmps/", p)) != std::string::npos && n < 4; ++n) { size_t z = e.find_first_of(" \n)", p); pick += " @" + e.substr(p, z - p); p = z; }
    if (pick.empty()) pick = e.substr(0, 300);
    fail(e.find("WARNING: ThreadSanitizer") != std::string::npos ? "data-race" : "rank-died", "rank " + std::to_string(i) + " ended with status " + std::to_string(st) + " " + pick + " (" + all() + ")"); };
  auto died = [&](int i) { int st = 0; waitpid(rk[i].pid, &st, 0); rk[i].pid = -1; rk[i].st = Rank::Dead; died_with(i, st); };
  while (R.ok) {
    // until nobody runs
    std::vector<pollfd> pf; std::vector<int> who;
    for (int i = 0; i < P; ++i) if (rk[i].st == Rank::Run) { pf.push_back({rk[i].fd, POLLIN, 0}); who.push_back(i); }
    if (!pf.empty()) {
      int n = poll(pf.data(), pf.size(), timeout_s * 1000); if (n < 0 && errno == EINTR) continue;
      if (n == 0) { fail("rank-hangs", all()); break; }
      for (size_t k = 0; k < pf.size() && R.ok; ++k) {
        if (!pf[k].revents) continue;
        int i = who[k]; auto &r = rk[i];
        if (!Full(r.fd, (char *) &r.q, sizeof r.q, false)) { died(i); break; }
        r.d.resize(r.q.len); if (r.q.len && !Full(r.fd, &r.d[0], r.q.len, false)) { died(i); break; }
        if (r.q.op == kFail) { r.st = Rank::Dead; fail("rank-failed", "rank " + std::to_string(i) + ": " + r.d + " (" + all() + ")"); break; }
        if (r.q.op == kFinal) { r.st = Rank::Done; R.res[i].resize(r.q.count); if (r.q.count) memcpy(R.res[i].data(), r.d.data(), r.q.count * 8); R.out[i] = r.d.substr(r.q.count * 8); continue; }
        r.st = Rank::Block;
        if (r.q.op == kSend) {
          bool sync = sendmode == 1 || (sendmode == 2 && rnd() % 2); r.eager = !sync; R.messages++; R.sync += sync;
          q[i][r.q.peer].push_back(Msg{i, r.q.tag, r.q.kind, r.q.count, r.d, sync});
        } else if (r.q.op == kBcast || r.q.op == kBarrier) {
          size_t s = r.coll++; if (s == coll.size()) { Coll c; c.op = r.q.op; c.kind = r.q.kind; c.root = r.q.peer; c.count = r.q.count; c.in.assign(P, 0); c.out.assign(P, 0); c.sync = bcastmode == 1 || (bcastmode == 2 && rnd() % 2); coll.push_back(c); R.collectives++; }
          Coll &c = coll[s];
          if (c.op != r.q.op || c.kind != r.q.kind || c.root != r.q.peer || c.count != r.q.count) { fail("collective-mismatch", "collective " + std::to_string(s) + " is " + (c.op == kBcast ? KindName(c.kind) : "barrier") + " root " + std::to_string(c.root) + " elsewhere: " + all()); break; }
          c.in[i] = 1; if (c.root == i && c.op == kBcast) { c.have = true; c.d = r.d; }
        }
      }
      continue;
    }
    // what may happen next
    struct Opt { int rank, src; size_t pos; }; std::vector<Opt> opt; bool done = true; std::vector<int> wild(P, 0);
    for (int i = 0; i < P; ++i) {
      auto &r = rk[i]; if (r.st == Rank::Done) continue; done = false;
      if (r.q.op == kSend) { auto &dq = q[i][r.q.peer]; bool gone = r.eager || dq.empty() || dq.back().taken; if (gone) opt.push_back({i, -1, 0}); }
      else if (r.q.op == kRecv) {
        for (int s = 0; s < P; ++s) { if (r.q.peer != MPI_ANY_SOURCE && r.q.peer != s) continue;
          auto &dq = q[s][i]; for (size_t k = 0; k < dq.size(); ++k) if (!dq[k].taken && (r.q.tag == MPI_ANY_TAG || r.q.tag == dq[k].tag)) { opt.push_back({i, s, k}); wild[i]++; break; } }
      } else {
        Coll &c = coll[r.coll - 1]; size_t in = 0; for (char x : c.in) in += x;
        bool can = c.op == kBarrier ? in == (size_t) P : c.root == i ? (!c.sync || in == (size_t) P) : c.have;
        if (can) opt.push_back({i, -1, 0});
      }
    }
    if (done) break;
    if (opt.empty()) { fail("deadlock", all()); break; }
    // policies: any; one rank waits as long as possible; one rank goes first; workers before the master
    std::vector<size_t> c; for (size_t k = 0; k < opt.size(); ++k) { bool take = policy == 0 ? true : policy == 1 ? opt[k].rank != special : policy == 2 ? opt[k].rank == special : opt[k].rank != 0; if (take) c.push_back(k); }
    if (policy == 1) { std::vector<size_t> c2; for (size_t k : c) if (opt[k].src != special) c2.push_back(k); if (!c2.empty()) c = c2; }
    if (c.empty() || rnd() % 16 == 0) { c.clear(); for (size_t k = 0; k < opt.size(); ++k) c.push_back(k); }
    Opt o = opt[c[rnd() % c.size()]]; R.steps++; R.choices += wild[o.rank] > 1;
    R.hash = (R.hash ^ (uint64_t) (o.rank * 64 + o.src + 2)) * 1099511628211ull;
    auto &r = rk[o.rank];
    if (r.q.op == kSend) { auto &dq = q[o.rank][r.q.peer]; if (!r.eager && !dq.empty() && dq.back().taken) dq.pop_back(); reply(o.rank, 0, 0, 0, ""); }
    else if (r.q.op == kRecv) {
      auto &dq = q[o.src][o.rank]; Msg &g = dq[o.pos];
      if (g.kind != r.q.kind || g.count > r.q.count) { fail("message-type", where(o.rank) + " gets " + KindName(g.kind) + " x" + std::to_string(g.count) + " tag " + std::to_string(g.tag) + " from " + std::to_string(o.src)); break; }
      Msg cp = g; bool pend = g.sync && rk[o.src].st == Rank::Block && rk[o.src].q.op == kSend && rk[o.src].q.peer == o.rank && o.pos + 1 == dq.size() && !rk[o.src].eager;
      if (pend) { g.taken = true; g.d.clear(); } else dq.erase(dq.begin() + o.pos);
      reply(o.rank, o.src, cp.tag, cp.count, cp.d);
    } else { Coll &k = coll[r.coll - 1]; k.out[o.rank] = 1; std::string d = k.op == kBcast && k.root != o.rank ? k.d : std::string(); bool last = true; for (char x : k.out) last = last && x; if (last) { k.d.clear(); k.d.shrink_to_fit(); } reply(o.rank, k.root, 0, k.count, d); }
  }
  if (R.ok) {
    for (int s = 0; s < P; ++s) for (int d = 0; d < P; ++d) for (auto &g : q[s][d]) if (!g.taken) fail("message-never-received", KindName(g.kind) + std::string(" tag ") + std::to_string(g.tag) + " from " + std::to_string(s) + " to " + std::to_string(d));
    for (size_t k = 0; k < coll.size(); ++k) for (int i = 0; i < P; ++i) if (!coll[k].in[i]) fail("collective-not-joined", "rank " + std::to_string(i) + " missed collective " + std::to_string(k));
  }
  for (int i = 0; i < P; ++i) { auto &r = rk[i]; if (r.pid > 0) { if (!R.ok) kill(r.pid, SIGKILL); int st = 0; while (waitpid(r.pid, &st, 0) < 0 && errno == EINTR) {} if (R.ok && st != 0) died_with(i, st); } close(r.fd); }
  for (int i = 0; i < P; ++i) unlink(("rank" + std::to_string(i) + ".err").c_str());
  return R;
}
}

// ---------------------------------------------------------------- the tensor library's part
namespace qlten {
const int kMPIMasterRank = 0;
namespace hp_numeric {
inline void MPI_Send(const size_t n, const int dst, const int tag, const MPI_Comm &c) { uint64_t x = n; ::MPI_Send(&x, 1, MPI_UNSIGNED_LONG_LONG, dst, tag, c); }
inline MPI_Status MPI_Recv(size_t &n, const int src, const int tag, const MPI_Comm &c) { uint64_t x; MPI_Status s; ::MPI_Recv(&x, 1, MPI_UNSIGNED_LONG_LONG, src, tag, c, &s); n = x; return s; }
}
}
#endif
