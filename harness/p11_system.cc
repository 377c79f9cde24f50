// P11: memory figures against the kernel's own, printed checkpoints.
#include "vmon.h"
#include <cerrno>
#include <sys/sysinfo.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <cmath>
#include <fstream>
#include <iostream>
#include "qlmps/memory_monitor.h"
using vmon::Mon; using vmon::Rng;
// Stand-in for the kernel query: passes through, or reports a synthetic machine, or fails.
static int g_mode = 0; static long g_calls = 0; static struct sysinfo g_fake;
#include <sys/syscall.h>
extern "C" int sysinfo(struct sysinfo *i) noexcept {
  ++g_calls;
  if (g_mode == 1) { *i = g_fake; return 0; }
  if (g_mode == 2) { errno = EFAULT; return -1; }
  return (int) syscall(SYS_sysinfo, i);
}
static const double GB = 1024.0 * 1024 * 1024;
struct Sys { double total, free; };
static Sys kernel() {      // the raw system call, not the library's reading of it
  struct sysinfo i; if (syscall(SYS_sysinfo, &i) != 0) _exit(71);
  return {(double) i.totalram * i.mem_unit / GB, ((double) i.freeram + (double) i.bufferram) * i.mem_unit / GB};
}
static std::string capture(const std::function<void()> &f) {
  std::ostringstream os; auto *old = std::cout.rdbuf(os.rdbuf());
  f();
  std::cout.rdbuf(old);
  return os.str();
}
static double after(const std::string &s, const std::string &label) {
  auto p = s.find(label);
  if (p == std::string::npos) return NAN;
  return strtod(s.c_str() + p + label.size(), nullptr);
}
int main(int argc, char **argv) {
  return vmon::run(argc, argv, "p11", [](size_t c, Rng &r, Mon &m) {
    // a real change of the machine's state: touch memory in this process
    size_t mb = r.below(vmon::thorough() ? 1500 : 400) + 1;
    void *blk = mmap(nullptr, mb << 20, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_POPULATE, -1, 0);
    if (blk == MAP_FAILED) _exit(71);
    int dev = (int) r.range(0, 7);
    qlmps::MemoryMonitor mon(dev);
    double tol = 1.0;     // other processes allocate meanwhile; retried below
    bool tracked = false, consistent = true; std::ostringstream d;
    for (int t = 0; t < 8 && !tracked; ++t) {
      Sys a = kernel();
      double fr = -1, us = -1, to = -1;
      mon.GetMemoryInfo(fr, us, to);
      Sys b = kernel();
      d << "free " << fr << " used " << us << " total " << to << " kernel " << a.total << "/" << a.free << ".." << b.free << "; ";
      consistent = consistent && std::fabs(to - a.total) < 1e-3 && std::fabs(us + fr - to) < 1e-9 * to + 1e-12 && fr >= 0 && us >= 0 && fr <= to && us <= to;
      double lo = std::min(a.free, b.free) - tol, hi = std::max(a.free, b.free) + tol;
      tracked = fr >= lo && fr <= hi;
      m.count("queries");
    }
    m.check(consistent, "figures-inconsistent", d.str());
    m.check(tracked, "free-memory-not-tracked", d.str());
    std::string msg = "step " + std::to_string(r.below(100000)) + (r.coin() ? " %s\t\xc3\xa9 Used: " : ""), txt;
    bool shown = false; 
    for (int t = 0; t < 8 && !shown; ++t) {
      Sys a = kernel();
      txt = capture([&] { mon.Checkpoint(msg); });
      Sys b = kernel();
      auto pm = txt.find(msg);
      if (pm == std::string::npos) break;
      std::string rest = txt.substr(pm + msg.size());
      double fr = after(rest, "Free: "), us = after(rest, "Used: "), to = after(rest, "Total: ");
      shown = std::fabs(to - a.total) <= 0.0051 && std::fabs(us + fr - to) <= 0.0161 && fr >= std::min(a.free, b.free) - tol && fr <= std::max(a.free, b.free) + tol && us >= 0;
      m.count("checkpoints");
    }
    m.check(shown, "checkpoint-figures", txt);
    std::string sum; bool ok = false;
    for (int t = 0; t < 8 && !ok; ++t) {
      Sys a = kernel();
      sum = capture([&] { qlmps::MemoryMonitor::ListAvailableDevices(); });
      Sys b = kernel();
      double fr = after(sum, "Available: "), us = after(sum, "Currently Used: "), to = after(sum, "Total: ");
      ok = std::fabs(to - a.total) <= 0.0051 && std::fabs(us + fr - to) <= 0.0161 && fr >= std::min(a.free, b.free) - tol && fr <= std::max(a.free, b.free) + tol;
    }
    m.check(ok, "summary-figures", sum);
    m.check(mon.GetDeviceId() == 0, "device-id");
    munmap(blk, mb << 20);
    // synthetic machines (any size, any accounting unit) and a failing query
    for (int t = 0; t < 20; ++t) {
      memset(&g_fake, 0, sizeof g_fake);
      g_fake.mem_unit = r.coin() ? 1u : r.coin() ? 4096u : (unsigned) (1u << r.below(17));
      unsigned long units = 1 + r.next() % ((1ul << r.range(30, 50)) / g_fake.mem_unit + 1);
      g_fake.totalram = units; g_fake.freeram = r.next() % (units + 1); g_fake.bufferram = r.coin(0.3) ? 0 : r.next() % (units - g_fake.freeram + 1);
      g_fake.sharedram = r.next() % 1000; g_fake.totalswap = r.next() % units; g_fake.freeswap = r.next() % units; g_fake.totalhigh = 7; g_fake.freehigh = 3;
      double T = (double) units * g_fake.mem_unit / GB, F = ((double) g_fake.freeram + (double) g_fake.bufferram) * g_fake.mem_unit / GB;
      double fr = -1, us = -1, to = -1; long before = g_calls;
      g_mode = 1; mon.GetMemoryInfo(fr, us, to);
      std::string txt2 = capture([&] { mon.Checkpoint("x"); }), sum2 = capture([&] { qlmps::MemoryMonitor::ListAvailableDevices(); });
      g_mode = 0;
      if (g_calls == before) break;      // the figures come from elsewhere: nothing to compare with
      auto eq = [&](double a, double b) { return std::fabs(a - b) <= 1e-12 * (T + 1); };
      auto near = [&](double a, double b) { return std::fabs(a - b) <= 0.00501 + 1e-12 * T; };
      std::ostringstream w; w << "machine total " << T << " free+buffers " << F << " unit " << g_fake.mem_unit << ": got " << fr << "/" << us << "/" << to << " " << txt2 << sum2;
      m.check(eq(to, T) && eq(fr, F) && eq(us, T - F), "synthetic/figures", w.str());
      m.check(near(after(txt2, "Total: "), T) && near(after(txt2, "Free: "), F) && near(after(txt2, "Used: "), T - F), "synthetic/checkpoint", w.str());
      m.check(near(after(sum2, "Total: "), T) && near(after(sum2, "Available: "), F) && near(after(sum2, "Currently Used: "), T - F), "synthetic/summary", w.str());
      bool threw = false;
      g_mode = 2; try { mon.GetMemoryInfo(fr, us, to); } catch (const std::runtime_error &) { threw = true; } g_mode = 0;
      m.check(threw, "failed-query-not-reported");
      m.count("synthetic_machines"); m.distinct(vmon::mix(units, g_fake.freeram));
    }
    m.distinct(vmon::mix(mb, (uint64_t) dev));
    if (c < 3) m.sample(std::to_string(mb) + " MB touched: " + txt);
  });
}
