// Stand-in for TensorToolkit's timer (see ../qlten.h).
#ifndef VERIF_QLTEN_TIMER_H
#define VERIF_QLTEN_TIMER_H
#include <chrono>
#include <iostream>
#include <string>
namespace qlten {
class Timer {
 public:
  Timer() { ClearAndRestart(); }
  explicit Timer(const std::string &n) : name_(n) { ClearAndRestart(); }
  Timer(const char *n) : name_(n) { ClearAndRestart(); }
  void Restart() { t_ = std::chrono::steady_clock::now(); }
  void Suspend() {}
  void ClearAndRestart() { t_ = std::chrono::steady_clock::now(); }
#ifdef VERIF_FROZEN_CLOCK
  double Elapsed() const { return 1.0; }
#else
  double Elapsed() const { return std::chrono::duration<double>(std::chrono::steady_clock::now() - t_).count(); }
#endif
  double PrintElapsed(size_t = 5) const {     // one unformatted write, so that a thread printing a timer leaves the formats of another alone
     double e = Elapsed(); std::string l = "[timing] " + name_ + "\t" + std::to_string(e) + "\n"; std::cout.write(l.data(), (std::streamsize) l.size()); return e; }
 private:
  std::string name_;
  std::chrono::steady_clock::time_point t_;
};
}
#endif
