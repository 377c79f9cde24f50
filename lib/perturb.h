// What a program must not depend on: the contents of fresh memory, addresses, the clock.  Include first, in one source.
#ifndef VERIF_PERTURB_H
#define VERIF_PERTURB_H
#include <malloc.h>
#include <alloca.h>
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <new>
namespace perturb {
struct State { int byte = -1; size_t pad = 0; uint64_t seed = 1; unsigned long fills = 0; };
inline State &st() { static State s; return s; }
inline void *get(size_t n) {
  State &s = st(); size_t pad = 0;
  if (s.pad) { s.seed = s.seed * 6364136223846793005ull + 1442695040888963407ull; pad = 16 * ((s.seed >> 40) % s.pad); }      // other sizes, other addresses
  void *p = malloc(n + pad + 1); if (!p) throw std::bad_alloc();
  if (s.byte >= 0) { memset(p, s.byte, n + pad + 1); ++s.fills; }
  return p; }
inline void put(void *p) { State &s = st(); if (p && s.byte >= 0) memset(p, s.byte ^ 0xff, malloc_usable_size(p)); free(p); }
__attribute__((noinline)) inline void stack(int byte, size_t n) { char *volatile p = (char *) alloca(n); memset((void *) p, byte, n); }
// from now on fresh memory holds this byte
inline void start(int byte, size_t pad, uint64_t seed) { st().byte = byte; st().pad = pad; st().seed = seed; mallopt(M_PERTURB, byte ^ 0xff); stack(byte, 1 << 20); }
}
void *operator new(size_t n) { return perturb::get(n); }
void *operator new[](size_t n) { return perturb::get(n); }
void operator delete(void *p) noexcept { perturb::put(p); }
void operator delete[](void *p) noexcept { perturb::put(p); }
void operator delete(void *p, size_t) noexcept { perturb::put(p); }
void operator delete[](void *p, size_t) noexcept { perturb::put(p); }
#endif
