// The seam in front of scl::PRG::Next (linked with --wrap): see g_prg_random in proto.h.
#include "proto.h"
extern "C" {
void __real__ZN3scl3PRG4NextEPhm(void* self, unsigned char* dst, size_t n) __attribute__((weak));
void __wrap__ZN3scl3PRG4NextEPhm(void* self, unsigned char* dst, size_t n) {
  if (!h::g_prg_probing && (!h::g_prg_random || !sim::in_sim())) return __real__ZN3scl3PRG4NextEPhm(self, dst, n);
  ++h::g_prg_calls;
  uint64_t& state = h::g_prg_mine ? *h::g_prg_mine : h::g_prg_state;
  while (n) {
    uint64_t z = (state += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    z ^= z >> 31;
    size_t m = n < 8 ? n : 8;
    memcpy(dst, &z, m);
    dst += m; n -= m;
  }
}
}
