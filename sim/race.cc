// Happens-before race detector for the instrumented build (-fsanitize=thread, these functions instead of
// libtsan). Vector clocks advance at the synchronisation operations of the simulator and at atomics;
// the accesses of every 8 bytes of memory are remembered. Only threads of the same party are compared.
// Memory accesses are also points where the scheduler may switch threads.
#include <cxxabi.h>
#include <dlfcn.h>
#include <pthread.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/single_threaded.h>
#include <unordered_map>
#include <vector>

#include "core.h"

extern "C" char __executable_start;

namespace sim {
bool race_preempt = false;         // switch threads at memory accesses
uint64_t race_accesses = 0;
namespace {
struct Rec { uint32_t pc, caller, clk; uint16_t fiber; uint8_t mask; uint8_t flags; };   // flags: 1 used, 2 write, 4 atomic
struct Cell { Rec r[4]; };
struct Guard { Guard() { set_internal(1); } ~Guard() { set_internal(-1); } };
using VC = std::vector<uint32_t>;

constexpr uintptr_t kArena = 0x200000000000ull;
constexpr size_t kArenaSize = 1ull << 28;
char* g_arena;
size_t g_off;
Cell* g_arena_shadow;
void* g_free[64];                                   // by size class
std::unordered_map<uintptr_t, Cell*>* g_pages;
uintptr_t g_last_page = 1;
Cell* g_last_cells;
uintptr_t g_tls_lo, g_tls_hi;
std::vector<VC>* g_clock;
std::unordered_map<const void*, VC>* g_sync;
std::vector<std::vector<uint32_t>>* g_calls;
uint64_t g_countdown;
bool g_armed, g_reported, g_in;

void init() {
  if (g_pages) return;
  g_pages = new std::unordered_map<uintptr_t, Cell*>;
  g_clock = new std::vector<VC>;
  g_sync = new std::unordered_map<const void*, VC>;
  g_calls = new std::vector<std::vector<uint32_t>>;
  g_arena = (char*)mmap((void*)kArena, kArenaSize, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
  if (g_arena != (char*)kArena) { g_arena = nullptr; }
  g_arena_shadow = (Cell*)mmap(nullptr, kArenaSize / 8 * sizeof(Cell), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (g_arena_shadow == MAP_FAILED) { g_arena = nullptr; }
  uintptr_t fs = (uintptr_t)pthread_self();
  asm("mov %%fs:0, %0" : "=r"(fs));
  g_tls_lo = fs - 65536;
  g_tls_hi = fs + 8192;
}
VC& clock_of(int f) {
  while ((int)g_clock->size() <= f) { int id = (int)g_clock->size(); g_clock->push_back(VC(id + 1, 0)); g_clock->back()[id] = 1; g_calls->emplace_back(); }
  return (*g_clock)[f];
}
void join_into(VC& a, const VC& b) { if (a.size() < b.size()) a.resize(b.size(), 0); for (size_t i = 0; i < b.size(); ++i) if (b[i] > a[i]) a[i] = b[i]; }

Cell* cell(uintptr_t a) {
  if (a - kArena < kArenaSize && g_arena) return g_arena_shadow + (a - kArena) / 8;
  uintptr_t pg = a >> 12;
  if (pg != g_last_page) {
    Guard g;
    Cell*& c = (*g_pages)[pg];
    if (!c) c = (Cell*)mmap(nullptr, 512 * sizeof(Cell), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    g_last_page = pg;
    g_last_cells = c;
  }
  return g_last_cells + ((a & 4095) >> 3);
}
void forget(uintptr_t a, size_t n) {
  if (a - kArena < kArenaSize) { memset(g_arena_shadow + (a - kArena) / 8, 0, (n + 7) / 8 * sizeof(Cell)); return; }
  Guard g;
  for (uintptr_t pg = a >> 12; pg <= (a + n - 1) >> 12; ++pg) {
    auto it = g_pages->find(pg);
    if (it == g_pages->end()) continue;
    for (int i = 0; i < 512; ++i) { uintptr_t x = (pg << 12) + 8 * i; if (x >= a && x < a + n) memset((void*)&it->second[i], 0, sizeof(Cell)); }
  }
}
std::string where(uint32_t off) {
  Dl_info i;
  std::string s = "?";
  const char* pc = &__executable_start + off;
  if (dladdr(pc, &i) && i.dli_sname) {
    int st;
    char* d = abi::__cxa_demangle(i.dli_sname, nullptr, nullptr, &st);
    s = d ? d : i.dli_sname;
    free(d);
    size_t par = s.find('(');
    if (par != std::string::npos && par > 20) s.resize(par);
    if (s.size() > 90) s = s.substr(0, 60) + "..." + s.substr(s.size() - 27);
  }
  char b[32];
  snprintf(b, sizeof b, "+0x%x", off);
  return s + b;
}
void report(const Rec& o, const Rec& n, uintptr_t a) {
  Guard g;
  g_reported = true;
  auto kind = [](const Rec& r) { return std::string(r.flags & 4 ? "atomic " : "") + (r.flags & 2 ? "write" : "read"); };
  violation("data-race", kind(n) + " by thread " + std::to_string(n.fiber) + " in " + where(n.pc) + " <- " + where(n.caller) + " and unordered " + kind(o) + " by thread " + std::to_string(o.fiber) + " in " + where(o.pc) + " <- " + where(o.caller) + " of the same memory of party " + std::to_string(fiber_party(o.fiber)));
  (void)a;
}
inline void one(uintptr_t a, uint8_t mask, uint8_t flags, uint32_t pc, int f) {
  Cell* c = cell(a);
  const VC& vc = (*g_clock)[f];
  uint32_t clk = vc[f];
  Rec* slot = nullptr;
  for (Rec& r : c->r) {
    if (!r.flags) { if (!slot) slot = &r; continue; }
    if (r.fiber == f && r.clk == clk && (r.mask & mask) == mask && (r.flags & flags & 2) == (flags & 2) && (r.flags & 4) == (flags & 4)) return;
  }
  auto& st = (*g_calls)[f];
  Rec n{pc, st.empty() ? 0 : st.back(), clk, (uint16_t)f, mask, (uint8_t)(flags | 1)};
  for (Rec& r : c->r) {
    if (!r.flags) continue;
    bool before = r.fiber == f || (r.fiber < vc.size() && r.clk <= vc[r.fiber]);
    if (!before && (r.mask & mask) && ((r.flags | flags) & 2) && !(r.flags & flags & 4) && !g_reported && fiber_party(r.fiber) == fiber_party(f)) report(r, n, a);
    // the new access tells at least as much
    if (before && (r.mask & ~mask) == 0 && ((flags & 2) || !(r.flags & 2)) && (!(flags & 4) || (r.flags & 4))) slot = &r;
  }
  if (!slot) slot = &c->r[(pc ^ clk) & 3];
  *slot = n;
}
void access(const void* p, size_t n, uint8_t flags, void* ret) {
  if (g_in || !in_sim()) return;
  uintptr_t a = (uintptr_t)p;
  if (a - g_tls_lo < g_tls_hi - g_tls_lo) return;
  g_in = true;
  if (!g_pages) { Guard g; init(); }
  int f = current_fiber();
  if ((int)g_clock->size() <= f) { Guard g; clock_of(f); }
  ++race_accesses;
  uint32_t pc = (uint32_t)((char*)ret - &__executable_start);
  uintptr_t e = a + n;
  while (a < e) {
    uintptr_t base = a & ~(uintptr_t)7;
    unsigned lo = a - base, hi = e - base < 8 ? e - base : 8;
    one(base, (uint8_t)(((1u << (hi - lo)) - 1) << lo), flags, pc, f);
    a = base + 8;
  }
  g_in = false;
  if (race_preempt) {
    if (!g_armed) { g_armed = true; g_countdown = choose(S, 600); if (!g_countdown) g_countdown = ~0ull; }
    if (--g_countdown == 0) { g_countdown = choose(S, 600); if (!g_countdown) g_countdown = ~0ull; yield(); }
  }
}
void h_acquire(int f, const void* o) { Guard g; init(); auto it = g_sync->find(o); if (it != g_sync->end()) join_into(clock_of(f), it->second); }
void h_release(int f, const void* o) { Guard g; init(); VC& c = clock_of(f); join_into((*g_sync)[o], c); ++c[f]; }
void h_fork(int p, int c) { Guard g; init(); clock_of(p > c ? p : c); VC& k = (*g_clock)[c]; join_into(k, (*g_clock)[p]); ++(*g_clock)[p][p]; }
void h_join(int p, int c) { Guard g; init(); clock_of(p > c ? p : c); join_into((*g_clock)[p], (*g_clock)[c]); }
void h_stack(const void* lo, size_t n) { Guard g; init(); g_last_page = 1; forget((uintptr_t)lo, n); }

// Heap of the parties: fixed addresses, so that runs do not depend on the address space layout.
int size_class(size_t n, size_t& sz) {
  size_t p = 16;                                    // 16, 32, 48, 64, 96, 128, 192, ...
  for (int i = 0;; i += 2, p *= 2) {
    if (n <= p) { sz = p; return i; }
    if (p > 16 && n <= p / 2 * 3) { sz = p / 2 * 3; return i + 1; }
  }
}
struct Head { size_t cls, n; };
void* h_alloc(size_t n) {
  Guard g;
  init();
  size_t sz;
  int c = size_class(n ? n : 1, sz);
  sz = (sz + 15) / 16 * 16;
  if (g_free[c]) {
    char* p = (char*)g_free[c];
    g_free[c] = *(void**)p;
    ((Head*)p)[-1].n = n;
    memset(p, 0xA5, sz < 4096 ? sz : 4096);
    forget((uintptr_t)p, sz);
    return p;
  }
  if (!g_arena || g_off + sz + 16 > kArenaSize) { return nullptr; }
  char* p = g_arena + g_off + 16;
  g_off += sz + 16;
  ((Head*)p)[-1] = Head{(size_t)c, n};
  memset(p, 0xA5, sz < 4096 ? sz : 4096);
  return p;
}
bool h_dealloc(void* p) {
  if ((uintptr_t)p - kArena >= kArenaSize) return false;
  Head& h = ((Head*)p)[-1];
  if (!(h.cls < 64)) return true;
  *(void**)p = g_free[h.cls];
  g_free[h.cls] = p;
  return true;
}
size_t h_usable(void* p) { return (uintptr_t)p - kArena < kArenaSize ? ((Head*)p)[-1].n : 0; }

struct Install {
  Install() {
    __libc_single_threaded = 0;
    hooks.acquire = h_acquire;
    hooks.release = h_release;
    hooks.fork = h_fork;
    hooks.join = h_join;
    hooks.stack = h_stack;
    hooks.alloc = h_alloc;
    hooks.dealloc = h_dealloc;
    hooks.usable = h_usable;
  }
} g_install;
inline void acq(const void* p) { if (in_sim() && !g_in) h_acquire(current_fiber(), p); }
inline void rel(const void* p) { if (in_sim() && !g_in) h_release(current_fiber(), p); }
}  // namespace
}  // namespace sim

using namespace sim;
#define RET __builtin_return_address(0)
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void* pc) {
  if (g_in || !in_sim()) return;
  Guard g;
  init();
  int f = current_fiber();
  clock_of(f);
  (*g_calls)[f].push_back((uint32_t)((char*)pc - &__executable_start));
}
void __tsan_func_exit() {
  if (g_in || !in_sim() || !g_calls) return;
  int f = current_fiber();
  if ((int)g_calls->size() > f && !(*g_calls)[f].empty()) (*g_calls)[f].pop_back();
}
#define RW(n) \
  void __tsan_read##n(void* p) { access(p, n, 0, RET); } \
  void __tsan_write##n(void* p) { access(p, n, 2, RET); } \
  void __tsan_unaligned_read##n(void* p) { access(p, n, 0, RET); } \
  void __tsan_unaligned_write##n(void* p) { access(p, n, 2, RET); } \
  void __tsan_volatile_read##n(void* p) { access(p, n, 0, RET); } \
  void __tsan_volatile_write##n(void* p) { access(p, n, 2, RET); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* p, size_t n) { access(p, n, 0, RET); }
void __tsan_write_range(void* p, size_t n) { access(p, n, 2, RET); }
void __tsan_vptr_update(void** p, void* v) { if (*p != v) access(p, 8, 2, RET); }
void __tsan_vptr_read(void** p) { access(p, 8, 0, RET); }

#define ATOMIC(bits, T) \
  T __tsan_atomic##bits##_load(const volatile T* p, int) { access((void*)p, sizeof(T), 4, RET); acq((void*)p); return *p; } \
  void __tsan_atomic##bits##_store(volatile T* p, T v, int) { access((void*)p, sizeof(T), 6, RET); rel((void*)p); *p = v; } \
  T __tsan_atomic##bits##_exchange(volatile T* p, T v, int) { access((void*)p, sizeof(T), 6, RET); acq((void*)p); rel((void*)p); T o = *p; *p = v; return o; } \
  T __tsan_atomic##bits##_fetch_add(volatile T* p, T v, int) { access((void*)p, sizeof(T), 6, RET); acq((void*)p); rel((void*)p); T o = *p; *p = (T)(o + v); return o; } \
  T __tsan_atomic##bits##_fetch_sub(volatile T* p, T v, int) { access((void*)p, sizeof(T), 6, RET); acq((void*)p); rel((void*)p); T o = *p; *p = (T)(o - v); return o; } \
  T __tsan_atomic##bits##_fetch_and(volatile T* p, T v, int) { access((void*)p, sizeof(T), 6, RET); acq((void*)p); rel((void*)p); T o = *p; *p = (T)(o & v); return o; } \
  T __tsan_atomic##bits##_fetch_or(volatile T* p, T v, int) { access((void*)p, sizeof(T), 6, RET); acq((void*)p); rel((void*)p); T o = *p; *p = (T)(o | v); return o; } \
  T __tsan_atomic##bits##_fetch_xor(volatile T* p, T v, int) { access((void*)p, sizeof(T), 6, RET); acq((void*)p); rel((void*)p); T o = *p; *p = (T)(o ^ v); return o; } \
  bool __tsan_atomic##bits##_compare_exchange_strong(volatile T* p, T* e, T v, int, int) { access((void*)p, sizeof(T), 6, RET); acq((void*)p); if (*p == *e) { rel((void*)p); *p = v; return true; } *e = *p; return false; } \
  bool __tsan_atomic##bits##_compare_exchange_weak(volatile T* p, T* e, T v, int a, int b) { (void)a; (void)b; access((void*)p, sizeof(T), 6, RET); acq((void*)p); if (*p == *e) { rel((void*)p); *p = v; return true; } *e = *p; return false; } \
  T __tsan_atomic##bits##_compare_exchange_val(volatile T* p, T e, T v, int, int) { access((void*)p, sizeof(T), 6, RET); acq((void*)p); T o = *p; if (o == e) { rel((void*)p); *p = v; } return o; }
ATOMIC(8, uint8_t) ATOMIC(16, uint16_t) ATOMIC(32, uint32_t) ATOMIC(64, uint64_t)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}

// Library copies made by instrumented code (objcopy redirects these names there).
void* race_memcpy(void* d, const void* s, size_t n) { access(s, n, 0, RET); access(d, n, 2, RET); return memcpy(d, s, n); }
void* race_memmove(void* d, const void* s, size_t n) { access(s, n, 0, RET); access(d, n, 2, RET); return memmove(d, s, n); }
void* race_memset(void* d, int c, size_t n) { access(d, n, 2, RET); return memset(d, c, n); }
int race_memcmp(const void* a, const void* b, size_t n) { access(a, n, 0, RET); access(b, n, 0, RET); return memcmp(a, b, n); }

}
