#include "core.h"

#include <arpa/inet.h>
#include <cxxabi.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <sys/ioctl.h>
#include <sys/select.h>
#include <linux/futex.h>
#include <link.h>
#include <malloc.h>
#include <netinet/in.h>
#include <poll.h>
#include <pthread.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>

#include <algorithm>
#include <cstdlib>
#include <deque>
#include <exception>
#include <memory>
#include <mutex>
#include <queue>
#include <stdexcept>
#include <system_error>
#include <typeinfo>
#include <unordered_map>

// ---------------------------------------------------------------------------------------------
// raw system calls (our own read/write/... replace libc's, so libc wrappers cannot be used here)
// ---------------------------------------------------------------------------------------------
static inline long raw3(long n, long a, long b, long c) {
  long r;
  asm volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c) : "rcx", "r11", "memory");
  return r;
}
static inline long raw6(long n, long a, long b, long c, long d, long e, long f) {
  long r;
  register long r10 asm("r10") = d;
  register long r8 asm("r8") = e;
  register long r9 asm("r9") = f;
  asm volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
  return r;
}
static inline long ret_errno(long r) {
  if (r < 0 && r > -4096) { errno = (int)-r; return -1; }
  return r;
}

extern "C" void sim_switch(void** save_sp, void* new_sp);
asm(R"(
.text
.globl sim_switch
.type sim_switch,@function
sim_switch:
  pushq %rbp
  pushq %rbx
  pushq %r12
  pushq %r13
  pushq %r14
  pushq %r15
  movq %rsp,(%rdi)
  movq %rsi,%rsp
  popq %r15
  popq %r14
  popq %r13
  popq %r12
  popq %rbx
  popq %rbp
  ret
.size sim_switch,.-sim_switch
)");

extern "C" void* __libc_malloc(size_t);
extern "C" void* __libc_calloc(size_t, size_t);
extern "C" void* __libc_realloc(void*, size_t);

namespace sim {

Config cfg;
Hooks hooks;
Result* g_result = nullptr;
Sparse g_rec[NSTREAMS];
bool g_trace = false;
std::map<std::string, VFile> vfiles;
const char* fault_names[NFAULTKINDS] = {"party_crash", "connection_reset", "party_stall", "link_partition_heal",
                                        "read_error", "write_error", "allocation_failure", "thread_create_failure",
                                        "socket_call_failure"};

// ---- PRNG and choice streams ------------------------------------------------------------------
static inline uint64_t splitmix(uint64_t& x) {
  uint64_t z = (x += 0x9E3779B97F4A7C15ull);
  z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
  z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
  return z ^ (z >> 31);
}
static uint64_t g_rng[NSTREAMS + 1];                 // one generator per stream + strategy
static uint32_t g_idx[NSTREAMS];
static const Sparse* g_replay = nullptr;
static size_t g_rpos[NSTREAMS];
static uint64_t g_hash, g_sched_hash;

static inline void mixh(uint64_t& h, uint64_t v) { h ^= v + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; h ^= h >> 32; }
void mix(uint64_t v) { mixh(g_hash, v); }

static int g_internal = 0;   // >0: simulator code is running (no alloc faults, no scheduling)
void set_internal(int d) { g_internal += d; }
struct Internal { Internal() { ++g_internal; } ~Internal() { --g_internal; } };

static inline uint64_t record(Stream s, uint64_t v) {
  uint32_t i = g_idx[s]++;
  if (v) { Internal g; g_rec[s].emplace_back(i, v); }
  return v;
}
static inline bool replayed(Stream s, uint64_t& v) {
  if (!g_replay) return false;
  uint32_t i = g_idx[s];
  const Sparse& r = g_replay[s];
  size_t& p = g_rpos[s];
  while (p < r.size() && r[p].first < i) ++p;
  v = (p < r.size() && r[p].first == i) ? r[p].second : 0;
  return true;
}
uint64_t choose(Stream s, uint64_t n) {
  if (n <= 1) return 0;
  uint64_t v;
  if (replayed(s, v)) v %= n;
  else v = splitmix(g_rng[s]) % n;
  return record(s, v);
}
bool chance(Stream s, unsigned num, unsigned den) {
  if (num == 0) return false;
  uint64_t v;
  if (replayed(s, v)) v = v != 0;
  else v = splitmix(g_rng[s]) % den < num;
  return record(s, v) != 0;
}
unsigned weighted(Stream s, std::initializer_list<unsigned> w) {
  uint64_t v;
  if (replayed(s, v)) v %= w.size();
  else {
    unsigned tot = 0;
    for (unsigned x : w) tot += x;
    unsigned r = splitmix(g_rng[s]) % tot;
    v = 0;
    for (unsigned x : w) { if (r < x) break; r -= x; ++v; }
  }
  return (unsigned)record(s, v);
}
uint64_t logu(Stream s, uint64_t max) {
  uint64_t v;
  if (replayed(s, v)) { if (v > max) v = max; }
  else {
    unsigned bits = 0;
    while ((max >> bits) > 0) ++bits;
    unsigned b = splitmix(g_rng[s]) % (bits + 1);
    v = b == 0 ? 0 : (1ull << (b - 1)) + splitmix(g_rng[s]) % (1ull << (b - 1));
    if (v > max) v = max;
  }
  return record(s, v);
}

// ---- structures ---------------------------------------------------------------------------------
struct Fiber {
  int id = 0, party = -1;
  void* sp = nullptr;
  char* stack = nullptr;
  enum { RUN, BLOCK, DONE, DEAD } st = RUN;
  std::function<void()> fn;
  void* (*start)(void*) = nullptr;
  void* arg = nullptr;
  void* ret = nullptr;
  void* once_arg = nullptr; void (*once_fn)() = nullptr;   // std::call_once
  void* eh_caught = nullptr;
  unsigned eh_uncaught = 0;
  int err = 0;
  int internal = 0;
  char* tls = nullptr;
  const char* what = "";
  long what_arg = 0;
  const void* wait_obj = nullptr;
  bool timed_out = false;
  bool woken = false;
  uint64_t wake_seq = 0;
  bool detached = false, joined = false, is_main = false;
  uint64_t prio = 0;
};

struct Pipe;
struct Socket;
struct Party {
  int id = 0;
  std::string name;
  int host = 0;
  PartyInfo info;
  std::function<void()> body;
  std::vector<Socket*> fds;
  int phase_idx = 0;
  uint64_t phase_ops = 0, ops = 0;
  uint64_t stalled_until = 0;
  std::vector<Fiber*> stalled;
  int fail_read = 0, fail_write = 0, fail_thread = 0, fail_socket = 0;
  uint64_t alloc_fail_in = 0;
  bool started = false;
  int live = 0;
  uint64_t stray_ops = 0;        // operations on descriptors that are not open
  std::map<std::string, Span> spans;
  void op_done();
};

struct Pipe {
  std::vector<uint8_t> buf;      // bytes [rd, wr)
  size_t off = 0;                // index in buf of byte rd
  uint64_t wr = 0, dl = 0, rd = 0;
  bool fin_sent = false, fin_arrived = false;
  bool dead = false;             // reset: nothing more is delivered
  uint64_t last_t = 0;
  int from = -1, to = -1;        // parties
  int host_a = 0, host_b = 0;
  Socket *src = nullptr, *dst = nullptr;
  std::map<std::string, uint64_t> by_phase;
  bool closed_with_unread = false;
  size_t cap = 0;
};
struct Socket {
  enum { NEW, BOUND, LISTEN, CONNECTING, CONN, DEADSTATE } st = NEW;
  int party = -1, host = 0;
  int port = 0;
  int backlog = 0;
  bool reuse = false, reuse_addr = false, abort_on_close = false;
  uint64_t wait_until = 0;       // closed first: the port is in TIME_WAIT until then
  uint32_t peer_ip = 0; int peer_port = 0;
  uint32_t my_ip = 0; int my_port = 0;
  Pipe *in = nullptr, *out = nullptr;
  bool rst = false;              // connection is dead: writes give EPIPE
  int sk_err = 0;
  bool wr_shut = false;
  int ops = 0;
  bool fd_closed = false, released = false;
  bool nonblock = false;
  uint64_t rcv_timeo = 0, snd_timeo = 0;
  std::deque<Socket*> acceptq;
};

struct Ev {
  uint64_t t, seq;
  int kind;                      // 0 closure, 1 deliver, 2 timer
  void* p;
  uint64_t a;
  std::shared_ptr<std::function<void()>> fn;
};
struct EvCmp { bool operator()(const Ev& a, const Ev& b) const { return a.t != b.t ? a.t > b.t : a.seq > b.seq; } };

static std::vector<Fiber*> g_fibers;
static std::vector<Fiber*> g_runq;       // runnable, in the order they became runnable (without g_cur)
static std::vector<Fiber*> g_blocked;
static Fiber g_main;
static Fiber* g_cur = nullptr;           // nullptr outside run()
static std::vector<Party*> g_parties;
static std::vector<uint32_t> g_hosts;    // ip, network order
static int64_t g_wall_off[1024];          // how wrong the wall clock of a host is
static std::priority_queue<Ev, std::vector<Ev>, EvCmp> g_events;
static uint64_t g_now, g_seq, g_steps, g_switches, g_preempt;
static Outcome g_outcome;
static std::map<std::pair<int, int>, std::vector<Socket*>> g_listeners;   // (host, port)
static std::map<std::pair<int, int>, std::vector<Socket*>> g_accepted;    // (host, port of the listener)
static std::vector<Pipe*> g_pipes;
static std::vector<Socket*> g_sockets;
static std::vector<PlannedFault> g_planned;
static std::vector<char*> g_stacks;
static std::map<std::pair<int, int>, uint64_t> g_link_stall;              // party pair -> until
static std::map<std::string, uint64_t> g_probes;
static std::map<std::string, std::pair<int, int>> g_barriers;             // key -> (arrived, generation)
static int g_active_parties;
static bool g_running = false;
static std::unordered_map<int, std::string> g_vfds;                       // open fd -> vfile path
static int g_ephemeral = 40000;

static const size_t kStack = 256 * 1024;
static const int kFdBase = 200;

bool in_sim() { return g_running && g_cur && g_cur != &g_main && g_internal == 0; }
int self() { return g_cur ? g_cur->party : -1; }
int current_fiber() { return g_cur ? g_cur->id : -1; }
int fiber_party(int f) { return f >= 0 && f < (int)g_fibers.size() ? g_fibers[f]->party : -1; }
bool preempt_enabled() { return in_sim(); }
uint64_t now() { return g_now; }
uint64_t stamp() { static uint64_t n = 0; return ++n; }
const PartyInfo& info(int p) { return g_parties[p]->info; }
uint64_t party_steps(int p) { return g_parties[p]->ops; }
int phase_index(int p) { return g_parties[p]->phase_idx; }
const std::vector<PlannedFault>& planned() { return g_planned; }
static void count_fault(int k, uint64_t n = 1) { if (g_result) g_result->faults[k] += n; }

static void tracef(const char* fmt, ...) {
  if (!g_trace) return;
  Internal g;
  char b[512];
  int n = snprintf(b, sizeof b, "%12.6fms step %llu p%d/f%d: ", g_now / 1e6, (unsigned long long)g_steps, self(), current_fiber());
  va_list ap; va_start(ap, fmt);
  n += vsnprintf(b + n, sizeof b - n - 1, fmt, ap);
  va_end(ap);
  if (n > (int)sizeof b - 2) n = sizeof b - 2;
  b[n++] = '\n';
  raw3(SYS_write, 2, (long)b, n);
}

// ---- results ----------------------------------------------------------------------------------
bool violated() { return g_result && g_result->violated != 0; }
void violation(const std::string& cls, const std::string& detail) {
  Internal g;
  if (!g_result) return;
  if (g_result->violated == 1) return;
  g_result->violated = 1;
  snprintf(g_result->cls, sizeof g_result->cls, "%s", cls.c_str());
  snprintf(g_result->detail, sizeof g_result->detail, "%s", detail.c_str());
  tracef("VIOLATION %s: %s", cls.c_str(), detail.c_str());
}
void known(const std::string& key, const std::string& detail) {
  Internal g;
  if (!g_result || g_result->violated) return;
  g_result->violated = 2;
  snprintf(g_result->cls, sizeof g_result->cls, "%s", key.c_str());
  snprintf(g_result->key, sizeof g_result->key, "%s", key.c_str());
  snprintf(g_result->detail, sizeof g_result->detail, "%s", detail.c_str());
}
void probe(const char* name, uint64_t n) { Internal g; g_probes[name] += n; }
void describe(const std::string& t) { if (g_result) { Internal g; size_t l = strlen(g_result->desc); snprintf(g_result->desc + l, sizeof g_result->desc - l, "%s", t.c_str()); } }
void trivial() { if (g_result) g_result->trivial = 1; }

// ---- scheduling ---------------------------------------------------------------------------------
enum Strat { RTB = 0, UNIFORM, PSWITCH, PCT, STARVE, RROBIN };
static int g_strat;
static unsigned g_pden;
static uint64_t g_pct_next;
static std::vector<int> g_victims;
static uint64_t g_starve_until;

static uint64_t srng() { return splitmix(g_rng[NSTREAMS]); }

static void draw_strategy() {
  static const int tab[] = {RTB, UNIFORM, UNIFORM, PSWITCH, PSWITCH, PSWITCH, PCT, PCT, PCT, STARVE, STARVE, RROBIN};
  g_strat = tab[srng() % (sizeof tab / sizeof *tab)];
  static const unsigned dens[] = {2, 4, 8, 16, 50, 200, 1000};
  g_pden = dens[srng() % 7];
  g_pct_next = srng() % 2000;
  g_starve_until = 0;
}

static size_t pick_index(Fiber* cur, size_t r) {
  // candidate 0 is cur (if non-null), then g_runq in order
  auto cand = [&](size_t i) -> Fiber* { return cur ? (i == 0 ? cur : g_runq[i - 1]) : g_runq[i]; };
  switch (g_strat) {
    case RTB: return 0;
    case UNIFORM: return srng() % r;
    case PSWITCH: return srng() % g_pden == 0 ? srng() % r : 0;
    case RROBIN: return cur && r > 1 ? 1 : 0;
    case PCT: {
      if (g_steps >= g_pct_next) {
        g_pct_next = g_steps + 1 + srng() % (g_pden * 20);
        if (cur) cur->prio = srng() >> 32; else g_runq[0]->prio = srng() >> 32;
      }
      size_t b = 0;
      for (size_t i = 1; i < r; ++i) if (cand(i)->prio > cand(b)->prio) b = i;
      return b;
    }
    case STARVE: {
      if (g_steps >= g_starve_until) {
        g_starve_until = g_steps + 50 + srng() % 5000;
        g_victims.clear();
        for (size_t i = 0; i < g_fibers.size(); ++i) if (srng() % 3 == 0) g_victims.push_back((int)i);
      }
      size_t start = srng() % 4 == 0 ? srng() % r : 0;
      for (size_t k = 0; k < r; ++k) {
        size_t i = (start + k) % r;
        if (!std::binary_search(g_victims.begin(), g_victims.end(), cand(i)->id)) return i;
      }
      return 0;
    }
  }
  return 0;
}

// thread_local variables of the code under test: one image per simulated thread
static char* g_tls = nullptr;
static size_t g_tls_size = 0;
static const char* g_tls_init = nullptr;
static size_t g_tls_init_size = 0;
static int find_tls(struct dl_phdr_info* i, size_t, void*) {
  if (i->dlpi_name && i->dlpi_name[0]) return 0;
  for (int k = 0; k < i->dlpi_phnum; ++k)
    if (i->dlpi_phdr[k].p_type == PT_TLS) {
      g_tls = (char*)i->dlpi_tls_data;
      g_tls_size = i->dlpi_phdr[k].p_memsz;
      g_tls_init = (const char*)(i->dlpi_addr + i->dlpi_phdr[k].p_vaddr);
      g_tls_init_size = i->dlpi_phdr[k].p_filesz;
    }
  return 1;
}
static char* tls_image() {
  char* t = new char[g_tls_size];
  memset(t, 0, g_tls_size);
  memcpy(t, g_tls_init, g_tls_init_size);
  return t;
}

static void switch_to(Fiber* f) {
  Fiber* c = g_cur;
  if (c == f) return;
  if (g_tls_size) {
    if (!c->tls) c->tls = new char[g_tls_size];
    if (!f->tls) f->tls = tls_image();
    memcpy(c->tls, g_tls, g_tls_size);
    memcpy(g_tls, f->tls, g_tls_size);
  }
  struct EhGlobals { void* c; unsigned u; };
  auto* eg = reinterpret_cast<EhGlobals*>(abi::__cxa_get_globals());
  c->eh_caught = eg->c; c->eh_uncaught = eg->u;
  c->once_arg = std::__once_callable; c->once_fn = std::__once_call;
  std::__once_callable = f->once_arg; std::__once_call = f->once_fn;
  c->err = errno;
  c->internal = g_internal;
  g_cur = f;
  ++g_switches;
  eg->c = f->eh_caught; eg->u = f->eh_uncaught;
  g_internal = f->internal;
  errno = f->err;
  sim_switch(&c->sp, f->sp);
}

[[noreturn]] static void to_main() {
  switch_to(&g_main);
  __builtin_unreachable();
}

static void make_runnable(Fiber* f) {
  f->st = Fiber::RUN;
  Party* p = g_parties[f->party];
  if (p->stalled_until > g_now) p->stalled.push_back(f);
  else g_runq.push_back(f);
}
static void wake(Fiber* f, bool timeout = false) {
  if (f->st != Fiber::BLOCK) return;
  f->timed_out = timeout;
  ++f->wake_seq;
  f->wait_obj = nullptr;
  auto it = std::find(g_blocked.begin(), g_blocked.end(), f);
  if (it != g_blocked.end()) g_blocked.erase(it);
  make_runnable(f);
}
static void wake_all(const void* obj) {
  for (size_t i = 0; i < g_blocked.size();) {
    if (g_blocked[i]->wait_obj == obj) wake(g_blocked[i]);
    else ++i;
  }
}
static Fiber* wake_one(const void* obj, Stream s = S) {
  std::vector<Fiber*> c;
  for (Fiber* f : g_blocked) if (f->wait_obj == obj) c.push_back(f);
  if (c.empty()) return nullptr;
  Fiber* f = c[c.size() > 1 ? choose(s, c.size()) : 0];
  wake(f);
  return f;
}

static void push_event(uint64_t t, std::function<void()> fn) {
  g_events.push(Ev{t, ++g_seq, 0, nullptr, 0, std::make_shared<std::function<void()>>(std::move(fn))});
}

static void deliver(Pipe* p, uint64_t upto) {
  if (!p->dead && upto > p->dl) { p->dl = upto; wake_all(p); }
}
static void fire_due() {
  while (!g_events.empty() && g_events.top().t <= g_now) {
    Ev e = g_events.top();
    g_events.pop();
    if (e.kind == 1) deliver((Pipe*)e.p, e.a);
    else if (e.kind == 2) { Fiber* f = (Fiber*)e.p; if (f->st == Fiber::BLOCK && f->wake_seq == e.a) wake(f, true); }
    else (*e.fn)();
  }
}

static void check_faults();

// Chooses who runs next. cur_ok: the current fiber may continue.
static void reschedule(bool cur_ok) {
  for (;;) {
    fire_due();
    if (cur_ok && g_cur->st != Fiber::RUN) cur_ok = false;
    Fiber* cur = cur_ok ? g_cur : nullptr;
    size_t r = g_runq.size() + (cur ? 1 : 0);
    if (r > 0) {
      size_t i = 0;
      if (r > 1) {
        uint64_t v;
        if (replayed(S, v)) v %= r;
        else v = pick_index(cur, r);
        i = (size_t)record(S, v);
      }
      if (cur && i == 0) return;
      size_t q = cur ? i - 1 : i;
      Fiber* f = g_runq[q];
      g_runq.erase(g_runq.begin() + q);
      if (cur) { g_runq.push_back(cur); ++g_preempt; }
      mixh(g_sched_hash, f->id);
      mixh(g_hash, (g_steps << 8) ^ f->id);
      switch_to(f);
      return;
    }
    if (g_active_parties == 0) { g_outcome = DONE; to_main(); }
    if (g_events.empty()) { g_outcome = DEADLOCK; to_main(); }
    uint64_t t = g_events.top().t;
    if (t > g_now) g_now = t;
    if (g_now > cfg.max_time_ns) { g_outcome = TIME_LIMIT; to_main(); }
  }
}

// Every interposed operation passes here first.
static void sched_point(const char* what, long arg = 0) {
  Internal g;
  g_cur->what = what;
  g_cur->what_arg = arg;
  ++g_steps;
  g_now += cfg.step_ns;
  Party* p = g_parties[g_cur->party];
  ++p->ops;
  ++p->phase_ops;
  if (g_steps > cfg.max_steps) { g_outcome = STEP_LIMIT; to_main(); }
  if (!g_planned.empty()) check_faults();
  reschedule(true);
}

// Switches to another thread of the same party, inside a computation.
static uint64_t g_fine_left, g_fine_switches;
static bool g_fine_armed;
static void fine_point() {
  Internal g;
  g_fine_left = 1 + choose(S, 2 * cfg.fine);
  if (!g_fine_armed) { g_fine_armed = true; return; }
  std::vector<size_t> c;
  for (size_t i = 0; i < g_runq.size(); ++i) if (g_runq[i]->party == g_cur->party) c.push_back(i);
  if (c.empty()) return;
  if (++g_steps > cfg.max_steps) { g_outcome = STEP_LIMIT; to_main(); }
  size_t i = choose(S, c.size() + 1);
  if (!i) return;
  Fiber* f = g_runq[c[i - 1]];
  g_runq.erase(g_runq.begin() + c[i - 1]);
  g_runq.push_back(g_cur);
  ++g_preempt;
  ++g_fine_switches;
  mixh(g_sched_hash, f->id);
  mixh(g_hash, (g_steps << 8) ^ f->id);
  switch_to(f);
}
extern "C" void __sanitizer_cov_trace_pc() {
  if (!cfg.fine || !in_sim()) return;
  if (g_fine_left) { --g_fine_left; return; }
  fine_point();
}
// Initialisation of function-local statics: the real one would wait for a thread that cannot run.
extern "C" int __cxa_guard_acquire(uint64_t* g) {
  char* b = (char*)g;
  while (b[1] && !b[0]) {
    if (!in_sim()) abort();
    yield();
  }
  if (b[0]) { if (in_sim() && hooks.acquire) hooks.acquire(current_fiber(), g); return 0; }
  b[1] = 1;
  return 1;
}
extern "C" void __cxa_guard_release(uint64_t* g) noexcept {
  if (in_sim() && hooks.release) hooks.release(current_fiber(), g);
  ((char*)g)[0] = 1;
  ((char*)g)[1] = 0;
}
extern "C" void __cxa_guard_abort(uint64_t* g) noexcept { ((char*)g)[1] = 0; }

static bool block(const void* obj, const char* what, long arg = 0, uint64_t until = UINT64_MAX) {
  Internal g;
  Fiber* f = g_cur;
  f->what = what;
  f->what_arg = arg;
  f->st = Fiber::BLOCK;
  f->wait_obj = obj;
  f->timed_out = false;
  g_blocked.push_back(f);
  if (until != UINT64_MAX) g_events.push(Ev{until, ++g_seq, 2, f, f->wake_seq, nullptr});
  reschedule(false);
  return !f->timed_out;
}

void yield() { if (in_sim()) sched_point("yield"); }

void sleep_ns(uint64_t ns) {
  if (!in_sim()) return;
  sched_point("sleep");
  Internal g;
  static int dummy;
  block(&dummy, "sleep", 0, g_now + (ns ? ns : 1));
}

void barrier(const std::string& key, int n) {
  sched_point("barrier");
  Internal g;
  auto& b = g_barriers[key];
  int gen = b.second;
  if (++b.first >= n) {
    b.first = 0;
    ++b.second;
    wake_all(&b);
  } else {
    while (g_barriers[key].second == gen) block(&b, "barrier");
  }
}

void wait_on(const void* obj, const char* what) { Internal g; block(obj, what); }
void wake_waiters(const void* obj) { Internal g; wake_all(obj); }

// ---- fibers -------------------------------------------------------------------------------------
static void close_party(Party* p);

static void fiber_end(Fiber* f) {
  Internal g;
  f->st = Fiber::DONE;
  if (f->stack) { g_stacks.push_back(f->stack); }
  Party* p = g_parties[f->party];
  --p->live;
  wake_all(f);
  if (f->is_main) {
    // process exit: remaining threads die, the kernel closes the sockets
    p->info.end_time = g_now;
    if (p->info.status == RUNNING) p->info.status = EXITED;
    tracef("party %s ends (%s)", p->name.c_str(), p->info.why.c_str());
    close_party(p);
  }
  reschedule(false);
}

static std::string current_exception_text() {
  try { throw; }
  catch (const std::exception& e) { return std::string(typeid(e).name()) + ": " + e.what(); }
  catch (...) { return "unknown exception"; }
}

[[noreturn]] static void party_abort(const std::string& why) {
  Internal g;
  Party* p = g_parties[g_cur->party];
  if (p->info.status == RUNNING) {
    p->info.status = FAILED;
    p->info.why = why;
    p->info.end_time = g_now;
  }
  tracef("party %s aborts: %s", p->name.c_str(), why.c_str());
  g_cur->st = Fiber::DEAD;
  close_party(p);
  reschedule(false);
  __builtin_unreachable();
}

static void fiber_main() noexcept {
  Fiber* f = g_cur;
  g_internal = 0;
  if (f->start) {
    f->ret = f->start(f->arg);
  } else if (f->is_main) {
    try {
      f->fn();
    } catch (...) {
      std::string w = current_exception_text();
      Internal g;
      Party* p = g_parties[f->party];
      p->info.status = FAILED;
      p->info.why = w;
    }
  } else {
    f->fn();
  }
  fiber_end(f);
}

static Fiber* new_fiber(int party) {
  Internal g;
  Fiber* f = new Fiber;
  f->id = (int)g_fibers.size();
  f->party = party;
  f->prio = srng() >> 32;
  g_fibers.push_back(f);
  char* st;
  size_t si = g_stacks.size();
  while (si > 0 && g_cur && g_stacks[si - 1] == g_cur->stack) --si;   // never the stack we are running on
  if (si > 0) { st = g_stacks[si - 1]; g_stacks.erase(g_stacks.begin() + (si - 1)); }
  else {
    st = (char*)mmap(nullptr, kStack + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (st == MAP_FAILED) { raw3(SYS_exit_group, 97, 0, 0); }
    mprotect(st, 4096, PROT_NONE);
    st += 4096;
  }
  // deterministic non-zero garbage below the first frames: uninitialised locals are not silently 0
  memset(st + kStack - 12288, 0xA5, 12288);
  if (hooks.stack) hooks.stack(st, kStack);
  f->stack = st;
  uint64_t* sp = (uint64_t*)(st + kStack);
  *--sp = 0;                         // return address of fiber_main; keeps rsp = 16n+8 at function entry
  *--sp = (uint64_t)(void*)fiber_main;
  for (int i = 0; i < 6; ++i) *--sp = 0;
  f->sp = sp;
  ++g_parties[party]->live;
  return f;
}

int fork_fiber(std::function<void()> fn) {
  Internal g;
  Fiber* f = new_fiber(g_cur->party);
  f->fn = std::move(fn);
  if (hooks.fork) hooks.fork(g_cur->id, f->id);
  make_runnable(f);
  return f->id;
}
void join_fiber(int id) {
  sched_point("join");
  Fiber* f = g_fibers[id];
  while (f->st != Fiber::DONE) block(f, "join_fiber", id);
  if (hooks.join) hooks.join(g_cur->id, id);
}

int add_host(const std::string& ip) {
  Internal g;
  uint32_t a = 0;
  inet_pton(AF_INET, ip.c_str(), &a);
  g_hosts.push_back(a);
  return (int)g_hosts.size() - 1;
}

int spawn(const std::string& name, int host, std::function<void()> body, uint64_t delay) {
  Internal g;
  Party* p = new Party;
  p->id = (int)g_parties.size();
  p->name = name;
  p->host = host;
  p->body = std::move(body);
  g_parties.push_back(p);
  ++g_active_parties;
  int id = p->id;
  push_event(g_now + delay, [id] {
    Party* q = g_parties[id];
    if (q->info.status != RUNNING) return;
    q->started = true;
    Fiber* f = new_fiber(id);
    f->is_main = true;
    f->fn = q->body;
    make_runnable(f);
  });
  return id;
}

void set_phase(const std::string& ph) {
  Internal g;
  Party* p = g_parties[g_cur->party];
  p->info.phase = ph;
  ++p->phase_idx;
  p->phase_ops = 0;
  tracef("phase %s", ph.c_str());
}

static void socket_close_final(Socket* s);
static void close_party(Party* p) {
  // kill fibers
  for (Fiber* f : g_fibers) {
    if (f->party != p->id || f->st == Fiber::DONE || f->st == Fiber::DEAD) continue;
    f->st = Fiber::DEAD;
  }
  auto gone = [&](Fiber* f) { return f->party == p->id; };
  g_runq.erase(std::remove_if(g_runq.begin(), g_runq.end(), gone), g_runq.end());
  g_blocked.erase(std::remove_if(g_blocked.begin(), g_blocked.end(), gone), g_blocked.end());
  p->stalled.clear();
  for (Socket* s : g_sockets)
    if (s->party == p->id && !s->released) { s->fd_closed = true; s->ops = 0; socket_close_final(s); }
  p->fds.clear();
  --g_active_parties;
}

void crash_party(int id, const char* why) {
  Internal g;
  Party* p = g_parties[id];
  if (p->info.status != RUNNING) return;
  p->info.status = CRASHED;
  p->info.why = why;
  p->info.end_time = g_now;
  tracef("CRASH party %d", id);
  bool me = g_cur->party == id;
  close_party(p);
  if (me) { g_cur->st = Fiber::DEAD; }
}

void plan_fault(int kind, int party, int phase, uint64_t offset, int peer, uint64_t dur) {
  Internal g;
  g_planned.push_back(PlannedFault{kind, party, phase, offset, peer, dur, false, 0, 0});
}
void arm_alloc_failure(int party, uint64_t nth) { g_parties[party]->alloc_fail_in = nth; }

static void reset_connection(Socket* s, int err) {
  auto kill = [&](Socket* x) {
    if (!x) return;
    x->rst = true;
    if (!x->sk_err) x->sk_err = err;
    if (x->in) wake_all(x->in);
    if (x->out) wake_all((char*)x->out + 1);
  };
  Socket* peer = s->out ? s->out->dst : nullptr;
  // undelivered bytes are lost
  if (s->in) { s->in->fin_arrived = true; s->in->dead = true; }
  if (s->out) { s->out->fin_arrived = true; s->out->dead = true; }
  kill(s);
  kill(peer);
}

static void check_faults() {
  for (auto& f : g_planned) {
    if (f.fired) continue;
    if (f.party != g_cur->party) continue;
    Party* p = g_parties[f.party];
    bool due = p->phase_idx > f.phase || (p->phase_idx == f.phase && p->phase_ops >= f.offset);
    if (!due) continue;
    f.fired = true;
    f.at_time = g_now;
    f.at_step = g_steps;
    if (f.kind != FAIL_ALLOC && f.kind != FAIL_THREAD && f.kind != FAIL_SOCKET && f.kind != FAIL_READ && f.kind != FAIL_WRITE) count_fault(f.kind);
    tracef("FAULT %s phase %s op %llu", fault_names[f.kind], p->info.phase.c_str(), (unsigned long long)p->phase_ops);
    mixh(g_hash, 0xF0 + f.kind);
    switch (f.kind) {
      case CRASH:
        crash_party(f.party, "injected crash");
        if (g_cur->st == Fiber::DEAD) { reschedule(false); }
        return;
      case RESET: {
        std::vector<Socket*> c;
        for (Socket* s : g_sockets) if (s->party == f.party && s->st == Socket::CONN && !s->rst && !s->released) c.push_back(s);
        if (!c.empty()) reset_connection(c[f.peer % c.size()], ECONNRESET);
        break;
      }
      case STALL: {
        p->stalled_until = g_now + f.dur;
        int id = f.party;
        push_event(p->stalled_until, [id] {
          Party* q = g_parties[id];
          auto v = std::move(q->stalled);
          q->stalled.clear();
          for (Fiber* x : v) if (x->st == Fiber::RUN) g_runq.push_back(x);
        });
        for (size_t i = 0; i < g_runq.size();) {
          if (g_runq[i]->party == f.party) { p->stalled.push_back(g_runq[i]); g_runq.erase(g_runq.begin() + i); }
          else ++i;
        }
        // the current fiber stalls too
        p->stalled.push_back(g_cur);
        reschedule(false);
        break;
      }
      case LINK_STALL: {
        int a = f.party, b = f.peer;
        g_link_stall[{std::min(a, b), std::max(a, b)}] = g_now + f.dur;
        break;
      }
      case FAIL_READ: p->fail_read = 1; break;
      case FAIL_WRITE: p->fail_write = 1; break;
      case FAIL_ALLOC: p->alloc_fail_in = 1 + f.dur; break;
      case FAIL_THREAD: p->fail_thread = 1; break;
      case FAIL_SOCKET: p->fail_socket = 1; break;
    }
  }
}

// ---- network --------------------------------------------------------------------------------------
static uint64_t latency() {
  switch (cfg.latency_mode) {
    case 0: return 0;
    case 1: return 50000;
    case 2: return choose(N, 1000) * 1000;
    case 4: return cfg.latency_ns;
    case 3: {
      uint64_t l = logu(N, 1 << 20);       // up to about a second, log-uniform, in us
      return l * 1000;
    }
  }
  return 0;
}
static uint64_t link_ready(int a, int b) {
  auto it = g_link_stall.find({std::min(a, b), std::max(a, b)});
  return it == g_link_stall.end() ? 0 : it->second;
}
void draw_network(bool small_caps, size_t floor) {
  cfg.latency_mode = weighted(K, {5, 2, 3, 2});
  static const unsigned probs[] = {0, 4, 40, 128, 250};
  cfg.short_read = probs[weighted(K, {4, 1, 2, 1, 1})];
  cfg.short_write = probs[weighted(K, {4, 1, 2, 1, 1})];
  cfg.segment = probs[weighted(K, {4, 1, 2, 1, 1})];
  cfg.spurious = probs[weighted(K, {4, 1, 1, 1, 0})];
  cfg.refuse = probs[weighted(K, {3, 1, 1, 1, 0})];
  static const unsigned jumps[] = {0, 8, 96};
  cfg.clock_jump = jumps[weighted(K, {6, 1, 1})];
  cfg.cap = 1 << 22;
  if (small_caps) {
    static const size_t caps[] = {1 << 22, 8, 16, 64, 256, 4096, 65536};
    cfg.cap = caps[weighted(K, {6, 1, 2, 2, 2, 2, 1})];
    if (cfg.cap < floor) cfg.cap = floor;
  }
}

void Party::op_done() {
  auto it = spans.find(info.phase);
  if (it == spans.end()) spans[info.phase] = Span{g_now, g_now}; else it->second.last = g_now;
}
static Pipe* new_pipe(int from, int to) {
  Pipe* p = new Pipe;
  p->from = from;
  p->to = to;
  p->cap = cfg.cap;
  g_pipes.push_back(p);
  return p;
}
static Socket* new_socket(int party) {
  Socket* s = new Socket;
  s->party = party;
  s->host = g_parties[party]->host;
  g_sockets.push_back(s);
  return s;
}
static int install_fd(Party* p, Socket* s) {
  for (size_t i = 0; i < p->fds.size(); ++i)
    if (!p->fds[i]) { p->fds[i] = s; return kFdBase + (int)i; }
  p->fds.push_back(s);
  return kFdBase + (int)p->fds.size() - 1;
}
static Socket* get_fd(int fd) {
  Party* p = g_parties[g_cur->party];
  int i = fd - kFdBase;
  if (i < 0 || i >= (int)p->fds.size()) return nullptr;
  return p->fds[i];
}

static void send_fin(Pipe* o) {
  if (o->fin_sent) return;
  o->fin_sent = true;
  uint64_t t = std::max(o->last_t, g_now + latency());
  t = std::max(t, link_ready(o->from, o->to));
  o->last_t = t;
  if (t <= g_now) { o->fin_arrived = true; wake_all(o); }
  else push_event(t, [o] { o->fin_arrived = true; wake_all(o); });
}

static void socket_close_final(Socket* s) {
  if (s->released) return;
  s->released = true;
  if (s->st == Socket::LISTEN || s->st == Socket::BOUND) {
    auto& v = g_listeners[{s->host, s->port}];
    v.erase(std::remove(v.begin(), v.end(), s), v.end());
    wake_all(s);
    for (Socket* q : s->acceptq) reset_connection(q, ECONNRESET);
    s->acceptq.clear();
    return;
  }
  if (s->st != Socket::CONN || s->rst) return;
  bool unread = s->in->dl > s->in->rd;
  if (unread) s->in->closed_with_unread = true;
  tracef("close socket of party %d (unread %d)", s->party, (int)unread);
  if (!unread && !s->abort_on_close && !s->in->fin_arrived) s->wait_until = g_now + 60000000000ull;
  if (unread || s->abort_on_close) {
    // RST: the peer sees an error; what was not yet delivered is lost
    Socket* peer = s->out->dst;
    uint64_t t = g_now + latency();
    s->rst = true;
    if (peer) {
      Pipe* o = s->out;
      auto fn = [peer, o] {
        if (peer->rst) return;
        peer->rst = true;
        o->dead = true;
        peer->sk_err = o->fin_arrived ? EPIPE : ECONNRESET;
        wake_all(peer->in);
        wake_all((char*)peer->out + 1);
      };
      if (t <= g_now) fn(); else push_event(t, fn);
    }
  } else {
    send_fin(s->out);
  }
  // a writer on the other side blocked on a full buffer: its bytes can never be read -> reset it
  Pipe* in = s->in;
  wake_all((char*)in + 1);
}

static int sys_fail_errno(std::initializer_list<int> errs) {
  std::vector<int> v(errs);
  return v[choose(F, v.size())];
}

extern "C" {

int socket(int domain, int type, int proto) {
  if (!in_sim()) return (int)ret_errno(raw3(SYS_socket, domain, type, proto));
  sched_point("socket");
  Internal g;
  Party* p = g_parties[g_cur->party];
  if (p->fail_socket) { p->fail_socket = 0; count_fault(FAIL_SOCKET); errno = sys_fail_errno({EMFILE, ENOBUFS, ENFILE}); return -1; }
  Socket* s = new_socket(p->id);
  if (type & SOCK_NONBLOCK) s->nonblock = true;
  return install_fd(p, s);
}

int setsockopt(int fd, int level, int opt, const void* val, socklen_t len) {
  if (!in_sim() || fd < kFdBase) return (int)ret_errno(raw6(SYS_setsockopt, fd, level, opt, (long)val, len, 0));
  Socket* s = get_fd(fd);
  if (!s) { errno = EBADF; return -1; }
  if (level == SOL_SOCKET && opt == SO_REUSEPORT && len >= 4) s->reuse = *(const int*)val != 0;
  if (level == SOL_SOCKET && opt == SO_REUSEADDR && len >= 4) s->reuse_addr = *(const int*)val != 0;
  if (level == SOL_SOCKET && opt == SO_LINGER && len >= sizeof(linger)) {
    const linger* l = (const linger*)val;
    s->abort_on_close = l->l_onoff && l->l_linger == 0;
  }
  if (level == SOL_SOCKET && (opt == SO_RCVTIMEO || opt == SO_SNDTIMEO) && len >= sizeof(timeval)) {
    const timeval* tv = (const timeval*)val;
    (opt == SO_RCVTIMEO ? s->rcv_timeo : s->snd_timeo) = (uint64_t)tv->tv_sec * 1000000000ull + (uint64_t)tv->tv_usec * 1000;
  }
  return 0;
}
int getsockopt(int fd, int level, int opt, void* val, socklen_t* len) {
  if (!in_sim() || fd < kFdBase) return (int)ret_errno(raw6(SYS_getsockopt, fd, level, opt, (long)val, (long)len, 0));
  Socket* s = get_fd(fd);
  if (!s) { errno = EBADF; return -1; }
  if (level == SOL_SOCKET && opt == SO_ERROR) { *(int*)val = s->sk_err; s->sk_err = 0; *len = 4; return 0; }
  if (*len >= 4) { *(int*)val = 0; *len = 4; }
  return 0;
}

int bind(int fd, const struct sockaddr* addr, socklen_t len) {
  if (!in_sim() || fd < kFdBase) return (int)ret_errno(raw3(SYS_bind, fd, (long)addr, len));
  sched_point("bind", fd);
  Internal g;
  Socket* s = get_fd(fd);
  if (!s) { errno = EBADF; return -1; }
  Party* p = g_parties[g_cur->party];
  if (p->fail_socket) { p->fail_socket = 0; count_fault(FAIL_SOCKET); errno = sys_fail_errno({EADDRINUSE, EACCES}); return -1; }
  const sockaddr_in* a = (const sockaddr_in*)addr;
  int port = ntohs(a->sin_port);
  if (port == 0) port = g_ephemeral++;
  auto& v = g_listeners[{s->host, port}];
  auto conflict = [&](Socket* o) {
    if (o->reuse && s->reuse) return false;
    return !(o->reuse_addr && s->reuse_addr && o->st != Socket::LISTEN);
  };
  for (Socket* o : v) if (conflict(o)) { errno = EADDRINUSE; return -1; }
  // connections accepted on this port that are open or closed a short while ago
  for (Socket* o : g_accepted[{s->host, port}])
    if ((!o->released || o->wait_until > g_now) && conflict(o)) { probe("port_still_in_use"); errno = EADDRINUSE; return -1; }
  s->port = port;
  s->my_port = port;
  s->st = Socket::BOUND;
  v.push_back(s);
  return 0;
}

int listen(int fd, int backlog) {
  if (!in_sim() || fd < kFdBase) return (int)ret_errno(raw3(SYS_listen, fd, backlog, 0));
  sched_point("listen", fd);
  Socket* s = get_fd(fd);
  if (!s) { errno = EBADF; return -1; }
  Party* p = g_parties[g_cur->party];
  if (p->fail_socket) { p->fail_socket = 0; count_fault(FAIL_SOCKET); errno = EADDRINUSE; return -1; }
  s->backlog = backlog < 0 ? 4096 : backlog;
  s->st = Socket::LISTEN;
  return 0;
}

int accept4(int fd, struct sockaddr* addr, socklen_t* len, int flags) {
  if (!in_sim() || fd < kFdBase) return (int)ret_errno(raw6(SYS_accept4, fd, (long)addr, (long)len, flags, 0, 0));
  sched_point("accept", fd);
  Internal g;
  Socket* s = get_fd(fd);
  if (!s) { errno = EBADF; return -1; }
  Party* p = g_parties[g_cur->party];
  if (p->fail_socket) { p->fail_socket = 0; count_fault(FAIL_SOCKET); errno = sys_fail_errno({ECONNABORTED, EMFILE, ENOMEM}); return -1; }
  if (s->st != Socket::LISTEN) { errno = EINVAL; return -1; }
  while (s->acceptq.empty()) {
    if (s->nonblock) { errno = EAGAIN; return -1; }
    if (!block(s, "accept", s->port, s->rcv_timeo ? g_now + s->rcv_timeo : UINT64_MAX)) { errno = EAGAIN; return -1; }
    if (s->released) { errno = EINVAL; return -1; }
  }
  Socket* c = s->acceptq.front();
  s->acceptq.pop_front();
  if (addr && len) {
    sockaddr_in a;
    memset(&a, 0, sizeof a);
    a.sin_family = AF_INET;
    a.sin_port = htons(c->peer_port);
    a.sin_addr.s_addr = c->peer_ip;
    memcpy(addr, &a, std::min<size_t>(*len, sizeof a));
    *len = sizeof a;
  }
  if (flags & SOCK_NONBLOCK) c->nonblock = true;
  int r = install_fd(p, c);
  tracef("accept -> fd %d from party %d", r, c->in->from);
  mixh(g_hash, 0xACC0 + c->in->from);
  return r;
}
int accept(int fd, struct sockaddr* addr, socklen_t* len) { return accept4(fd, addr, len, 0); }

static void try_arrive(Socket* cs, int host, int port, int attempt);

static void refuse(Socket* cs, int err) {
  cs->st = Socket::NEW;
  cs->sk_err = err;
  wake_all(cs);
}
static void try_arrive(Socket* cs, int host, int port, int attempt) {
  if (cs->released || g_parties[cs->party]->info.status != RUNNING) return;
  std::vector<Socket*> ls;
  auto it = g_listeners.find({host, port});
  if (it != g_listeners.end()) for (Socket* l : it->second) if (l->st == Socket::LISTEN) ls.push_back(l);
  if (ls.empty()) { refuse(cs, ECONNREFUSED); return; }
  Socket* l = ls[ls.size() > 1 ? choose(N, ls.size()) : 0];
  uint64_t st = link_ready(cs->party, l->party);
  if (st > g_now) { push_event(st, [=] { try_arrive(cs, host, port, attempt); }); return; }
  if ((int)l->acceptq.size() > l->backlog) {
    if (attempt >= 6) { refuse(cs, ETIMEDOUT); return; }
    push_event(g_now + (1000000000ull << attempt), [=] { try_arrive(cs, host, port, attempt + 1); });
    return;
  }
  Socket* ss = new_socket(l->party);
  ss->st = Socket::CONN;
  ss->rcv_timeo = l->rcv_timeo;
  ss->reuse = l->reuse;
  ss->reuse_addr = l->reuse_addr;
  ss->abort_on_close = l->abort_on_close;
  g_accepted[{l->host, l->port}].push_back(ss);
  ss->snd_timeo = l->snd_timeo;
  ss->peer_ip = cs->my_ip;
  ss->peer_port = cs->my_port;
  ss->my_port = l->port;
  ss->my_ip = cs->peer_ip;
  Pipe* a = new_pipe(cs->party, l->party);
  Pipe* b = new_pipe(l->party, cs->party);
  cs->out = a; cs->in = b;
  ss->out = b; ss->in = a;
  a->src = cs; a->dst = ss;
  b->src = ss; b->dst = cs;
  l->acceptq.push_back(ss);
  wake_all(l);
  // SYN/ACK travels back
  uint64_t t = g_now + latency();
  auto fn = [cs] { if (cs->st == Socket::CONNECTING) { cs->st = Socket::CONN; wake_all(cs); } };
  if (t <= g_now) fn(); else push_event(t, fn);
}

int connect(int fd, const struct sockaddr* addr, socklen_t len) {
  if (!in_sim() || fd < kFdBase) return (int)ret_errno(raw3(SYS_connect, fd, (long)addr, len));
  sched_point("connect", fd);
  Internal g;
  Socket* s = get_fd(fd);
  if (!s) { errno = EBADF; return -1; }
  if (s->st == Socket::CONN) { errno = EISCONN; return -1; }
  if (s->st == Socket::CONNECTING) { errno = EALREADY; return -1; }
  const sockaddr_in* a = (const sockaddr_in*)addr;
  int port = ntohs(a->sin_port);
  int host = -1;
  uint32_t lo = htonl(INADDR_LOOPBACK);
  if ((ntohl(a->sin_addr.s_addr) >> 24) == 127) { host = s->host; s->my_ip = lo; }
  else {
    for (size_t i = 0; i < g_hosts.size(); ++i) if (g_hosts[i] == a->sin_addr.s_addr) host = (int)i;
    s->my_ip = g_hosts[s->host];
  }
  s->peer_ip = a->sin_addr.s_addr;
  s->peer_port = port;
  if (!s->my_port) s->my_port = g_ephemeral++;
  if (host < 0) { block(nullptr, "connect", port, g_now + 3000000000ull); errno = EHOSTUNREACH; return -1; }
  if (cfg.refuse && chance(F, cfg.refuse, 256)) { count_fault(X_REFUSED); errno = sys_fail_errno({ECONNREFUSED, ETIMEDOUT, ENETUNREACH}); return -1; }
  s->st = Socket::CONNECTING;
  s->sk_err = 0;
  uint64_t t = g_now + latency();
  push_event(t, [=] { try_arrive(s, host, port, 0); });
  if (s->nonblock) { errno = EINPROGRESS; return -1; }
  while (s->st == Socket::CONNECTING) block(s, "connect", port);
  if (s->st == Socket::CONN) { mixh(g_hash, 0xC0 + port); return 0; }
  errno = s->sk_err ? s->sk_err : ECONNREFUSED;
  s->sk_err = 0;
  mixh(g_hash, 0xC0EE + errno);
  return -1;
}

static ssize_t sim_write(int fd, const void* buf, size_t n, int flags) {
  sched_point("write", fd);
  Internal g;
  Socket* s = get_fd(fd);
  if (!s) { probe("io_on_closed_fd"); ++g_parties[g_cur->party]->stray_ops; errno = EBADF; return -1; }
  Party* p = g_parties[g_cur->party];
  if (s->st != Socket::CONN) { errno = ENOTCONN; if (s->st == Socket::NEW) errno = EPIPE; return -1; }
  if (p->fail_write) { p->fail_write = 0; count_fault(FAIL_WRITE); errno = sys_fail_errno({ECONNRESET, ENOBUFS, ETIMEDOUT, ENOMEM}); return -1; }
  if (cfg.eintr && chance(F, cfg.eintr, 4096)) { count_fault(X_EINTR); errno = EINTR; return -1; }
  if (n == 0) return 0;
  Pipe* o = s->out;
  size_t space;
  ++s->ops;
  for (;;) {
    if (s->sk_err && s->sk_err != EPIPE) { int e = s->sk_err; s->sk_err = 0; --s->ops; errno = e; return -1; }
    if (s->rst || s->wr_shut) {
      --s->ops;
      s->sk_err = 0;
      if (!(flags & MSG_NOSIGNAL)) party_abort("SIGPIPE");
      errno = EPIPE;
      return -1;
    }
    if (o->dst && o->dst->released) {
      // the peer is gone: the data is answered by a reset
      Socket* me = s;
      auto fn = [me] {
        if (me->rst) return;
        me->rst = true;
        me->sk_err = me->in->fin_arrived ? EPIPE : ECONNRESET;
        wake_all(me->in);
        wake_all((char*)me->out + 1);
      };
      uint64_t t = g_now + latency() * 2;
      if (t <= g_now) fn(); else push_event(t, fn);
      o->wr += n; o->dl = o->wr; o->rd = o->wr;     // swallowed
      --s->ops;
      return n;
    }
    size_t used = (size_t)(o->wr - o->rd);
    size_t cap = cfg.cap_fn ? cfg.cap_fn(p->info.phase, o->cap) : o->cap;
    space = used >= cap ? 0 : cap - used;
    if (space > 0) break;
    if (s->nonblock || (flags & MSG_DONTWAIT)) { --s->ops; errno = EAGAIN; return -1; }
    probe("write_blocked_on_full_buffer");
    if (!block((char*)o + 1, "write", o->to, s->snd_timeo ? g_now + s->snd_timeo : UINT64_MAX)) { --s->ops; probe("send_timeout"); errno = EAGAIN; return -1; }
  }
  --s->ops;
  size_t k = std::min(space, n);
  if (k > 1 && cfg.short_write && chance(N, cfg.short_write, 256)) { k = 1 + choose(N, k - 1); count_fault(X_SHORT_WRITE); }
  if (k < n) probe("short_write_returned");
  if (o->off > 65536 && o->off * 2 > o->buf.size()) { o->buf.erase(o->buf.begin(), o->buf.begin() + o->off); o->off = 0; }
  o->buf.insert(o->buf.end(), (const uint8_t*)buf, (const uint8_t*)buf + k);
  o->by_phase[p->info.phase] += k;
  p->op_done();
  uint64_t base = o->wr;
  o->wr += k;
  tracef("write fd %d -> party %d: %zu of %zu bytes", fd, o->to, k, n);
  size_t done = 0;
  while (done < k) {
    size_t piece = k - done;
    if (piece > 1 && cfg.segment && chance(N, cfg.segment, 256)) { piece = 1 + choose(N, piece - 1); count_fault(X_SEGMENT); }
    done += piece;
    uint64_t l = latency();
    if (l) count_fault(X_DELAY);
    uint64_t t = std::max(o->last_t, g_now + l);
    t = std::max(t, link_ready(o->from, o->to));
    o->last_t = t;
    if (t <= g_now) deliver(o, base + done);
    else g_events.push(Ev{t, ++g_seq, 1, o, base + done, nullptr});
  }
  mixh(g_hash, 0x3000000 + k);
  return k;
}

static ssize_t sim_read(int fd, void* buf, size_t n, int flags) {
  sched_point("read", fd);
  Internal g;
  Socket* s = get_fd(fd);
  if (!s) { probe("io_on_closed_fd"); ++g_parties[g_cur->party]->stray_ops; errno = EBADF; return -1; }
  Party* p = g_parties[g_cur->party];
  if (s->st != Socket::CONN) { errno = ENOTCONN; return -1; }
  if (p->fail_read) { p->fail_read = 0; count_fault(FAIL_READ); errno = sys_fail_errno({ECONNRESET, ETIMEDOUT, EIO, ENOMEM}); return -1; }
  if (cfg.eintr && chance(F, cfg.eintr, 4096)) { count_fault(X_EINTR); errno = EINTR; return -1; }
  if (n == 0) return 0;
  Pipe* i = s->in;
  ++s->ops;
  for (;;) {
    if (i->dl > i->rd) break;
    if (s->sk_err) { int e = s->sk_err == EPIPE ? ECONNRESET : s->sk_err; s->sk_err = 0; --s->ops; tracef("read fd %d: error %d", fd, e); errno = e; return -1; }
    if (i->fin_arrived || s->rst) { --s->ops; tracef("read fd %d: end of stream", fd); probe("read_end_of_stream"); return 0; }
    if (s->nonblock || (flags & MSG_DONTWAIT)) { --s->ops; errno = EAGAIN; return -1; }
    if (!block(i, "read", i->from, s->rcv_timeo ? g_now + s->rcv_timeo : UINT64_MAX)) { --s->ops; probe("receive_timeout"); errno = EAGAIN; return -1; }
  }
  --s->ops;
  size_t k = (size_t)std::min<uint64_t>(n, i->dl - i->rd);
  if (k > 1 && cfg.short_read && chance(N, cfg.short_read, 256)) { k = 1 + choose(N, k - 1); count_fault(X_SHORT_READ); }
  memcpy(buf, i->buf.data() + i->off, k);
  if (flags & MSG_PEEK) return k;
  i->off += k;
  i->rd += k;
  p->op_done();
  if (i->off == i->buf.size()) { i->buf.clear(); i->off = 0; }
  wake_all((char*)i + 1);
  if (s->fd_closed && s->ops == 0) socket_close_final(s);
  mixh(g_hash, 0x5000000 + k);
  return k;
}

}  // extern "C"
std::string add_vfile(const VFile& f) {
  Internal g;
  int fd = (int)raw3(SYS_memfd_create, (long)"simfile", 0, 0);
  if (fd < 0) raw3(SYS_exit_group, 95, 0, 0);
  size_t off = 0;
  while (off < f.content.size()) {
    long r = raw3(SYS_write, fd, (long)(f.content.data() + off), f.content.size() - off);
    if (r <= 0) raw3(SYS_exit_group, 95, 0, 0);
    off += r;
  }
  std::string path = "/proc/self/fd/" + std::to_string(fd);
  vfiles[path] = f;
  return path;
}
extern "C" {
static bool vfile_read(int fd, void* buf, size_t n, ssize_t& out) {
  auto it = g_vfds.find(fd);
  if (it == g_vfds.end()) return false;
  Internal g;
  VFile& vf = vfiles[it->second];
  uint64_t pos = (uint64_t)raw3(SYS_lseek, fd, 0, SEEK_CUR);
  if (vf.fail_at >= 0 && pos >= (uint64_t)vf.fail_at) {
    vf.fired = true;
    count_fault(X_FILE);
    errno = vf.err;
    out = -1;
    return true;
  }
  size_t k = n;
  size_t left = vf.content.size() - std::min<uint64_t>(pos, vf.content.size());
  k = std::min(k, left);
  if (vf.fail_at >= 0) k = std::min<uint64_t>(k, vf.fail_at - pos);
  if (k > 1 && vf.short_reads && chance(F, vf.short_reads, 256)) { k = 1 + choose(F, k - 1); count_fault(X_SHORT_READ); }
  out = ret_errno(raw3(SYS_read, fd, (long)buf, k));
  return true;
}

ssize_t read(int fd, void* buf, size_t n) {
  if (g_running && fd >= kFdBase && in_sim()) return sim_read(fd, buf, n, 0);
  ssize_t r;
  if (g_running && !g_vfds.empty() && vfile_read(fd, buf, n, r)) return r;
  return ret_errno(raw3(SYS_read, fd, (long)buf, n));
}
ssize_t write(int fd, const void* buf, size_t n) {
  if (g_running && fd >= kFdBase && in_sim()) return sim_write(fd, buf, n, 0);
  return ret_errno(raw3(SYS_write, fd, (long)buf, n));
}
ssize_t recv(int fd, void* buf, size_t n, int flags) {
  if (!in_sim() || fd < kFdBase) return ret_errno(raw6(SYS_recvfrom, fd, (long)buf, n, flags, 0, 0));
  if (flags & MSG_WAITALL) {
    size_t d = 0;
    while (d < n) { ssize_t r = sim_read(fd, (char*)buf + d, n - d, flags & ~MSG_WAITALL); if (r < 0) return d ? (ssize_t)d : r; if (r == 0) break; d += r; }
    return d;
  }
  return sim_read(fd, buf, n, flags);
}
ssize_t send(int fd, const void* buf, size_t n, int flags) {
  if (!in_sim() || fd < kFdBase) return ret_errno(raw6(SYS_sendto, fd, (long)buf, n, flags, 0, 0));
  return sim_write(fd, buf, n, flags);
}
ssize_t writev(int fd, const struct iovec* v, int c) {
  if (!in_sim() || fd < kFdBase) return ret_errno(raw3(SYS_writev, fd, (long)v, c));
  ssize_t tot = 0;
  for (int i = 0; i < c; ++i) {
    if (!v[i].iov_len) continue;
    ssize_t r = sim_write(fd, v[i].iov_base, v[i].iov_len, 0);
    if (r < 0) return tot ? tot : r;
    tot += r;
    if ((size_t)r < v[i].iov_len) break;
  }
  return tot;
}
ssize_t readv(int fd, const struct iovec* v, int c) {
  if (!in_sim() || fd < kFdBase) return ret_errno(raw3(SYS_readv, fd, (long)v, c));
  for (int i = 0; i < c; ++i) if (v[i].iov_len) return sim_read(fd, v[i].iov_base, v[i].iov_len, 0);
  return 0;
}
int shutdown(int fd, int how) {
  if (!in_sim() || fd < kFdBase) return (int)ret_errno(raw3(SYS_shutdown, fd, how, 0));
  sched_point("shutdown", fd);
  Internal g;
  Socket* s = get_fd(fd);
  if (!s) { ++g_parties[g_cur->party]->stray_ops; errno = EBADF; return -1; }
  if (s->st != Socket::CONN) { errno = ENOTCONN; return -1; }
  if (how != SHUT_RD) { s->wr_shut = true; send_fin(s->out); wake_all((char*)s->out + 1); }
  if (how != SHUT_WR) { s->in->fin_arrived = true; wake_all(s->in); }
  return 0;
}
int close(int fd) {
  if (!g_running || fd < kFdBase || !in_sim()) {
    if (!g_vfds.empty() && g_vfds.count(fd)) { Internal g; g_vfds.erase(fd); }
    return (int)ret_errno(raw3(SYS_close, fd, 0, 0));
  }
  sched_point("close", fd);
  Internal g;
  Party* p = g_parties[g_cur->party];
  Socket* s = get_fd(fd);
  if (!s) { probe("double_close"); ++p->stray_ops; errno = EBADF; return -1; }
  p->fds[fd - kFdBase] = nullptr;
  s->fd_closed = true;
  if (s->ops == 0) socket_close_final(s);
  mixh(g_hash, 0xC105E);
  return 0;
}
int poll(struct pollfd* fds, nfds_t n, int timeout) {
  bool simfd = false;
  for (nfds_t i = 0; i < n; ++i) if (fds[i].fd >= kFdBase) simfd = true;
  if (!in_sim() || !simfd) return (int)ret_errno(raw3(SYS_poll, (long)fds, n, timeout));
  sched_point("poll");
  Internal g;
  uint64_t until = timeout < 0 ? UINT64_MAX : g_now + (uint64_t)timeout * 1000000ull;
  uint64_t step = 20000;
  for (;;) {
    int r = 0;
    for (nfds_t i = 0; i < n; ++i) {
      fds[i].revents = 0;
      Socket* s = get_fd(fds[i].fd);
      if (!s) { fds[i].revents = POLLNVAL; ++r; continue; }
      if (s->st == Socket::LISTEN) { if ((fds[i].events & POLLIN) && !s->acceptq.empty()) fds[i].revents |= POLLIN; }
      else if (s->st == Socket::CONN) {
        if ((fds[i].events & POLLIN) && (s->in->dl > s->in->rd || s->in->fin_arrived || s->rst)) fds[i].revents |= POLLIN;
        if ((fds[i].events & POLLOUT) && (s->out->wr - s->out->rd < s->out->cap || s->rst)) fds[i].revents |= POLLOUT;
        if (s->rst) fds[i].revents |= POLLERR | POLLHUP;
      } else if (s->st == Socket::NEW) fds[i].revents |= (s->sk_err ? POLLERR : 0) | POLLHUP | (fds[i].events & POLLOUT);
      if (fds[i].revents) ++r;
    }
    if (r || g_now >= until) return r;
    block(nullptr, "poll", 0, std::min<uint64_t>(until, g_now + step));
    step = std::min<uint64_t>(step * 2, 200000000ull);
  }
}
int select(int n, fd_set* r, fd_set* w, fd_set* e, struct timeval* tv) {
  if (!in_sim()) return (int)ret_errno(raw6(SYS_select, n, (long)r, (long)w, (long)e, (long)tv, 0));
  uint64_t ns = tv ? (uint64_t)tv->tv_sec * 1000000000ull + (uint64_t)tv->tv_usec * 1000 : 0;
  struct pollfd p[FD_SETSIZE];
  nfds_t k = 0;
  for (int fd = 0; fd < n && fd < FD_SETSIZE; ++fd) {
    short ev = 0;
    if (r && FD_ISSET(fd, r)) ev |= POLLIN;
    if (w && FD_ISSET(fd, w)) ev |= POLLOUT;
    if (ev) p[k++] = {fd, ev, 0};
  }
  if (k == 0) { if (tv) sleep_ns(ns); else block(nullptr, "select"); return 0; }
  int c = poll(p, k, tv ? (int)((ns + 999999) / 1000000) : -1);
  if (c < 0) return c;
  if (r) FD_ZERO(r);
  if (w) FD_ZERO(w);
  if (e) FD_ZERO(e);
  c = 0;
  for (nfds_t i = 0; i < k; ++i) {
    if (r && (p[i].events & POLLIN) && (p[i].revents & (POLLIN | POLLHUP | POLLERR))) { FD_SET(p[i].fd, r); ++c; }
    if (w && (p[i].events & POLLOUT) && (p[i].revents & (POLLOUT | POLLERR))) { FD_SET(p[i].fd, w); ++c; }
  }
  return c;
}
static int sim_fcntl(int fd, int cmd, long arg) {
  Internal g;
  Socket* s = get_fd(fd);
  if (!s) { errno = EBADF; return -1; }
  switch (cmd) {
    case F_GETFL: return O_RDWR | (s->nonblock ? O_NONBLOCK : 0);
    case F_SETFL: s->nonblock = (arg & O_NONBLOCK) != 0; return 0;
    case F_GETFD: case F_SETFD: return 0;
    default: errno = EINVAL; return -1;
  }
}
int fcntl(int fd, int cmd, ...) {
  va_list ap; va_start(ap, cmd); long arg = va_arg(ap, long); va_end(ap);
  if (!in_sim() || fd < kFdBase) return (int)ret_errno(raw3(SYS_fcntl, fd, cmd, arg));
  return sim_fcntl(fd, cmd, arg);
}
int fcntl64(int fd, int cmd, ...) {
  va_list ap; va_start(ap, cmd); long arg = va_arg(ap, long); va_end(ap);
  if (!in_sim() || fd < kFdBase) return (int)ret_errno(raw3(SYS_fcntl, fd, cmd, arg));
  return sim_fcntl(fd, cmd, arg);
}
int ioctl(int fd, unsigned long req, ...) {
  va_list ap; va_start(ap, req); long arg = va_arg(ap, long); va_end(ap);
  if (!in_sim() || fd < kFdBase) return (int)ret_errno(raw3(SYS_ioctl, fd, req, arg));
  Internal g;
  Socket* s = get_fd(fd);
  if (!s) { errno = EBADF; return -1; }
  if (req == FIONBIO) { s->nonblock = *(int*)arg != 0; return 0; }
  if (req == FIONREAD) { *(int*)arg = s->in ? (int)(s->in->dl - s->in->rd) : 0; return 0; }
  errno = EINVAL;
  return -1;
}
ssize_t sendto(int fd, const void* buf, size_t n, int flags, const struct sockaddr* a, socklen_t al) {
  if (!in_sim() || fd < kFdBase) return ret_errno(raw6(SYS_sendto, fd, (long)buf, n, flags, (long)a, al));
  return sim_write(fd, buf, n, flags);
}
ssize_t recvfrom(int fd, void* buf, size_t n, int flags, struct sockaddr* a, socklen_t* al) {
  if (!in_sim() || fd < kFdBase) return ret_errno(raw6(SYS_recvfrom, fd, (long)buf, n, flags, (long)a, (long)al));
  return recv(fd, buf, n, flags);
}
ssize_t sendmsg(int fd, const struct msghdr* m, int flags) {
  if (!in_sim() || fd < kFdBase) return ret_errno(raw3(SYS_sendmsg, fd, (long)m, flags));
  ssize_t tot = 0;
  for (size_t i = 0; i < m->msg_iovlen; ++i) {
    if (!m->msg_iov[i].iov_len) continue;
    ssize_t r = sim_write(fd, m->msg_iov[i].iov_base, m->msg_iov[i].iov_len, flags);
    if (r < 0) return tot ? tot : r;
    tot += r;
    if ((size_t)r < m->msg_iov[i].iov_len) break;
  }
  return tot;
}
ssize_t recvmsg(int fd, struct msghdr* m, int flags) {
  if (!in_sim() || fd < kFdBase) return ret_errno(raw3(SYS_recvmsg, fd, (long)m, flags));
  for (size_t i = 0; i < m->msg_iovlen; ++i) if (m->msg_iov[i].iov_len) return recv(fd, m->msg_iov[i].iov_base, m->msg_iov[i].iov_len, flags);
  return 0;
}
int getpeername(int fd, struct sockaddr* addr, socklen_t* len) {
  if (!in_sim() || fd < kFdBase) return (int)ret_errno(raw3(SYS_getpeername, fd, (long)addr, (long)len));
  Socket* s = get_fd(fd);
  if (!s) { errno = EBADF; return -1; }
  sockaddr_in a; memset(&a, 0, sizeof a); a.sin_family = AF_INET; a.sin_port = htons(s->peer_port); a.sin_addr.s_addr = s->peer_ip;
  memcpy(addr, &a, std::min<size_t>(*len, sizeof a)); *len = sizeof a;
  return 0;
}
int getsockname(int fd, struct sockaddr* addr, socklen_t* len) {
  if (!in_sim() || fd < kFdBase) return (int)ret_errno(raw3(SYS_getsockname, fd, (long)addr, (long)len));
  Socket* s = get_fd(fd);
  if (!s) { errno = EBADF; return -1; }
  sockaddr_in a; memset(&a, 0, sizeof a); a.sin_family = AF_INET; a.sin_port = htons(s->my_port); a.sin_addr.s_addr = s->my_ip;
  memcpy(addr, &a, std::min<size_t>(*len, sizeof a)); *len = sizeof a;
  return 0;
}

// ---- clocks and sleeping -----------------------------------------------------------------------
// The wall clock of a host can be wrong and be set at any time; the monotonic one cannot.
static const uint64_t kWall = 1700000000ull * 1000000000ull, kMono = 1000ull * 1000000000ull;
static bool is_wall(clockid_t c) { return c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE || c == CLOCK_TAI; }
static uint64_t wall_now(bool reading) {
  if (!in_sim()) return kWall + g_now;
  int64_t& off = g_wall_off[g_parties[g_cur->party]->host % 1024];
  if (reading && cfg.clock_jump && chance(F, cfg.clock_jump, 256)) {
    Internal g;
    static const uint64_t far[] = {1000000, 2000000000ull, 86400000000000ull};
    int64_t by = 1 + (int64_t)choose(F, far[weighted(F, {1, 2, 2})]);
    if (chance(F, 1, 2)) by = -by;
    off += by;
    count_fault(X_CLOCK);
    tracef("FAULT wall clock set by %+lld ns", (long long)by);
  }
  return kWall + g_now + off;
}
static uint64_t clock_now(clockid_t c, bool reading) {
  if (c == CLOCK_PROCESS_CPUTIME_ID || c == CLOCK_THREAD_CPUTIME_ID) return in_sim() ? g_parties[g_cur->party]->ops * 200 : g_now;
  return is_wall(c) ? wall_now(reading) : kMono + g_now;
}
int nanosleep(const struct timespec* req, struct timespec* rem) {
  if (!in_sim()) return (int)ret_errno(raw3(SYS_nanosleep, (long)req, (long)rem, 0));
  sleep_ns((uint64_t)req->tv_sec * 1000000000ull + req->tv_nsec);
  if (rem) { rem->tv_sec = 0; rem->tv_nsec = 0; }
  return 0;
}
int clock_nanosleep(clockid_t c, int flags, const struct timespec* req, struct timespec* rem) {
  if (!in_sim()) return (int)-raw6(SYS_clock_nanosleep, c, flags, (long)req, (long)rem, 0, 0);
  uint64_t t = (uint64_t)req->tv_sec * 1000000000ull + req->tv_nsec;
  if (flags & TIMER_ABSTIME) {
    uint64_t at = clock_now(c, false);
    t = t > at ? t - at : 0;
  }
  sleep_ns(t);
  return 0;
}
int usleep(useconds_t us) { if (!in_sim()) { timespec t{(time_t)(us / 1000000), (long)(us % 1000000) * 1000}; return nanosleep(&t, nullptr); } sleep_ns((uint64_t)us * 1000); return 0; }
unsigned sleep(unsigned s) { if (!in_sim()) { timespec t{(time_t)s, 0}; nanosleep(&t, nullptr); return 0; } sleep_ns((uint64_t)s * 1000000000ull); return 0; }
int sched_yield(void) { if (!in_sim()) return 0; sched_point("sched_yield"); return 0; }
int clock_gettime(clockid_t c, struct timespec* ts) {
  if (!g_running) return (int)ret_errno(raw3(SYS_clock_gettime, c, (long)ts, 0));
  uint64_t t = clock_now(c, true);
  ts->tv_sec = t / 1000000000ull;
  ts->tv_nsec = t % 1000000000ull;
  return 0;
}
int gettimeofday(struct timeval* tv, void*) {
  if (!g_running) return (int)ret_errno(raw3(SYS_gettimeofday, (long)tv, 0, 0));
  uint64_t t = wall_now(true);
  tv->tv_sec = t / 1000000000ull;
  tv->tv_usec = t % 1000000000ull / 1000;
  return 0;
}
time_t time(time_t* o) {
  timespec ts;
  clock_gettime(CLOCK_REALTIME, &ts);
  if (o) *o = ts.tv_sec;
  return ts.tv_sec;
}
int timespec_get(struct timespec* ts, int base) { return base == TIME_UTC && !clock_gettime(CLOCK_REALTIME, ts) ? base : 0; }
clock_t clock(void) {
  timespec ts;
  clock_gettime(CLOCK_PROCESS_CPUTIME_ID, &ts);
  return ts.tv_sec * 1000000 + ts.tv_nsec / 1000;
}
ssize_t getrandom(void* buf, size_t n, unsigned flags) {
  if (!g_running) return ret_errno(raw3(SYS_getrandom, (long)buf, n, flags));
  uint64_t x = 0x1234567 + g_steps;
  for (size_t i = 0; i < n; ++i) ((uint8_t*)buf)[i] = (uint8_t)splitmix(x);
  return n;
}
int getentropy(void* buf, size_t n) { return getrandom(buf, n, 0) == (ssize_t)n ? 0 : -1; }

// ---- pthreads ---------------------------------------------------------------------------------
int pthread_create(pthread_t* th, const pthread_attr_t*, void* (*start)(void*), void* arg) {
  if (!in_sim()) { errno = ENOSYS; return EAGAIN; }
  sched_point("pthread_create");
  Internal g;
  Party* p = g_parties[g_cur->party];
  if (p->fail_thread) { p->fail_thread = 0; count_fault(FAIL_THREAD); return EAGAIN; }
  Fiber* f = new_fiber(p->id);
  f->start = start;
  f->arg = arg;
  *th = (pthread_t)(f->id + 1);
  if (hooks.fork) hooks.fork(g_cur->id, f->id);
  make_runnable(f);
  return 0;
}
int pthread_join(pthread_t th, void** ret) {
  if (!in_sim()) return EINVAL;
  sched_point("pthread_join");
  Internal g;
  size_t id = (size_t)th - 1;
  if (id >= g_fibers.size()) return ESRCH;
  Fiber* f = g_fibers[id];
  if (f == g_cur) return EDEADLK;
  while (f->st != Fiber::DONE) block(f, "pthread_join", f->id);
  if (ret) *ret = f->ret;
  f->joined = true;
  if (hooks.join) hooks.join(g_cur->id, f->id);
  return 0;
}
int pthread_detach(pthread_t th) {
  if (!in_sim()) return 0;
  size_t id = (size_t)th - 1;
  if (id < g_fibers.size()) g_fibers[id]->detached = true;
  return 0;
}
pthread_t pthread_self(void) {
  if (g_running && g_cur && g_cur != &g_main) return (pthread_t)(g_cur->id + 1);
  pthread_t t;
  asm("movq %%fs:0x10,%0" : "=r"(t));
  return t;
}
int pthread_equal(pthread_t a, pthread_t b) { return a == b; }

// mutex state lives in the mutex itself: __lock 0 free / 1 held, __owner fiber id + 1
int pthread_mutex_lock(pthread_mutex_t* m) {
  if (!in_sim()) return 0;
  sched_point("mutex_lock");
  Internal g;
  bool rec = (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE;
  if (rec && m->__data.__lock && m->__data.__owner == g_cur->id + 1) { ++m->__data.__count; return 0; }
  while (m->__data.__lock) block(m, "mutex_lock");
  m->__data.__lock = 1;
  m->__data.__owner = g_cur->id + 1;
  if (hooks.acquire) hooks.acquire(g_cur->id, m);
  return 0;
}
int pthread_mutex_trylock(pthread_mutex_t* m) {
  if (!in_sim()) return 0;
  sched_point("mutex_trylock");
  if (m->__data.__lock) return EBUSY;
  m->__data.__lock = 1;
  m->__data.__owner = g_cur->id + 1;
  if (hooks.acquire) hooks.acquire(g_cur->id, m);
  return 0;
}
int pthread_mutex_unlock(pthread_mutex_t* m) {
  if (!in_sim()) return 0;
  {
    Internal g;
    if (!m->__data.__lock || m->__data.__owner != g_cur->id + 1) { probe("mutex_unlock_not_owner"); return EPERM; }
    if ((m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE && m->__data.__count) { --m->__data.__count; return 0; }
    if (hooks.release) hooks.release(g_cur->id, m);
    m->__data.__lock = 0;
    m->__data.__owner = 0;
    wake_one(m);
  }
  sched_point("mutex_unlock");
  return 0;
}
int pthread_mutex_init(pthread_mutex_t* m, const pthread_mutexattr_t* a) {
  memset(m, 0, sizeof *m);
  if (a) m->__data.__kind = *(const int*)a & 3;
  return 0;
}
int pthread_mutex_destroy(pthread_mutex_t* m) { return g_running && m->__data.__lock ? EBUSY : 0; }

int pthread_cond_init(pthread_cond_t* c, const pthread_condattr_t*) { memset(c, 0, sizeof *c); return 0; }
int pthread_cond_destroy(pthread_cond_t*) { return 0; }
static int cond_wait(pthread_cond_t* c, pthread_mutex_t* m, uint64_t until) {
  // releases the mutex and waits atomically
  bool ok = true;
  {
    Internal g;
    if (hooks.release) hooks.release(g_cur->id, m);
    m->__data.__lock = 0;
    m->__data.__owner = 0;
    wake_one(m);
    bool spurious = cfg.spurious && chance(F, cfg.spurious, 256);
    if (spurious) { count_fault(X_SPURIOUS); }
    else ok = block(c, "cond_wait", 0, until);
  }
  sched_point("cond_woken");
  Internal g;
  while (m->__data.__lock) block(m, "mutex_lock(cond)");
  m->__data.__lock = 1;
  m->__data.__owner = g_cur->id + 1;
  if (hooks.acquire) hooks.acquire(g_cur->id, m);
  return ok ? 0 : ETIMEDOUT;
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) {
  if (!in_sim()) return 0;
  sched_point("cond_wait");
  return cond_wait(c, m, UINT64_MAX);
}
static uint64_t abs_to_sim(clockid_t c, const struct timespec* ts) {
  uint64_t t = (uint64_t)ts->tv_sec * 1000000000ull + ts->tv_nsec, at = clock_now(c, false);
  return t > at ? g_now + (t - at) : g_now;
}
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* ts) {
  if (!in_sim()) return 0;
  sched_point("cond_timedwait");
  return cond_wait(c, m, abs_to_sim(CLOCK_REALTIME, ts));
}
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, const struct timespec* ts) {
  if (!in_sim()) return 0;
  sched_point("cond_clockwait");
  return cond_wait(c, m, abs_to_sim(k, ts));
}
int pthread_cond_signal(pthread_cond_t* c) {
  if (!in_sim()) return 0;
  { Internal g; wake_one(c); }
  sched_point("cond_signal");
  return 0;
}
int pthread_cond_broadcast(pthread_cond_t* c) {
  if (!in_sim()) return 0;
  { Internal g; wake_all(c); }
  sched_point("cond_broadcast");
  return 0;
}
// reader/writer locks (std::shared_mutex): state in __data.__readers / __cur_writer
int pthread_rwlock_rdlock(pthread_rwlock_t* l) {
  if (!in_sim()) return 0;
  sched_point("rdlock");
  Internal g;
  while (l->__data.__cur_writer) block(l, "rdlock");
  ++l->__data.__readers;
  if (hooks.acquire) hooks.acquire(g_cur->id, l);
  return 0;
}
int pthread_rwlock_wrlock(pthread_rwlock_t* l) {
  if (!in_sim()) return 0;
  sched_point("wrlock");
  Internal g;
  while (l->__data.__cur_writer || l->__data.__readers) block(l, "wrlock");
  l->__data.__cur_writer = g_cur->id + 1;
  if (hooks.acquire) hooks.acquire(g_cur->id, l);
  return 0;
}
int pthread_rwlock_unlock(pthread_rwlock_t* l) {
  if (!in_sim()) return 0;
  {
    Internal g;
    if (hooks.release) hooks.release(g_cur->id, l);
    if (l->__data.__cur_writer == g_cur->id + 1) l->__data.__cur_writer = 0;
    else if (l->__data.__readers) --l->__data.__readers;
    wake_all(l);
  }
  sched_point("rwunlock");
  return 0;
}
int pthread_once(pthread_once_t* o, void (*fn)(void)) {
  if (*o == 2) { if (in_sim() && hooks.acquire) hooks.acquire(g_cur->id, o); return 0; }
  if (in_sim()) {
    while (*o == 1) { Internal g; block(o, "once"); }
    if (*o == 2) { if (hooks.acquire) hooks.acquire(g_cur->id, o); return 0; }
  }
  *o = 1;
  try { fn(); } catch (...) { *o = 0; { Internal g; wake_all(o); } throw; }
  *o = 2;
  if (in_sim()) { Internal g; if (hooks.release) hooks.release(g_cur->id, o); wake_all(o); }
  return 0;
}

long syscall(long n, ...) {
  va_list ap;
  va_start(ap, n);
  long a[6];
  for (long& x : a) x = va_arg(ap, long);
  va_end(ap);
  if (n == SYS_futex && in_sim()) {
    int op = (int)a[1] & 0x7f;
    int* addr = (int*)a[0];
    if (op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET) {
      sched_point("futex_wait");
      Internal g;
      if (*addr != (int)a[2]) { errno = EAGAIN; return -1; }
      uint64_t until = UINT64_MAX;
      if (a[3]) {
        const timespec* ts = (const timespec*)a[3];
        if (op == FUTEX_WAIT) until = g_now + (uint64_t)ts->tv_sec * 1000000000ull + ts->tv_nsec;
        else until = abs_to_sim(((int)a[1] & FUTEX_CLOCK_REALTIME) ? CLOCK_REALTIME : CLOCK_MONOTONIC, ts);
      }
      if (!block(addr, "futex_wait", 0, until)) { errno = ETIMEDOUT; return -1; }
      if (hooks.acquire) hooks.acquire(g_cur->id, addr);
      return 0;
    }
    if (op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET) {
      int woken = 0;
      {
        Internal g;
        if (hooks.release) hooks.release(g_cur->id, addr);
        while (woken < (int)a[2] && wake_one(addr)) ++woken;
      }
      sched_point("futex_wake");
      return woken;
    }
  }
  return ret_errno(raw6(n, a[0], a[1], a[2], a[3], a[4], a[5]));
}

// ---- files --------------------------------------------------------------------------------------
// A simulated file is a memfd opened again through /proc/self/fd/N; reads on it can fail or be short.
static void note_open(const char* path, int fd) {
  if (fd < 0 || !g_running || vfiles.empty()) return;
  Internal g;
  if (vfiles.count(path)) { g_vfds[fd] = path; }
}
FILE* fopen(const char* path, const char* mode) {
  static FILE* (*real)(const char*, const char*) = (FILE * (*)(const char*, const char*)) dlsym(RTLD_NEXT, "fopen");
  FILE* f = real(path, mode);
  if (f) note_open(path, fileno(f));
  return f;
}
FILE* fopen64(const char* path, const char* mode) {
  static FILE* (*real)(const char*, const char*) = (FILE * (*)(const char*, const char*)) dlsym(RTLD_NEXT, "fopen64");
  FILE* f = real(path, mode);
  if (f) note_open(path, fileno(f));
  return f;
}
int open(const char* path, int flags, ...) {
  va_list ap; va_start(ap, flags);
  int mode = (flags & O_CREAT) ? va_arg(ap, int) : 0;
  va_end(ap);
  int fd = (int)ret_errno(raw6(SYS_openat, AT_FDCWD, (long)path, flags, mode, 0, 0));
  note_open(path, fd);
  return fd;
}

// ---- memory ---------------------------------------------------------------------------------------
static inline bool alloc_fails() {
  if (!g_running || g_internal || !g_cur || g_cur == &g_main) return false;
  Party* p = g_parties[g_cur->party];
  if (!p->alloc_fail_in) return false;
  if (--p->alloc_fail_in) return false;
  count_fault(FAIL_ALLOC);
  errno = ENOMEM;
  return true;
}
// Guarded heap: every block of a party ends (up to 16-byte rounding) at an inaccessible page and
// becomes inaccessible when freed, so that accesses outside a block or after free end in SIGSEGV.
static char* g_arena = nullptr;
static size_t g_arena_off = 0;
static const size_t kArena = 4ull << 30;
static inline bool guarded(const void* p) { return g_arena && (const char*)p >= g_arena && (const char*)p < g_arena + kArena; }
struct GuardHdr { size_t size, map; };     // at the start of the block's first page
static void* guard_malloc(size_t n) {
  if (!g_arena) {
    g_arena = (char*)mmap(nullptr, kArena, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (g_arena == (char*)MAP_FAILED) { g_arena = nullptr; return __libc_malloc(n); }
  }
  size_t r = (n + 15) & ~(size_t)15;
  if (r == 0) r = 16;
  size_t pages = (r + sizeof(GuardHdr) + 4095) / 4096;
  if (n > (1u << 28) || g_arena_off + (pages + 1) * 4096 > kArena) return __libc_malloc(n);
  char* base = g_arena + g_arena_off;
  if (mprotect(base, pages * 4096, PROT_READ | PROT_WRITE)) return __libc_malloc(n);
  g_arena_off += (pages + 1) * 4096;
  memset(base, 0xA5, pages * 4096);
  ((GuardHdr*)base)->size = n;
  ((GuardHdr*)base)->map = pages * 4096;
  return base + pages * 4096 - r;
}
static GuardHdr* guard_hdr(void* p) {
  // the header is in the first page of the block's mapping; blocks larger than a page: step back
  char* pg = (char*)((uintptr_t)p & ~(uintptr_t)4095);
  if ((size_t)((char*)p - pg) < sizeof(GuardHdr)) pg -= 4096;
  return (GuardHdr*)pg;
}
static inline bool guard_on() { return cfg.guard_alloc && g_running && !g_internal && g_cur && g_cur != &g_main; }
// Accounting of live blocks: open addressing, linear probing, deletion by shifting back.
struct HeapSlot { void* p; uint64_t n : 48, party : 16; };
static HeapSlot* g_heap = nullptr;
static const size_t kHeapSlots = 1u << 21;
static size_t g_heap_used = 0;
static Heap g_heap_of[1024];
static inline size_t heap_home(void* p) { return (size_t)(((uintptr_t)p >> 4) * 0x9E3779B97F4A7C15ull >> 43); }
static void heap_note(void* p, size_t n) {
  if (!p || !cfg.count_heap || !g_running || g_internal || !g_cur || g_cur == &g_main) return;
  if (!g_heap) {
    void* m = mmap(nullptr, kHeapSlots * sizeof(HeapSlot), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (m == MAP_FAILED) return;
    g_heap = (HeapSlot*)m;
  }
  if (g_heap_used > kHeapSlots / 2) return;
  size_t i = heap_home(p);
  while (g_heap[i].p) i = (i + 1) % kHeapSlots;
  g_heap[i] = HeapSlot{p, n, (uint64_t)g_cur->party};
  ++g_heap_used;
  g_heap_of[g_cur->party & 1023].bytes += n;
  ++g_heap_of[g_cur->party & 1023].blocks;
}
static void heap_forget(void* p) {
  if (!g_heap || !p) return;
  size_t i = heap_home(p);
  while (g_heap[i].p && g_heap[i].p != p) i = (i + 1) % kHeapSlots;
  if (!g_heap[i].p) return;
  --g_heap_used;
  g_heap_of[g_heap[i].party & 1023].bytes -= g_heap[i].n;
  --g_heap_of[g_heap[i].party & 1023].blocks;
  for (size_t j = i;;) {
    j = (j + 1) % kHeapSlots;
    if (!g_heap[j].p) break;
    size_t k = heap_home(g_heap[j].p);
    if (i <= j ? (i < k && k <= j) : (i < k || k <= j)) continue;
    g_heap[i] = g_heap[j];
    i = j;
  }
  g_heap[i].p = nullptr;
}
extern "C" void __libc_free(void*);
static inline bool hook_on() { return hooks.alloc && in_sim(); }
static void* malloc_(size_t n) { if (alloc_fails()) return nullptr; if (hook_on()) return hooks.alloc(n); return guard_on() ? guard_malloc(n) : __libc_malloc(n); }
static void* calloc_(size_t a, size_t b) {
  if (alloc_fails()) return nullptr;
  if (hook_on() && (b == 0 || a <= SIZE_MAX / b)) { void* p = hooks.alloc(a * b); if (p) memset(p, 0, a * b); return p; }
  if (guard_on() && (b == 0 || a <= SIZE_MAX / b)) { void* p = guard_malloc(a * b); if (p) memset(p, 0, a * b); return p; }
  return __libc_calloc(a, b);
}
void free(void* p) {
  if (!p) return;
  heap_forget(p);
  if (hooks.dealloc && hooks.dealloc(p)) return;
  if (!guarded(p)) { __libc_free(p); return; }
  GuardHdr* h = guard_hdr(p);
  size_t m = h->map;                       // a second free faults here
  mprotect(h, m, PROT_NONE);
  madvise(h, m, MADV_DONTNEED);
}
static void* realloc_(void* p, size_t n) {
  if (alloc_fails()) return nullptr;
  if (hooks.usable) {
    size_t old = p ? hooks.usable(p) : 0;
    if (old || (!p && hook_on())) {
      void* q = hook_on() ? hooks.alloc(n) : __libc_malloc(n);
      if (q && p) { memcpy(q, p, old < n ? old : n); hooks.dealloc(p); }
      return q;
    }
  }
  if (!guarded(p)) {
    if (!guard_on() || p) return __libc_realloc(p, n);
    return guard_malloc(n);
  }
  size_t old = guard_hdr(p)->size;
  void* q = guard_on() ? guard_malloc(n) : __libc_malloc(n);
  if (!q) return nullptr;
  memcpy(q, p, old < n ? old : n);
  free(p);
  return q;
}
void* malloc(size_t n) { void* p = malloc_(n); heap_note(p, n); return p; }
void* calloc(size_t a, size_t b) { void* p = calloc_(a, b); heap_note(p, a * b); return p; }
void* realloc(void* p, size_t n) {
  void* q = realloc_(p, n);
  if (q || !n) { heap_forget(p); heap_note(q, n); }
  return q;
}

// ---- abnormal termination -----------------------------------------------------------------------
int sim_asserts_on = 1;
void sim_assert_failed(const char* expr, const char* file, int line) {
  const char* b = strrchr(file, '/');
  if (g_running && g_cur && g_cur != &g_main) {
    std::string w = std::string("assertion failed: ") + expr + " (" + (b ? b + 1 : file) + ":" + std::to_string(line) + ")";
    Internal g;
    party_abort(w);
  }
  fprintf(stderr, "assertion failed: %s %s:%d\n", expr, file, line);
  raw3(SYS_exit_group, 99, 0, 0);
}
[[noreturn]] void __assert_fail(const char* expr, const char* file, unsigned line, const char*) noexcept {
  if (g_running && g_cur && g_cur != &g_main) {
    Internal g;
    const char* b = strrchr(file, '/');
    party_abort(std::string("assertion failed: ") + expr + " (" + (b ? b + 1 : file) + ":" + std::to_string(line) + ")");
  }
  fprintf(stderr, "assertion failed: %s %s:%u\n", expr, file, line);
  raw3(SYS_exit_group, 99, 0, 0);
  __builtin_unreachable();
}
[[noreturn]] void abort(void) noexcept {
  if (g_running && g_cur && g_cur != &g_main && g_internal == 0) party_abort("abort()");
  raw3(SYS_kill, raw3(SYS_getpid, 0, 0, 0), SIGABRT, 0);
  raw3(SYS_exit_group, 98, 0, 0);
  __builtin_unreachable();
}
[[noreturn]] void exit(int code) noexcept {
  if (g_running && g_cur && g_cur != &g_main && g_internal == 0) {
    if (code == 0) {
      Internal g;
      Party* p = g_parties[g_cur->party];
      if (p->info.status == RUNNING) p->info.status = EXITED;
      p->info.end_time = g_now;
      g_cur->st = Fiber::DEAD;
      close_party(p);
      reschedule(false);
    }
    party_abort("exit(" + std::to_string(code) + ")");
  }
  fflush(nullptr);
  raw3(SYS_exit_group, code, 0, 0);
  __builtin_unreachable();
}
}  // extern "C"

static void on_terminate() {
  if (g_running && g_cur && g_cur != &g_main) {
    std::string w = "terminate";
    if (std::current_exception()) w = current_exception_text();
    party_abort("uncaught in thread: " + w);
  }
  raw3(SYS_exit_group, 96, 0, 0);
}

// ---- running -----------------------------------------------------------------------------------
Outcome run() {
  dl_iterate_phdr(find_tls, nullptr);
  g_running = true;
  sim_asserts_on = cfg.asserts;
  g_cur = &g_main;
  g_outcome = DONE;
  std::set_terminate(on_terminate);
  {
    Internal g;
    // enter: pick the first fiber
    for (;;) {
      fire_due();
      if (!g_runq.empty()) break;
      if (g_events.empty()) { g_running = false; return DONE; }
      g_now = std::max(g_now, g_events.top().t);
    }
    size_t i = 0;
    if (g_runq.size() > 1) {
      uint64_t v;
      if (replayed(S, v)) v %= g_runq.size(); else v = pick_index(nullptr, g_runq.size());
      i = (size_t)record(S, v);
    }
    Fiber* f = g_runq[i];
    g_runq.erase(g_runq.begin() + i);
    switch_to(f);
  }
  g_running = false;
  return g_outcome;
}

std::vector<BlockedInfo> blocked() {
  std::vector<BlockedInfo> r;
  for (Fiber* f : g_blocked) r.push_back({f->party, g_parties[f->party]->info.phase, f->what});
  return r;
}
std::string blocked_report() {
  std::string r;
  for (Fiber* f : g_blocked) {
    Party* p = g_parties[f->party];
    char b[200];
    snprintf(b, sizeof b, "%s[%s]: %s(%ld); ", p->name.c_str(), p->info.phase.c_str(), f->what, f->what_arg);
    r += b;
    if (r.size() > 600) { r += "..."; break; }
  }
  if (r.empty()) for (Party* p : g_parties) if (p->info.status == RUNNING) { r += p->name + "[" + p->info.phase + "] running; "; if (r.size() > 600) break; }
  return r;
}
int live_fibers(int party) {
  int n = 0;
  for (Fiber* f : g_fibers) if (f->party == party && f->st != Fiber::DONE && f->st != Fiber::DEAD) ++n;
  return n;
}
std::vector<Link> links() {
  std::vector<Link> r;
  for (Pipe* p : g_pipes) r.push_back(Link{p->from, p->to, p->wr, p->rd, p->by_phase, p->closed_with_unread});
  return r;
}
uint64_t stray_fd_ops(int party) { return g_parties[party]->stray_ops; }
Heap heap_live(int party) {
  if (party >= 0) return g_heap_of[party & 1023];
  Heap h{0, 0};
  for (auto& x : g_heap_of) { h.bytes += x.bytes; h.blocks += x.blocks; }
  return h;
}
std::string heap_report() {
  Internal g;
  std::map<size_t, size_t> sizes;
  for (size_t i = 0; g_heap && i < kHeapSlots; ++i) if (g_heap[i].p) ++sizes[g_heap[i].n];
  std::vector<std::pair<size_t, size_t>> v;
  for (auto& k : sizes) v.push_back({k.second, k.first});
  std::sort(v.rbegin(), v.rend());
  std::string s;
  for (size_t i = 0; i < v.size() && i < 12; ++i) s += (i ? ", " : "") + std::to_string(v[i].first) + " of " + std::to_string(v[i].second) + " bytes";
  return s;
}
const std::map<std::string, Span>& op_spans(int party) { return g_parties[party]->spans; }
size_t live_sockets(int party) {
  size_t n = 0;
  for (Socket* s : g_sockets) if (s->party == party && !s->released) ++n;
  return n;
}

void begin_run(uint64_t seed, const Sparse* replay) {
  uint64_t x = seed;
  for (auto& r : g_rng) r = splitmix(x);
  g_replay = replay;
  for (int i = 0; i < NSTREAMS; ++i) { g_idx[i] = 0; g_rpos[i] = 0; g_rec[i].clear(); }
  g_hash = 1; g_sched_hash = 1;
  mallopt(M_PERTURB, 0x5A);
  draw_strategy();
  if (chance(K, 1, 8)) cfg.fine = 1 + (unsigned)logu(K, 3000);
}

void finish_result() {
  Internal g;
  Result* r = g_result;
  r->hash = g_hash;
  r->sched_hash = g_sched_hash;
  r->steps = g_steps;
  r->sim_ns = g_now;
  r->switches = g_switches;
  r->preemptions = g_preempt;
  if (g_fine_switches) probe("switches_inside_computations", g_fine_switches);
  for (int i = 0; i < NSTREAMS; ++i) r->nchoices[i] = g_idx[i];
  static const char* sn[] = {"run_to_block", "uniform", "p_switch", "pct_priorities", "starvation", "round_robin"};
  g_probes[std::string("strategy_") + (g_replay ? "replayed" : sn[g_strat])] += 1;
  std::string s;
  for (auto& kv : g_probes) s += kv.first + "=" + std::to_string(kv.second) + ";";
  snprintf(r->probes, sizeof r->probes, "%s", s.c_str());
  r->state = 1;
}

static void on_signal(int sig, siginfo_t* si, void*) {
  Result* r = g_result;
  if (sig == SIGVTALRM) {
    // a tick of CPU time: no reason to stop while the run advances, or the harness evaluates it
    static uint64_t last = ~0ull, ticks = 0;
    if (++ticks < 20 && (last != g_steps || !g_cur || g_cur == &g_main)) { last = g_steps; return; }
  }
  if (r && r->violated != 1) {
    r->violated = 1;
    const char* n = sig == SIGSEGV ? "SIGSEGV" : sig == SIGBUS ? "SIGBUS" : sig == SIGFPE ? "SIGFPE" : sig == SIGILL ? "SIGILL" : sig == SIGABRT ? "SIGABRT" : sig == SIGVTALRM ? "cpu-time" : "signal";
    if (sig == SIGVTALRM) snprintf(r->cls, sizeof r->cls, "endless-computation");
    else snprintf(r->cls, sizeof r->cls, "crash-%s", n);
    const char* ph = g_cur && g_cur != &g_main && g_cur->party >= 0 ? g_parties[g_cur->party]->info.phase.c_str() : "";
    snprintf(r->detail, sizeof r->detail, "%s in party %d phase %s", n, g_cur ? g_cur->party : -1, ph);
  }
  if (r) { r->hash = 0xDEAD0000 + sig; r->steps = g_steps; r->sim_ns = g_now; r->state = 1; }
  (void)si;
  extern void (*g_on_fatal)();
  if (g_on_fatal) g_on_fatal();
  raw3(SYS_exit_group, 0, 0, 0);
}
void (*g_on_fatal)() = nullptr;
void install_signal_handlers() {
  static char* alt = (char*)mmap(nullptr, 1 << 17, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  stack_t ss;
  memset(&ss, 0, sizeof ss);
  ss.ss_sp = alt;
  ss.ss_size = 1 << 17;
  sigaltstack(&ss, nullptr);
  struct sigaction sa;
  memset(&sa, 0, sizeof sa);
  sa.sa_sigaction = on_signal;
  sa.sa_flags = SA_ONSTACK | SA_SIGINFO | SA_NODEFER;
  for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT, SIGVTALRM}) sigaction(s, &sa, nullptr);
}
}  // namespace sim

std::vector<Scenario>& scenarios() {
  static std::vector<Scenario> v;
  return v;
}
