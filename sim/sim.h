// Deterministic simulator: fibers, virtual time, TCP, pthreads, files, allocation faults.
// One OS process runs every simulated process ("party") and all of its threads.
#pragma once
#include <cstddef>
#include <cstdint>
#include <functional>
#include <initializer_list>
#include <map>
#include <string>
#include <vector>

namespace sim {

// ---- choice streams: the only source of nondeterminism --------------------------------------
// W workload, K simulator configuration, S scheduling, N network timing/segmentation, F faults.
// The value 0 of every choice is the benign default (continue current thread, no delay, no fault).
enum Stream { W = 0, K, S, N, F, NSTREAMS };

uint64_t choose(Stream s, uint64_t n);                       // uniform in [0, n)
bool chance(Stream s, unsigned num, unsigned den);           // true with probability num/den
unsigned weighted(Stream s, std::initializer_list<unsigned> w);
uint64_t logu(Stream s, uint64_t max);                       // log-uniform-ish in [0, max]
inline uint64_t range(Stream s, uint64_t lo, uint64_t hi) { return lo + choose(s, hi - lo + 1); }

// ---- configuration of one run ---------------------------------------------------------------
struct Config {
  size_t cap = 1 << 22;        // bytes a connection can hold per direction (socket buffers)
  size_t (*cap_fn)(const std::string& phase, size_t cap) = nullptr;   // capacity seen by a writer in that phase
  int latency_mode = 0;        // 0 none, 1 fixed 50us, 2 uniform <1ms, 3 heavy tail, 4 latency_ns
  uint64_t latency_ns = 0;
  unsigned short_read = 0;     // per 256: reads return fewer bytes than available
  unsigned short_write = 0;    // per 256
  unsigned segment = 0;        // per 256: a write is delivered in pieces
  unsigned eintr = 0;          // per 4096: read/write/accept/connect interrupted
  unsigned spurious = 0;       // per 256: spurious wake-up of a condition wait
  unsigned clock_jump = 0;     // per 256 readings of the wall clock: it was set to another time before
  unsigned refuse = 0;         // per 256: connect attempt fails although a peer listens
  unsigned fine = 0;           // threads of a party also switch inside computations, every this many basic blocks or so
  bool guard_alloc = false;    // heap blocks of the parties end at an inaccessible page and are never reused
  bool count_heap = false;     // count the heap blocks of the parties (heap_live)
  bool asserts = true;         // assertions of the code under test: compiled in / compiled out
  uint64_t max_steps = 6000000;
  uint64_t max_time_ns = 6 * 3600ull * 1000000000ull;
  uint64_t step_ns = 200;
};
extern Config cfg;
// Draws latency/segmentation/short-op knobs (stream K).
void draw_network(bool allow_small_caps, size_t cap_floor);

// ---- parties --------------------------------------------------------------------------------
enum Status { RUNNING = 0, EXITED, FAILED, CRASHED };
struct PartyInfo {
  Status status = RUNNING;
  std::string why;             // for FAILED: exception text, signal or assertion
  std::string phase;
  uint64_t end_time = 0;
};
int add_host(const std::string& ip);
int spawn(const std::string& name, int host, std::function<void()> body, uint64_t start_delay_ns = 0);
int self();                                  // current party
const PartyInfo& info(int party);
void set_phase(const std::string& p);        // current party enters a phase
int phase_index(int party);
uint64_t now();
uint64_t stamp();                            // grows with every call
uint64_t party_steps(int party);             // scheduling points passed so far
void yield();                                // a scheduling point
void sleep_ns(uint64_t ns);
bool in_sim();
// Barrier: blocks until `n` fibers arrived at `key` (harness-level synchronisation).
void barrier(const std::string& key, int n);
// Harness-level waiting without a scheduling point: blocks until wake_waiters(obj).
void wait_on(const void* obj, const char* what);
void wake_waiters(const void* obj);
// Runs fn in the simulator as an extra fiber of the current party; join waits for it.
int fork_fiber(std::function<void()> fn);
void join_fiber(int id);

// ---- faults ---------------------------------------------------------------------------------
enum FaultKind { CRASH = 0, RESET, STALL, LINK_STALL, FAIL_READ, FAIL_WRITE, FAIL_ALLOC, FAIL_THREAD,
                 FAIL_SOCKET, NFAULTKINDS };
extern const char* fault_names[NFAULTKINDS];
struct PlannedFault { int kind; int party; int phase; uint64_t offset; int peer; uint64_t dur; bool fired; uint64_t at_time; uint64_t at_step; };
void plan_fault(int kind, int party, int phase, uint64_t offset, int peer, uint64_t dur);
const std::vector<PlannedFault>& planned();
void crash_party(int p, const char* why);
void arm_alloc_failure(int party, uint64_t nth);   // nth allocation from now in that party's fibers fails

// ---- simulated files (read-only): reads can fail or be short ------------------------------------
struct VFile { std::string content; int64_t fail_at = -1; int err = 5; unsigned short_reads = 0; bool fired = false; };
extern std::map<std::string, VFile> vfiles;
std::string add_vfile(const VFile& f);       // returns the path to open

// ---- running --------------------------------------------------------------------------------
enum Outcome { DONE, DEADLOCK, STEP_LIMIT, TIME_LIMIT };
Outcome run();                               // until every party ended, or nothing can happen
std::string blocked_report();
// Blocked or unfinished fibers of a party at the end (leaked threads).
int live_fibers(int party);
struct BlockedInfo { int party; std::string phase, what; };
std::vector<BlockedInfo> blocked();

// ---- accounting -----------------------------------------------------------------------------
struct Link { int from, to; uint64_t written, read; std::map<std::string, uint64_t> by_phase; bool closed_with_unread; };
std::vector<Link> links();                   // one per direction of each connection
// When a party's first and last socket read or write in a phase was done.
struct Span { uint64_t first, last; };
const std::map<std::string, Span>& op_spans(int party);
size_t live_sockets(int party);
// Heap blocks allocated by a party's threads (-1: of all parties) and not yet freed (cfg.count_heap).
struct Heap { uint64_t bytes, blocks; };
Heap heap_live(int party = -1);
std::string heap_report();                      // the most frequent sizes among them
uint64_t stray_fd_ops(int party);               // reads, writes, shutdowns, closes of descriptors that were not open

// ---- results --------------------------------------------------------------------------------
void violation(const std::string& cls, const std::string& detail);   // first one wins
void known(const std::string& key, const std::string& detail);       // violation with a finding key
bool violated();
void probe(const char* name, uint64_t n = 1);
void describe(const std::string& text);                              // workload text (evidence sample)
void trivial();                                                      // this run does not count as non-trivial
void mix(uint64_t v);                                                // into the run's history hash

// ---- race detector hooks (set in instrumented builds) ------------------------------------------
struct Hooks {
  void (*acquire)(int fiber, const void* obj) = nullptr;
  void (*release)(int fiber, const void* obj) = nullptr;
  void (*fork)(int parent, int child) = nullptr;
  void (*join)(int parent, int child) = nullptr;
  void (*stack)(const void* lo, size_t n) = nullptr;      // memory that becomes a fresh thread stack
  void* (*alloc)(size_t n) = nullptr;                     // heap of the parties (fixed addresses)
  bool (*dealloc)(void* p) = nullptr;                     // false: not from alloc
  size_t (*usable)(void* p) = nullptr;                    // 0: not from alloc
};
extern Hooks hooks;
int current_fiber();
int fiber_party(int fiber);
bool preempt_enabled();
}  // namespace sim

// Scenario registry
struct Scenario {
  const char* property;
  const char* name;
  unsigned weight;         // share of the runs
  void (*fn)();
  bool directed;           // runs exactly once (index 0 of the batch)
};
std::vector<Scenario>& scenarios();
struct RegisterScenario {
  RegisterScenario(const char* p, const char* n, unsigned w, void (*f)(), bool directed = false) { scenarios().push_back({p, n, w, f, directed}); }
};
#define SCENARIO(prop, name, weight) \
  static void scen_##prop##_##name(); \
  static RegisterScenario reg_##prop##_##name(#prop, #name, weight, scen_##prop##_##name); \
  static void scen_##prop##_##name()
#define DIRECTED(prop, name) \
  static void scen_##prop##_##name(); \
  static RegisterScenario reg_##prop##_##name(#prop, #name, 1, scen_##prop##_##name, true); \
  static void scen_##prop##_##name()
