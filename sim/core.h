// Internal interface between the simulator core (sim.cc) and the runner (run.cc).
#pragma once
#include "sim.h"
#include <utility>

namespace sim {
using Sparse = std::vector<std::pair<uint32_t, uint64_t>>;   // (index, non-zero value)

struct Result {                 // lives in memory shared with the parent
  int state;                    // 0 not finished, 1 finished
  int violated;                 // 0 ok, 1 violation, 2 known finding
  int trivial;
  int died;                     // filled by the parent: signal
  char cls[96];
  char detail[1024];
  char key[64];
  uint64_t hash, sched_hash, steps, sim_ns, switches, preemptions;
  uint64_t faults[NFAULTKINDS + 9];
  char desc[1024];
  char probes[3072];
  uint32_t nchoices[NSTREAMS];
};
// extra fault counters after the planned kinds
enum Extra { X_SHORT_READ = NFAULTKINDS, X_SHORT_WRITE, X_EINTR, X_SEGMENT, X_SPURIOUS, X_REFUSED, X_FILE, X_DELAY, X_CLOCK };

extern Result* g_result;
extern Sparse g_rec[NSTREAMS];
void begin_run(uint64_t seed, const Sparse* replay /* NSTREAMS or null */);
void finish_result();
void install_signal_handlers();
void set_internal(int d);
extern bool g_trace;
}  // namespace sim
