// Workloads shared by the protocol properties: circuit specifications, the independent reference
// evaluation, and party programs that follow the order of calls of the shipped drivers.
#pragma once
#include <functional>
#include <memory>
#include <string>
#include <vector>

#include "sim.h"
#include "tp/circuits.h"
#include "tp/dn07.h"

namespace h {
using u64 = uint64_t;
using sim::W; using sim::K; using sim::S; using sim::N; using sim::F;

constexpr u64 P61 = (1ull << 61) - 1;
inline u64 addm(u64 a, u64 b) { u64 r = a + b; return r >= P61 ? r - P61 : r; }
inline u64 subm(u64 a, u64 b) { return a >= b ? a - b : a + P61 - b; }
inline u64 mulm(u64 a, u64 b) { return (u64)((unsigned __int128)a * b % P61); }
u64 powm(u64 a, u64 e);
inline u64 invm(u64 a) { return powm(a, P61 - 2); }
// value at x of the polynomial through (xs[i], ys[i])
u64 lagrange(const std::vector<u64>& xs, const std::vector<u64>& ys, u64 x);
// do the points lie on a polynomial of degree <= deg?
bool degree_at_most(const std::vector<u64>& xs, const std::vector<u64>& ys, size_t deg);

inline u64 val(const tp::FF& f) { unsigned char b[8]; f.Write(b); u64 v; memcpy(&v, b, 8); return v; }
inline tp::FF ff(u64 v) { unsigned char b[8]; memcpy(b, &v, 8); return tp::FF::Read(b); }

struct Node {
  enum T { IN, ADD, MUL } t;
  int a, b;          // operands (wire numbers); IN: a = owner, b = index among the owner's inputs
  int layer;         // MUL: its layer;  ADD: first layer that may use it
  int idx;           // MUL: position in its layer
};
struct Step { enum T { ADD, MUL, NEWLAYER } t; int wire; };
struct Out { int owner, wire, idx; };
struct Spec {
  int n = 5, t = 2, k = 2;
  std::vector<Node> nodes;
  std::vector<Step> steps;          // construction order after the inputs
  std::vector<Out> outs;
  std::vector<int> width;           // multiplications per layer
  std::vector<std::vector<u64>> inputs;     // per owner
  std::vector<u64> clear;           // per wire
  std::vector<std::vector<u64>> expected;   // per owner
  int n_inputs() const { int s = 0; for (auto& v : inputs) s += (int)v.size(); return s; }
  int n_mults() const { int s = 0; for (int w : width) s += w; return s; }
  int depth() const { return (int)width.size(); }
  int mult_batches() const { int s = 0; for (int w : width) s += w ? (w + k - 1) / k : 1; return s; }
  int io_batches() const;
  void evaluate();
  std::string str() const;
};
struct GenOpt {
  int max_n = 13;
  int max_layers = 4;
  int max_width = 9;
  int max_inputs = 8;
  int max_outputs = 6;
  bool dn07 = false;     // parameters of the baseline
  int fix_n = 0;         // keep n (and t, k) of this party count
  bool private_ = false; // a threshold of at least one
  bool large = false;    // sometimes many parties, wide or deep circuits, many inputs and outputs
};
u64 gen_value();
// The pseudo-random generator behind a seam: when on, scl::PRG::Next delivers bytes drawn from the
// run's seed instead of the fixed default key stream (single-binary builds only).
extern bool g_prg_random;
extern u64 g_prg_state, g_prg_calls;
extern bool g_prg_probing;
bool prg_seam_complete();             // does everything that the code draws go through the seam?
extern thread_local u64* g_prg_mine;      // generator state of this thread, when it has its own
void draw_prg();
void gen_params(Spec& s, const GenOpt& o);
void gen_circuit(Spec& s, const GenOpt& o);
inline Spec gen_spec(const GenOpt& o = GenOpt()) { Spec s; gen_params(s, o); gen_circuit(s, o); s.evaluate(); return s; }

// Parameters and inputs for a synthetic circuit (Circuit::FromConfig); the expected outputs are the
// library's own evaluation in the clear.
std::shared_ptr<tp::CircuitConfig> gen_synthetic(Spec& s, const GenOpt& o);

struct PartyState {
  std::shared_ptr<tp::Circuit> c;
  std::shared_ptr<tp::DN07> dn;
  std::vector<std::shared_ptr<tp::Gate>> wires;
  std::vector<std::shared_ptr<tp::OutputGate>> outs;
  std::shared_ptr<tp::Correlator> corr;     // copy taken after the mapping (when asked for)
  std::vector<u64> outputs;
  std::vector<u64> mus;                     // masked values of all wires at the first party
  std::vector<u64> out_mus;                 // ... and of the outputs
  bool have_outputs = false;
  bool finished = false;
  u64 sentinel_bad = 0;
};
struct Exec {
  Spec spec;
  bool dn07 = false;
  bool phases = true;            // mark phases (one simulated process per party)
  bool capture = false;          // keep the correlator
  bool stop_after_fi = false;
  bool stop_after_fd = false;
  bool sentinels = false;        // conservation check at the end
  std::vector<std::pair<std::string, u64>>* rounds = nullptr;   // C27: start of each phase; parties start phases together
  std::string tag;               // prefix of phase names
  int api = 0;                   // 0 step by step; 1 RunInput/RunMult/RunOutput; 2 RunProtocol; 3 no helper threads in the online phase of the baseline
  std::shared_ptr<tp::CircuitConfig> synthetic;   // the circuit is Circuit::FromConfig of this
  int dummy = 0;                 // C26: preprocessing that is not generated by the protocol (see run_tp, run_dn)
  u64 lambda = 0;                // ... its constant mask
  std::vector<u64> lambdas;      // ... or one mask per wire
  // called by party id at points of its program (id, point, its state)
  std::function<void(int, const std::string&, PartyState&)> poke;
  bool cleartext = false;        // parties also evaluate the circuit in the clear with the library
  std::vector<PartyState> st;
};
void build(const Spec& s, tp::Circuit& c, PartyState& st, const std::function<void()>& open = nullptr);
void phase_mark(Exec& e, const std::string& p);
// Runs the whole execution for party id over net.
void run_party(Exec& e, int id, std::shared_ptr<scl::Network> net);
// Compares the outputs of the parties that finished; complains about those that should have.
// Returns false when a violation was reported.
bool check_outputs(Exec& e, int id, const char* who);
// bytes a connection must hold for the phases that send everything before receiving
size_t fd_floor(const Spec& s, bool dn07);

// ---- network set-up ---------------------------------------------------------------------------
struct Mesh {
  int n;
  bool threaded = false;         // background-sending channels
  std::vector<std::string> ips;
  int base_port = 9900;
  bool localhost = true;
  std::vector<int> hosts;
};
std::vector<std::string> draw_ips(int n);   // different addresses of machines
Mesh make_mesh(int n, bool draw_threaded);
scl::NetworkConfig mesh_config(const Mesh& m, int id);
std::shared_ptr<scl::Network> connect(const Mesh& m, int id);
u64 start_delay();
u64 late_start();                  // as start_delay(), sometimes up to an hour
u64 stall_time();                  // mostly up to seconds, sometimes up to an hour

std::string outcome_name(sim::Outcome o);
}  // namespace h

namespace h {
// Runs one execution with one simulated process per party over TCP; returns how it ended.
// party ids of the simulator are 0..n-1.
struct TcpRun { Mesh mesh; sim::Outcome out; };
TcpRun run_tcp(Exec& e, bool draw_threaded = true);
// One simulated process, one thread per party, in-memory network.
sim::Outcome run_mem(Exec& e);
void plan_stalls(int n, int max_phase);
// Everybody must have ended normally with the right outputs.
void expect_all_good(Exec& e, sim::Outcome o, int nproc, const char* what);
}
