// C16: the shipped programs as n processes.  C34: the times they report.
#include "p16_hooks.h"
#include <iostream>
using namespace h;

namespace {
struct Run {
  int n = 0;
  size_t size = 0, depth = 0;
  bool dn07 = false;
  std::vector<tp::CircuitConfig> cfgs;
  std::vector<u64> in;
  std::vector<u64> got;
  bool have = false;
  bool kills = false;
};
std::vector<Run*> g_runs;      // one after another; the second one's processes come after the first one's
Run* run_of(int party) { return g_runs[party / g_runs[0]->n]; }
Run* my_run() { return run_of(sim::self()); }
// What the processes print, line by line, with the time.
// (Fixed memory: a thread of the program can be preempted inside an allocation.)
struct Printed { std::string line; uint64_t at; };
struct Output { size_t n = 0, lines = 0; char text[1 << 14]; uint64_t at[512]; };
Output* g_output;
void print(const char* s, size_t n) {
  Output& o = g_output[sim::self()];
  for (size_t i = 0; i < n && o.n < sizeof o.text && o.lines < 512; ++i) {
    o.text[o.n++] = s[i];
    if (s[i] == '\n') o.at[o.lines++] = sim::now();
  }
}
std::vector<Printed> printed(int party) {
  Output& o = g_output[party];
  std::vector<Printed> r;
  std::string line;
  for (size_t i = 0; i < o.n; ++i)
    if (o.text[i] == '\n') { r.push_back({line, o.at[r.size()]}); line.clear(); } else line += o.text[i];
  return r;
}
struct Capture : std::streambuf {
  int overflow(int c) override { if (c == EOF) return 0; char x = (char)c; if (sim::in_sim()) print(&x, 1); return c; }
  std::streamsize xsputn(const char* s, std::streamsize n) override { if (sim::in_sim()) print(s, n); return n; }
};
ssize_t captured_write(void*, const char* s, size_t n) { if (sim::in_sim()) print(s, n); return n; }
void capture_output() {
  g_output = new Output[64];
  static Capture c;
  std::cout.rdbuf(&c);
  cookie_io_functions_t io = {nullptr, captured_write, nullptr, nullptr};
  if (FILE* f = fopencookie(nullptr, "w", io)) { setvbuf(f, nullptr, _IONBF, 0); stdout = f; }
}
// One line "<phase>: <N> us" per phase, in order, as parse_files.py reads them; the time covers the phase and nothing else.
void check_times(Run* r, int first) {
  static const char* names[2][3] = {{"fi_prep", "fd_prep", "online"}, {"dn07_prep", "dn07_fd", "dn07_online"}};
  for (int i = 0; i < r->n; ++i) {
    int p = first + i;
    if (sim::info(p).status != sim::EXITED) continue;
    std::string who = "process " + std::to_string(i) + (first ? " of the second run" : "");
    // when the messages of each phase were sent and received
    struct { bool any = false; uint64_t first = 0, last = 0; } ops[4];
    for (auto& [ph, sp] : sim::op_spans(p)) {
      int g = ph == "connect" ? 0 : ph == "run" || ph == "fi" || ph == "prod" || ph == "dn-prep" ? 1 : ph == "fd" || ph == "dn-fd" ? 2 : 3;
      ops[g].first = ops[g].any ? std::min(ops[g].first, sp.first) : sp.first;
      ops[g].last = ops[g].any ? std::max(ops[g].last, sp.last) : sp.last;
      ops[g].any = true;
    }
    size_t next = 0;
    for (auto& l : printed(p)) {
      int which = -1;
      for (int k = 0; k < 3; ++k) if (l.line.rfind(std::string(names[r->dn07][k]) + ":", 0) == 0) which = k;
      if (which < 0) continue;
      if (which != (int)next) { sim::violation("report-order", who + " reports " + names[r->dn07][which] + " as number " + std::to_string(next + 1)); return; }
      std::istringstream is(l.line);
      std::string name, num, unit;
      is >> name >> num >> unit;
      char* e = nullptr;
      errno = 0;
      long long v = strtoll(num.c_str(), &e, 10);
      if (num.empty() || *e || errno || unit != "us") { sim::violation("unreadable-report", who + " reports '" + l.line + "'"); return; }
      // between the last message before the phase and the report (or the next phase's first message)
      uint64_t from = which == 0 && !ops[0].any ? 0 : ops[which].any ? ops[which].last : 0, to = l.at;
      if (which < 2 && ops[which + 2].any) to = std::min(to, std::max(ops[which + 2].first, from));
      auto& in = ops[which + 1];
      long long least = in.any ? (long long)((in.last - in.first) / 1000) - 1 : 0, most = (long long)((to - from) / 1000) + 1;
      if (v < 0 || v < least || v > most)
        { sim::violation("wrong-time", who + " reports '" + l.line + "': between the phase's first and last message " + std::to_string(least + 1) + " us passed, between the messages before and the report " + std::to_string(most - 1) + " us"); return; }
      sim::probe("times_checked");
      sim::mix(v);
      ++next;
    }
    if (next < 3) { sim::violation("no-report", who + " ended normally without reporting " + names[r->dn07][next]); return; }
  }
}
// the benchmark circuit: every pair of neighbours (x, y) becomes (x(x+y), y(x+y)), layer after layer
std::vector<u64> clear(Run* r) {
  u64 x = r->in[0], y = r->in[1];
  for (size_t d = 0; d < r->depth; ++d) { u64 s = addm(x, y); x = mulm(x, s); y = mulm(y, s); }
  return {x, y};
}
}  // namespace
namespace p16 {
void built(const tp::CircuitConfig& c) {
  Run* g_run = my_run();
  if (c.width != g_run->size / g_run->depth || c.depth != g_run->depth) sim::violation("wrong-circuit", "party " + std::to_string(sim::self()) + " runs a circuit of width " + std::to_string(c.width) + " and depth " + std::to_string(c.depth) + " for size " + std::to_string(g_run->size) + " and depth " + std::to_string(g_run->depth));
}
void connected() { Run* g_run = my_run(); if (g_run->kills) sim::barrier("connected", g_run->n); sim::set_phase("run"); }
void mark(const char* p) { sim::set_phase(p); }
void inputs(const std::vector<tp::FF>& v) { Run* g_run = my_run(); if (first_party()) { g_run->in.clear(); for (auto& x : v) g_run->in.push_back(val(x)); } }
void result(const std::vector<tp::FF>& v) { Run* g_run = my_run(); g_run->got.clear(); for (auto& x : v) g_run->got.push_back(val(x)); g_run->have = true; }
size_t outputs_of_first() { return 2; }
bool first_party() { return sim::self() % my_run()->n == 0; }
jmp_buf g_ends[64];
jmp_buf* end_of_main() { return &g_ends[sim::self()]; }
}  // namespace p16
extern "C" void __ubsan_handle_missing_return(void*) { longjmp(*p16::end_of_main(), 1); }
extern "C" void __ubsan_handle_missing_return_abort(void*) { longjmp(*p16::end_of_main(), 1); }
namespace {
void draw_run(Run* r, int n) {
  r->n = n;
  r->depth = 1 + sim::choose(W, n == 5 ? 5 : 3);
  size_t width = 2 * (1 + sim::choose(W, n == 5 ? 8 : 5));
  r->size = width * r->depth + sim::choose(W, r->depth);
  r->in = {0432432, 54982};
}
void spawn_run(Run* r, int host, int wait_for) {
  for (int i = 0; i < r->n; ++i) sim::spawn("program", host, [r, i, wait_for] {
    for (int j = 0; j < wait_for; ++j) while (sim::info(j).status == sim::RUNNING) sim::sleep_ns(100000000);
    if (wait_for) sim::sleep_ns(2000000000 + sim::choose(K, 1000000000));
    sim::set_phase("connect");
    std::vector<std::string> a = {r->dn07 ? "dn07.x" : "ours.x", std::to_string(r->n), std::to_string(i), std::to_string(r->size), std::to_string(r->depth)};
    std::vector<char*> v;
    for (auto& s : a) v.push_back(&s[0]);
    v.push_back(nullptr);
    int rc = r->dn07 ? dn07_main(5, v.data()) : ours_main(5, v.data());
    if (rc) throw std::runtime_error("exit status " + std::to_string(rc));
  }, wait_for ? 0 : late_start());
}
void program(bool dn07, bool kills, bool again = false, bool times = false) {
  auto* r = new Run;
  g_runs = {r};
  r->dn07 = dn07;
  r->kills = kills;
  draw_run(r, sim::weighted(W, {6, 3, 1}) == 0 ? 5 : sim::chance(W, 2, 3) ? 9 : 13);
  sim::cfg.asserts = sim::chance(K, 1, 2);
  // connections hold what the kernel gives; a small one stands for a large circuit
  size_t floor = 64 + 8 * 8;
  sim::draw_network(false, 0);
  static const size_t caps[] = {1 << 22, 4096, 512, 128};
  sim::cfg.cap = caps[sim::weighted(K, {3, 1, 1, 1})];
  if (sim::cfg.cap < floor) sim::cfg.cap = floor;
  sim::cfg.max_steps = 20000000;
  auto title = [](Run* r) { return std::string(r->dn07 ? "dn07.x " : "ours.x ") + std::to_string(r->n) + " <id> " + std::to_string(r->size) + " " + std::to_string(r->depth); };
  std::string what = title(r);
  int phases = dn07 ? 7 : 8;
  if (kills) for (int i = 0, m = 1 + (int)sim::weighted(F, {4, 1}); i < m; ++i) sim::plan_fault(sim::CRASH, sim::chance(F, 1, 3) ? 0 : (int)sim::choose(F, r->n), 2 + (int)sim::choose(F, phases - 1), sim::logu(F, 1500), 0, 0);
  plan_stalls(r->n, phases);
  capture_output();
  if (times) { static const unsigned jumps[] = {0, 16, 128}; sim::cfg.clock_jump = jumps[sim::weighted(K, {1, 1, 2})]; if (sim::chance(F, 1, 8)) sim::plan_fault(sim::STALL, (int)sim::choose(F, r->n), 1 + (int)sim::choose(F, phases), sim::logu(F, 400), 0, sim::choose(F, 5 * 3600) * 1000000000ull); }
  int host = sim::add_host("127.0.0.1");
  spawn_run(r, host, 0);
  if (again) {
    // as run.sh does: when every process of one run has ended, the next run uses the same ports
    auto* r2 = new Run;
    g_runs.push_back(r2);
    r2->dn07 = sim::chance(W, 3, 4) ? !dn07 : dn07;
    r2->kills = false;
    draw_run(r2, r->n);
    what += ", then " + title(r2);
    spawn_run(r2, host, r->n);
  }
  sim::describe(what + (kills ? " with kills" : "") + " cap " + std::to_string(sim::cfg.cap));
  auto out = sim::run();
  if (sim::violated()) return;
  if (times) { if (out != sim::DONE) sim::trivial(); for (size_t k = 0; k < g_runs.size(); ++k) check_times(g_runs[k], (int)k * r->n); return; }
  for (Run* q : g_runs) if (q->have) {
    auto want = clear(q);
    sim::mix(q->got[0]);
    if (q->got != want) { sim::violation("wrong-result", "the first party obtains " + std::to_string(q->got[0]) + (q->got.size() > 1 ? "," + std::to_string(q->got[1]) : "") + ", the circuit gives " + std::to_string(want[0]) + "," + std::to_string(want[1]) + (q == r ? "" : " (second run)")); return; }
    sim::probe(q == r ? "results_checked" : "second_results_checked");
  }
  bool fired = false;
  for (auto& f : sim::planned()) fired = fired || (f.fired && f.kind == sim::CRASH);
  int ok = 0, failed = 0;
  for (int i = 0; i < (int)g_runs.size() * r->n; ++i) {
    auto& pi = sim::info(i);
    if (pi.status == sim::FAILED) {
      ++failed;
      if (!fired || i >= r->n) { sim::violation("program-failed", "process " + std::to_string(i % r->n) + (i < r->n ? "" : " of the second run") + " in phase " + pi.phase + ": " + pi.why); return; }
      if (pi.why.find("assert") != std::string::npos) { sim::violation("wrong-result", "process " + std::to_string(i) + ": " + pi.why); return; }
    }
    ok += pi.status == sim::EXITED;
  }
  if (out == sim::DONE && !fired) for (Run* q : g_runs) if (!q->have) { sim::violation("no-result", std::string(q == r ? "" : "second run: ") + "the first party obtains nothing"); return; }
  if (out != sim::DONE) { sim::violation("programs-hang-" + outcome_name(out), (fired ? "after a kill: " : "") + sim::blocked_report()); return; }
  if (kills && !fired) sim::trivial();
  sim::probe("processes_ended_normally", ok);
  sim::probe("processes_stopped_with_error", failed);
}
}  // namespace
void p16_program(bool dn07, bool kills) { if (ours_main && dn07_main) program(dn07, kills); else sim::trivial(); }
#ifndef RACE_BUILD
SCENARIO(C16, turbopack, 3) { program(false, false); }
SCENARIO(C16, dn07, 3) { program(true, false); }
SCENARIO(C16, turbopack_kills, 2) { program(false, true); }
SCENARIO(C16, dn07_kills, 2) { program(true, true); }
SCENARIO(C16, one_after_another, 2) { bool first = sim::chance(W, 1, 3); program(first, sim::chance(F, 1, 4), true); }
SCENARIO(C34, turbopack, 3) { program(false, false, false, true); }
SCENARIO(C34, dn07, 3) { program(true, false, false, true); }
SCENARIO(C34, one_after_another, 1) { program(sim::chance(W, 1, 3), false, true, true); }
#endif
// If a program no longer fits this harness, C16 has no scenarios (and its check fails to run) instead of wrong ones.
static struct DropScenarios {
  DropScenarios() {
    if (ours_main && dn07_main) return;
    auto& v = scenarios();
    for (size_t i = v.size(); i--;) if ((!strcmp(v[i].property, "C16") || !strcmp(v[i].property, "C34"))) v.erase(v.begin() + i);
  }
} drop_scenarios;
