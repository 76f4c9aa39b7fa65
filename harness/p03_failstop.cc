// C03: faults at arbitrary points of an execution: every survivor ends, right or with an error.
#include "proto.h"
#include <thread>
using namespace h;

namespace {
void plan_hard_faults(int n, int first_phase, int last_phase) {
  static const int kinds[] = {sim::CRASH, sim::RESET, sim::FAIL_READ, sim::FAIL_WRITE, sim::FAIL_ALLOC, sim::FAIL_THREAD};
  int m = 1 + (int)sim::weighted(F, {5, 2, 1});
  for (int i = 0; i < m; ++i) {
    int kind = kinds[sim::weighted(F, {4, 3, 2, 3, 2, 1})];
    int p = sim::chance(F, 1, 3) ? 0 : (int)sim::choose(F, n);
    int ph = first_phase + (int)sim::choose(F, last_phase - first_phase + 1);
    u64 off = sim::logu(F, 500);
    u64 dur = kind == sim::FAIL_ALLOC ? sim::logu(F, 300) : 0;
    sim::plan_fault(kind, p, ph, off, (int)sim::choose(F, n), dur);
  }
}
bool any_fired() {
  for (auto& f : sim::planned()) if (f.fired && f.kind != sim::STALL && f.kind != sim::LINK_STALL) return true;
  return false;
}
void failstop(bool dn07) {
  GenOpt o;
  o.dn07 = dn07;
  o.max_layers = 3;
  auto* e = new Exec;
  e->dn07 = dn07;
  e->spec = gen_spec(o);
  int n = e->spec.n;
  sim::describe(std::string(dn07 ? "dn07 " : "turbopack ") + e->spec.str());
  sim::cfg.asserts = !sim::chance(K, 1, 2);
  sim::draw_network(true, fd_floor(e->spec, dn07));
  if (sim::chance(K, 1, 8)) sim::cfg.eintr = 1 + (unsigned)sim::choose(K, 16);
  const unsigned eintr = sim::cfg.eintr;
  sim::cfg.eintr = 0;                    // none while connecting
  int last = (dn07 ? 5 : 6) + e->spec.depth();
  plan_hard_faults(n, 2, last);
  if (sim::chance(F, 1, 3)) plan_stalls(n, last);
  e->st.assign(n, PartyState());
  Mesh m = make_mesh(n, true);
  for (int i = 0; i < n; ++i) {
    sim::spawn("party", m.hosts[i], [e, m, i, n, eintr] {
      sim::set_phase("connect");
      auto net = connect(m, i);
      sim::barrier("connected", n);
      sim::cfg.eintr = eintr;
      run_party(*e, i, net);
      sim::set_phase("close");
      net->Close();
    });
  }
  auto out = sim::run();
  if (sim::violated()) return;
  if (!any_fired() && !eintr) sim::trivial();
  if (m.threaded) sim::probe("threaded_runs");
  int ok = 0, failed = 0;
  for (int i = 0; i < n; ++i) {
    if (!check_outputs(*e, i, "party ")) return;
    const auto& pi = sim::info(i);
    if (pi.status == sim::EXITED && !e->st[i].have_outputs) { sim::violation("ended-without-result", "party " + std::to_string(i) + " ended normally without its outputs"); return; }
    ok += pi.status == sim::EXITED;
    failed += pi.status == sim::FAILED;
  }
  sim::probe("parties_finished_correct", ok);
  sim::probe("parties_stopped_with_error", failed);
  if (out != sim::DONE) {
    std::string fs;
    for (auto& f : sim::planned()) if (f.fired) fs += std::string(sim::fault_names[f.kind]) + "@party" + std::to_string(f.party) + " ";
    sim::violation("hang-after-fault-" + outcome_name(out), std::string(m.threaded ? "background-sending network; " : "") + "faults: " + fs + "; " + sim::blocked_report() + "; " + e->spec.str());
  }
}
}  // namespace
SCENARIO(C03, turbopack, 1) { failstop(false); }
SCENARIO(C03, dn07, 1) { failstop(true); }
