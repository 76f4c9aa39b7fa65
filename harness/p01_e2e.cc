// C01, C02: end-to-end correctness of both protocols under every schedule, transport and network.
#include "proto.h"
using namespace h;

static void e2e(bool dn07, bool mem, bool synthetic = false) {
  GenOpt o;
  o.dn07 = dn07;
  o.large = true;
  sim::cfg.max_steps = 40000000;
  auto* e = new Exec;
  e->dn07 = dn07;
  if (synthetic) e->synthetic = gen_synthetic(e->spec, o);
  else e->spec = gen_spec(o);
  e->api = dn07 ? (sim::chance(W, 1, 4) ? 3 : 0) : (int)sim::weighted(W, {3, 1, 1});
  e->cleartext = !synthetic && sim::chance(W, 1, 4);
  draw_prg();
  sim::describe(std::string(dn07 ? "dn07 " : "turbopack ") + (synthetic ? "synthetic " : "") + (mem ? "in-memory " : "tcp ") + e->spec.str());
  if (mem) {
    sim::cfg.spurious = sim::chance(K, 1, 3) ? 60 : 0;
    auto out = run_mem(*e);
    expect_all_good(*e, out, 1, "in-memory");
  } else {
    sim::draw_network(true, fd_floor(e->spec, dn07));
    plan_stalls(e->spec.n, 6 + e->spec.depth());
    auto r = run_tcp(*e);
    if (r.mesh.threaded) sim::describe(" threaded-senders");
    expect_all_good(*e, r.out, e->spec.n, "tcp");
  }
}
SCENARIO(C01, tcp, 3) { e2e(false, false); }
SCENARIO(C01, in_memory, 1) { e2e(false, true); }
SCENARIO(C01, synthetic_tcp, 1) { e2e(false, false, true); }
SCENARIO(C02, synthetic_tcp, 1) { e2e(true, false, true); }
SCENARIO(C02, tcp, 3) { e2e(true, false); }
SCENARIO(C02, in_memory, 1) { e2e(true, true); }
