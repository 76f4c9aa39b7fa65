// C26: the function-dependent preprocessing and the online phases compute the circuit for every
// consistent preprocessing: constant, zero or separately chosen masks, not only what the protocol deals.
#include "proto.h"
using namespace h;

static void run(bool dn07, bool mem, std::vector<int> kinds) {
  GenOpt o;
  o.dn07 = dn07;
  o.large = true;
  auto* e = new Exec;
  e->dn07 = dn07;
  e->dummy = kinds[sim::choose(W, kinds.size())];
  if (e->dummy != 4 && sim::chance(W, 1, 6)) e->synthetic = gen_synthetic(e->spec, o);
  else e->spec = gen_spec(o);
  e->api = dn07 ? (sim::chance(W, 1, 4) ? 3 : 0) : (int)sim::weighted(W, {3, 1, 1});
  e->lambda = gen_value();
  for (size_t i = 0; i < e->spec.nodes.size(); ++i) e->lambdas.push_back(gen_value());
  draw_prg();
  sim::describe(std::string(dn07 ? "dn07 " : "turbopack ") + (mem ? "in-memory" : "tcp") + " preprocessing kind " + std::to_string(e->dummy) + " lambda " + std::to_string(e->lambda) + " " + e->spec.str());
  if (mem) {
    sim::cfg.spurious = sim::chance(K, 1, 3) ? 60 : 0;
    auto out = run_mem(*e);
    expect_all_good(*e, out, 1, "in-memory");
  } else {
    sim::draw_network(true, fd_floor(e->spec, dn07));
    plan_stalls(e->spec.n, 4 + e->spec.depth());
    auto r = run_tcp(*e);
    expect_all_good(*e, r.out, e->spec.n, "tcp");
  }
}
SCENARIO(C26, turbopack_masks_tcp, 3) { run(false, false, {1, 2, 3, 4, 4}); }
SCENARIO(C26, turbopack_masks_memory, 2) { run(false, true, {1, 2, 3, 4, 4}); }
SCENARIO(C26, turbopack_material_tcp, 2) { run(false, false, {5, 6, 7}); }
SCENARIO(C26, turbopack_material_memory, 1) { run(false, true, {5, 6, 7}); }
SCENARIO(C26, dn07_tcp, 2) { run(true, false, {1, 1, 2}); }
SCENARIO(C26, dn07_memory, 1) { run(true, true, {1, 1, 2}); }
