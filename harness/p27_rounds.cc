// C27: the number of communication rounds of a phase.  All messages take the same simulated time and
// computation takes (next to) none, so the time a phase takes, in units of the latency, is the number
// of messages that had to wait for one another.
#include "proto.h"
using namespace h;

static u64 bound(const std::string& phase, const Exec& e) {
  if (phase == "fi" || phase == "dn-prep" || phase == "dn-fd") return 1;
  if (phase == "prod" || phase == "fd" || phase == "dn-in") return 2;
  if (phase == "online-in") return e.api == 2 ? 2 + 2 * (u64)e.spec.depth() : 1;
  if (phase.compare(0, 5, "mult-") == 0 || phase.compare(0, 8, "dn-mult-") == 0) return 2;
  return 1;                                                  // outputs
}
static void rounds(bool dn07) {
  GenOpt o;
  o.dn07 = dn07;
  o.large = true;
  if (sim::chance(W, 1, 3)) { o.max_width = 40; o.max_inputs = 30; o.max_outputs = 30; }
  auto* e = new Exec;
  e->dn07 = dn07;
  if (sim::chance(W, 1, 5)) e->synthetic = gen_synthetic(e->spec, o);
  else e->spec = gen_spec(o);
  e->api = dn07 ? (sim::chance(W, 1, 3) ? 3 : 0) : (int)sim::weighted(W, {2, 1, 1});
  auto* times = new std::vector<std::pair<std::string, u64>>;
  e->rounds = times;
  const u64 L = 5000000000ull;
  // segmentation, short reads and writes and the schedule vary; what a connection holds does not limit
  sim::draw_network(false, 0);
  sim::cfg.cap = 1 << 26;
  sim::cfg.latency_mode = 4;
  sim::cfg.latency_ns = 0;
  sim::cfg.refuse = 0;
  sim::describe(std::string(dn07 ? "dn07 " : "turbopack ") + "api " + std::to_string(e->api) + " " + e->spec.str());
  int n = e->spec.n;
  e->st.assign(n, PartyState());
  Mesh m = make_mesh(n, true);
  for (int i = 0; i < n; ++i) {
    sim::spawn("party", m.hosts[i], [e, m, i, n, L] {
      sim::set_phase("connect");
      auto net = connect(m, i);
      sim::barrier("connected", n);
      sim::cfg.latency_ns = L;
      run_party(*e, i, net);
      phase_mark(*e, "end");
      net->Close();
    });
  }
  auto out = sim::run();
  expect_all_good(*e, out, n, "tcp");
  if (sim::violated()) return;
  for (size_t i = 0; i + 1 < times->size(); ++i) {
    const auto& ph = (*times)[i].first;
    u64 took = (*times)[i + 1].second - (*times)[i].second, r = took / L, most = bound(ph, *e);
    sim::mix(r);
    sim::probe("phases_measured");
    if (r >= most) sim::probe("phases_at_their_bound");
    if (took > most * L + L / 2) {
      sim::violation("too-many-rounds", "phase " + ph + " takes " + std::to_string(r) + " sequential messages, " + std::to_string(most) + " at most are needed whatever the circuit; " + e->spec.str());
      return;
    }
  }
}
SCENARIO(C27, turbopack, 2) { rounds(false); }
SCENARIO(C27, dn07, 1) { rounds(true); }
