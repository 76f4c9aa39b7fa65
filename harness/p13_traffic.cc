// C13, C14, C15: what travels in an execution, and that it keeps flowing whatever connections can hold.
#include "proto.h"
#include <thread>
using namespace h;

namespace {
const char* kind(bool dn07) { return dn07 ? "dn07 " : "turbopack "; }
std::string refill(Spec& s) {                    // the same circuit with other inputs
  for (auto& v : s.inputs) for (auto& x : v) x = gen_value();
  s.evaluate();
  return "";
}
// Bytes per (from, to, phase without tag) of the links made from number `lo` to `hi`.
using Traffic = std::map<std::pair<int, int>, std::map<std::string, u64>>;
Traffic traffic(size_t lo, size_t hi, const std::string& tag, bool by_phase) {
  Traffic t;
  auto l = sim::links();
  for (size_t i = lo; i < hi && i < l.size(); ++i)
    for (auto& kv : l[i].by_phase) {
      if (kv.first.rfind(tag, 0) != 0 || !kv.second) continue;
      std::string ph = kv.first.substr(tag.size());
      if (ph == "end-markers") continue;
      t[{l[i].from, l[i].to}][by_phase ? ph : "all"] += kv.second;
    }
  return t;
}
// Two executions of one circuit with different inputs, one after the other over one network or over two.
void conserve_tcp(bool dn07) {
  GenOpt o;
  o.dn07 = dn07;
  auto* a = new Exec;
  auto* b = new Exec;
  a->dn07 = b->dn07 = dn07;
  a->sentinels = b->sentinels = true;
  a->spec = gen_spec(o);
  b->spec = a->spec;
  refill(b->spec);
  a->tag = "first/"; b->tag = "second/";
  int n = a->spec.n;
  a->st.assign(n, PartyState());
  b->st.assign(n, PartyState());
  bool same_net = sim::chance(W, 1, 2), plain_only = sim::chance(K, 3, 4);
  sim::describe(std::string(kind(dn07)) + "twice " + (same_net ? "over one network " : "over two networks ") + a->spec.str());
  sim::draw_network(true, fd_floor(a->spec, dn07));
  plan_stalls(n, 12 + 2 * a->spec.depth());
  Mesh m = make_mesh(n, !plain_only);
  Mesh m2 = m;
  m2.base_port = m.base_port > 40000 ? m.base_port - 500 : m.base_port + 500;
  static size_t mid;
  mid = 0;
  for (int i = 0; i < n; ++i) sim::spawn("party", m.hosts[i], [=] {
    sim::set_phase("connect");
    auto net = connect(m, i);
    run_party(*a, i, net);
    if (!same_net) {
      sim::set_phase("close");
      net->Close();
      net = connect(m2, i);
    }
    run_party(*b, i, net);
    sim::set_phase("close");
    net->Close();
  }, start_delay());
  auto out = sim::run();
  expect_all_good(*a, out, n, "first execution");
  if (!sim::violated()) expect_all_good(*b, out, n, "second execution");
  if (sim::violated()) return;
  size_t all = sim::links().size();
  Traffic x = traffic(0, all, "first/", !m.threaded), y = traffic(0, all, "second/", !m.threaded);
  if (m.threaded) { sim::probe("traffic_not_compared_background_senders"); return; }       // written whenever the sender thread runs
  for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) {
    auto &p = x[{i, j}], &q = y[{i, j}];
    for (auto* t : {&p, &q}) for (auto& kv : *t) if (p[kv.first] != q[kv.first]) {
      sim::violation("traffic-depends-on-inputs", "party " + std::to_string(i) + " sent party " + std::to_string(j) + " " + std::to_string(p[kv.first]) + " bytes in phase " + kv.first + " of one execution and " + std::to_string(q[kv.first]) + " in another one of the same circuit; " + a->spec.str());
      return;
    }
  }
  for (auto& l : sim::links()) if (l.written != l.read) { sim::violation("message-left-over", "party " + std::to_string(l.from) + " sent party " + std::to_string(l.to) + " " + std::to_string(l.written) + " bytes, of which " + std::to_string(l.read) + " were received; " + a->spec.str()); return; }
  sim::probe("pairs_compared", n * (n - 1));
}
void conserve_mem(bool dn07) {
  GenOpt o;
  o.dn07 = dn07;
  auto* e = new Exec;
  e->dn07 = dn07;
  e->sentinels = true;
  e->spec = gen_spec(o);
  sim::describe(std::string(kind(dn07)) + "in-memory " + e->spec.str());
  sim::cfg.spurious = sim::chance(K, 1, 3) ? 60 : 0;
  auto out = run_mem(*e);
  expect_all_good(*e, out, 1, "in-memory");
}

// ---- volume of the online phase ------------------------------------------------------------------
void online_volume() {
  GenOpt o;
  o.max_width = sim::chance(W, 1, 6) ? 40 : 12;
  auto* e = new Exec;
  e->spec = gen_spec(o);
  Spec& s = e->spec;
  sim::describe("turbopack " + s.str());
  sim::draw_network(true, fd_floor(s, false));
  plan_stalls(s.n, 6 + s.depth());
  auto r = run_tcp(*e, false);
  expect_all_good(*e, r.out, s.n, "tcp");
  if (sim::violated()) return;
  // expected bytes per (from, to, phase)
  Traffic want, got;
  for (auto& x : s.nodes) if (x.t == Node::IN && x.a != 0) want[{x.a, 0}]["online-in"] += 8;
  for (int l = 0; l < s.depth(); ++l) {
    u64 b = s.width[l] ? (u64)((s.width[l] + s.k - 1) / s.k) : 1;
    for (int i = 1; i < s.n; ++i) { want[{0, i}]["mult-" + std::to_string(l)] += 16 * b; want[{i, 0}]["mult-" + std::to_string(l)] += 8 * b; }
  }
  for (auto& x : s.outs) if (x.owner != 0) want[{0, x.owner}]["out"] += 8;
  for (auto& l : sim::links()) for (auto& kv : l.by_phase) {
    if (kv.first != "online-in" && kv.first != "out" && kv.first.rfind("mult-", 0) != 0) continue;
    if (kv.second) got[{l.from, l.to}][kv.first] += kv.second;
  }
  for (int i = 0; i < s.n; ++i) for (int j = 0; j < s.n; ++j) {
    auto &p = want[{i, j}], &q = got[{i, j}];
    for (auto* t : {&p, &q}) for (auto& kv : *t) if (p[kv.first] != q[kv.first]) {
      sim::violation("online-volume", "party " + std::to_string(i) + " sent party " + std::to_string(j) + " " + std::to_string(q[kv.first]) + " bytes in phase " + kv.first + ", the protocol needs " + std::to_string(p[kv.first]) + "; " + s.str());
      return;
    }
  }
  sim::probe("layers_measured", s.depth());
  sim::probe("input_output_gates_measured", s.n_inputs() + s.outs.size());
}

// ---- progress whatever a connection holds ----------------------------------------------------------
bool starts(const std::string& p, const char* x) { return p.rfind(x, 0) == 0; }
// The phases that send everything before they receive keep room for it; all others have the tiny capacity.
size_t tight(const std::string& p, size_t cap) {
  if (p == "fd" || p == "dn-fd" || p == "dn-in" || p == "dn-out" || p == "connect" || p == "close") return 1 << 22;
  return cap;
}
void progress(bool dn07) {
  GenOpt o;
  o.dn07 = dn07;
  o.max_n = 9;
  o.max_width = sim::chance(W, 1, 5) ? 30 : 9;
  o.max_inputs = sim::chance(W, 1, 5) ? 30 : 8;
  auto* e = new Exec;
  e->dn07 = dn07;
  e->spec = gen_spec(o);
  sim::draw_network(false, 0);
  static const size_t caps[] = {8, 1, 7, 16, 24, 64, 200};
  sim::cfg.cap = caps[sim::weighted(K, {4, 3, 1, 2, 2, 2, 1})];
  sim::cfg.cap_fn = tight;
  sim::cfg.max_steps = 20000000;
  sim::describe(std::string(kind(dn07)) + "connections of " + std::to_string(sim::cfg.cap) + " bytes " + e->spec.str());
  plan_stalls(e->spec.n, (dn07 ? 5 : 7) + e->spec.depth());
  auto r = run_tcp(*e, false);
  expect_all_good(*e, r.out, e->spec.n, "tiny connections");
  sim::probe(dn07 ? "tiny_capacity_runs_dn07" : "tiny_capacity_runs_turbopack");
}
}  // namespace
SCENARIO(C13, turbopack_tcp, 3) { conserve_tcp(false); }
SCENARIO(C13, dn07_tcp, 2) { conserve_tcp(true); }
SCENARIO(C13, turbopack_in_memory, 2) { conserve_mem(false); }
SCENARIO(C13, dn07_in_memory, 1) { conserve_mem(true); }
SCENARIO(C14, online, 1) { online_volume(); }
SCENARIO(C15, turbopack, 3) { progress(false); }
SCENARIO(C15, dn07, 2) { progress(true); }
