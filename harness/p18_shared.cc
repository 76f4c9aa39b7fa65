// C18: several executions over one network, and several networks in one program.
#include "proto.h"
#include <thread>
using namespace h;

namespace {
struct Series { std::vector<Exec*> ex; int n; };
Series* draw_series(int n, int count, int max_layers) {
  auto* s = new Series;
  s->n = n;
  for (int i = 0; i < count; ++i) {
    GenOpt o;
    o.dn07 = sim::chance(W, 1, 3);
    o.fix_n = n;
    o.max_layers = max_layers;
    auto* e = new Exec;
    e->dn07 = o.dn07;
    e->spec = gen_spec(o);
    e->tag = std::to_string(i) + "/";
    e->st.assign(n, PartyState());
    s->ex.push_back(e);
  }
  return s;
}
std::string show(Series* s) {
  std::string r = std::to_string(s->ex.size()) + " executions of n=" + std::to_string(s->n) + ":";
  for (auto* e : s->ex) r += std::string(e->dn07 ? " dn07" : " turbopack") + "(t=" + std::to_string(e->spec.t) + ",k=" + std::to_string(e->spec.k) + "," + std::to_string(e->spec.n_mults()) + " mults)";
  return r;
}
size_t floor_of(Series* s) {
  size_t f = 64;
  for (auto* e : s->ex) f += fd_floor(e->spec, e->dn07);     // parties may be an execution apart
  return f;
}
bool check(Series* s, sim::Outcome out, int nproc, const char* what) {
  for (size_t i = 0; i < s->ex.size() && !sim::violated(); ++i) expect_all_good(*s->ex[i], out, nproc, (std::string(what) + ", execution " + std::to_string(i)).c_str());
  return !sim::violated();
}
// How far the parties were apart: the largest number of executions between the fastest and the slowest.
struct Progress { std::vector<int> at; int spread = 0; void step(int i) { ++at[i]; auto mm = std::minmax_element(at.begin(), at.end()); spread = std::max(spread, *mm.second - *mm.first); } };

void tcp(void) {
  int n = 4 + (int)sim::choose(W, 6);
  Series* s = draw_series(n, 2 + (int)sim::choose(W, 3), 3);
  sim::describe("tcp " + show(s));
  sim::draw_network(true, floor_of(s));
  plan_stalls(n, 8 * (int)s->ex.size());
  Mesh m = make_mesh(n, true);
  auto* pr = new Progress;
  pr->at.assign(n, 0);
  for (int i = 0; i < n; ++i) sim::spawn("party", m.hosts[i], [=] {
    sim::set_phase("connect");
    auto net = connect(m, i);
    for (auto* e : s->ex) { run_party(*e, i, net); pr->step(i); }
    sim::set_phase("close");
    net->Close();
  }, start_delay());
  auto out = sim::run();
  if (!check(s, out, n, "tcp")) return;
  sim::probe("executions_sharing_a_network", s->ex.size());
  if (pr->spread) sim::probe("runs_with_parties_an_execution_apart");
}
void mem() {
  int n = 4 + (int)sim::choose(W, 5);
  Series* s = draw_series(n, 2 + (int)sim::choose(W, 3), 3);
  sim::describe("in-memory " + show(s));
  sim::cfg.spurious = sim::chance(K, 1, 3) ? 60 : 0;
  for (auto* e : s->ex) e->phases = false;
  auto* pr = new Progress;
  pr->at.assign(n, 0);
  int host = sim::add_host("10.0.0.1");
  sim::spawn("process", host, [=] {
    sim::set_phase("in-memory");
    auto nets = scl::Network::CreateFullInMemory(n);
    std::vector<std::thread> th;
    for (int i = 0; i < n; ++i) {
      auto net = std::make_shared<scl::Network>(nets[i]);
      th.emplace_back([=] { for (auto* e : s->ex) { run_party(*e, i, net); pr->step(i); } });
    }
    for (auto& t : th) t.join();
  });
  auto out = sim::run();
  if (!check(s, out, 1, "in-memory")) return;
  sim::probe("executions_sharing_a_network", s->ex.size());
  if (pr->spread) sim::probe("runs_with_parties_an_execution_apart");
}
// Two groups whose parties live in the same processes (TCP) or the same program (in memory).
void groups(bool over_tcp) {
  int n = 4 + (int)sim::choose(W, 3), n2 = over_tcp ? n - (int)sim::choose(W, n - 3) : 4 + (int)sim::choose(W, 3);
  Series* g[2] = {draw_series(n, 1 + (int)sim::choose(W, 2), 2), draw_series(n2, 1 + (int)sim::choose(W, 2), 2)};
  for (auto* s : g) for (auto* e : s->ex) e->phases = false;
  sim::describe(std::string(over_tcp ? "tcp" : "in-memory") + " group A: " + show(g[0]) + "; group B: " + show(g[1]));
  Series *a = g[0], *b = g[1];
  if (!over_tcp) {
    sim::cfg.spurious = sim::chance(K, 1, 3) ? 60 : 0;
    int host = sim::add_host("10.0.0.1");
    sim::spawn("process", host, [=] {
      sim::set_phase("in-memory");
      std::vector<std::thread> th;
      for (Series* s : {a, b}) {
        auto nets = scl::Network::CreateFullInMemory(s->n);
        for (int i = 0; i < s->n; ++i) {
          auto net = std::make_shared<scl::Network>(nets[i]);
          th.emplace_back([=] { for (auto* e : s->ex) run_party(*e, i, net); });
        }
      }
      for (auto& t : th) t.join();
    });
    auto out = sim::run();
    if (check(a, out, 1, "group A")) check(b, out, 1, "group B");
  } else {
    sim::draw_network(true, floor_of(a) + floor_of(b));
    plan_stalls(n, 2);
    Mesh m = make_mesh(n, true), m2 = m;
    m2.n = n2;
    m2.base_port = m.base_port > 40000 ? m.base_port - 100 : m.base_port + 100;
    m2.threaded = sim::chance(K, 1, 4);
    m2.ips.resize(n2);
    m2.hosts.resize(n2);
    for (int i = 0; i < n; ++i) sim::spawn("party", m.hosts[i], [=] {
      sim::set_phase("both-groups");
      auto member = [=](Series* s, const Mesh& mesh) {
        auto net = connect(mesh, i);
        for (auto* e : s->ex) run_party(*e, i, net);
        net->Close();
      };
      if (i >= n2) { member(a, m); return; }
      std::thread t([&] { member(b, m2); });
      member(a, m);
      t.join();
    }, start_delay());
    auto out = sim::run();
    if (check(a, out, n, "group A")) check(b, out, n, "group B");
  }
  if (!sim::violated()) sim::probe("pairs_of_groups");
}
}  // namespace
SCENARIO(C18, tcp_series, 3) { tcp(); }
SCENARIO(C18, in_memory_series, 2) { mem(); }
SCENARIO(C18, in_memory_groups, 1) { groups(false); }
SCENARIO(C18, tcp_groups, 1) { groups(true); }
