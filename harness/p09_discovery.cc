// C09: the discovery service and its clients.
#include "proto.h"
#include "scl/net/discovery/client.h"
#include "scl/net/discovery/server.h"
#include "scl/net/tcp_utils.h"
using namespace h;

namespace {
enum Bad { NONE, OUT_OF_RANGE, DUPLICATE, SERVERS_ID, DISCONNECT };
struct Round {
  int n = 0, server = 0, port = 0;
  std::vector<std::string> ip;                 // address every party connects from
  std::vector<int> announced_port;
  std::vector<std::vector<scl::Party>> table;  // what each party ended with (empty: none)
  std::vector<char> have;
  Bad bad = NONE;
  int liar = -1;
  unsigned claim = 0;
  u64 wait_before = 0;
};
struct Plan {
  std::vector<Round> rounds;
  bool mesh = false;                           // parties connect by the table afterwards
  int first_conn = 0;
};
std::string show(const std::vector<scl::Party>& t) {
  std::string s;
  for (size_t i = 0; i < t.size() && i < 12; ++i) s += "{" + std::to_string(t[i].id) + "," + t[i].hostname + "," + std::to_string(t[i].port) + "}";
  return s;
}
void client(Round& r, int me) {
  scl::NetworkConfig c = r.port == 9999 ? scl::DiscoveryClient(r.ip[r.server]).Run(me, r.announced_port[me]) : scl::DiscoveryClient(r.ip[r.server], r.port).Run(me, r.announced_port[me]);
  if (c.Id() != (unsigned)me) sim::violation("wrong-own-id", "party " + std::to_string(me) + " got a configuration with id " + std::to_string(c.Id()));
  r.table[me] = c.Parties();
  r.have[me] = 1;
}
void serve(Round& r) {
  scl::Party me{(unsigned)r.server, r.ip[r.server], r.announced_port[r.server]};
  scl::NetworkConfig c = r.port == 9999 && r.n % 2 ? scl::DiscoveryServer(r.n).Run(me) : scl::DiscoveryServer(r.port, r.n).Run(me);
  if (c.Id() != me.id) sim::violation("wrong-own-id", "the server got a configuration with id " + std::to_string(c.Id()));
  r.table[r.server] = c.Parties();
  r.have[r.server] = 1;
}
// A client that announces something else than its id, in pieces, or leaves early.
void liar(Round& r, int me) {
  int s = scl::details::ConnectAsClient(r.ip[r.server], r.port);
  scl::TcpChannel ch(s);
  unsigned char b[8];
  int port = r.announced_port[me];
  memcpy(b, &r.claim, 4);
  memcpy(b + 4, &port, 4);
  size_t k = r.bad == DISCONNECT ? r.claim % 8 : 8;
  for (size_t i = 0; i < k;) { size_t p = std::min<size_t>(1 + (r.claim + i) % 5, k - i); ch.Send(b + i, p); i += p; sim::yield(); }
  if (r.bad == DISCONNECT) return;
  unsigned char x;
  ch.Recv(&x, 1);                               // the service must not publish anything
  sim::violation("published-despite-bad-id", "a table was sent although one party announced id " + std::to_string(r.claim));
}
Round draw_round(int n, int server, const std::vector<std::string>& ip, int port, Bad bad) {
  Round r;
  r.n = n; r.server = server; r.ip = ip; r.port = port; r.bad = bad;
  for (int i = 0; i < n; ++i) r.announced_port.push_back(sim::chance(W, 1, 6) ? (int)sim::choose(W, 1ull << 31) : 1024 + (int)sim::choose(W, 60000));
  r.table.resize(n);
  r.have.assign(n, 0);
  if (bad != NONE) {
    do r.liar = (int)sim::choose(W, n); while (r.liar == server);
    switch (bad) {
      case OUT_OF_RANGE: { static const unsigned far[] = {0, 1, 0x7FFFFFFFu, 0x80000000u, 0xFFFFFFFFu}; r.claim = sim::chance(W, 1, 2) ? n + (unsigned)sim::choose(W, 4) : far[1 + sim::choose(W, 4)]; if (r.claim < (unsigned)n) r.claim = n; break; }
      case DUPLICATE: do r.claim = (unsigned)sim::choose(W, n); while ((int)r.claim == r.liar || (int)r.claim == server); break;
      case SERVERS_ID: r.claim = server; break;
      default: r.claim = (unsigned)sim::choose(W, 1000);
    }
  }
  return r;
}
// The order in which the parties' connections to the service were made, from link number `first` on.
std::vector<int> connection_order(int server, int first) {
  std::vector<int> o;
  auto l = sim::links();
  for (size_t i = first; i < l.size(); ++i) if (l[i].to == server && l[i].from != server) o.push_back(l[i].from);
  return o;
}
bool check_round(Round& r, const std::vector<int>& order) {
  for (int p = 0; p < r.n; ++p) {
    if (!r.have[p]) continue;
    auto& t = r.table[p];
    std::string who = p == r.server ? "the service" : "party " + std::to_string(p);
    if ((int)t.size() != r.n) { sim::violation("wrong-table-size", who + " has a table of " + std::to_string(t.size()) + " entries for " + std::to_string(r.n) + " parties"); return false; }
    for (int i = 0; i < r.n; ++i) {
      if ((int)t[i].id != i) { sim::violation("wrong-table-id", who + ": entry " + std::to_string(i) + " of " + show(t)); return false; }
      if (t[i].port != r.announced_port[i]) { sim::violation("wrong-table-port", who + ": party " + std::to_string(i) + " announced port " + std::to_string(r.announced_port[i]) + ", table " + show(t)); return false; }
    }
  }
  // the addresses: each party's own
  bool right = true, pattern = (int)order.size() == r.n - 1;
  std::string detail;
  for (int p = 0; p < r.n; ++p) {
    if (!r.have[p]) continue;
    for (int i = 0; i < r.n; ++i) {
      const std::string& hst = r.table[p][i].hostname;
      if (hst != r.ip[i]) { right = false; if (detail.empty()) detail = "party " + std::to_string(i) + " connected from " + r.ip[i] + " but is listed at " + hst; }
      // the recorded defect: entry i carries the address of the i-th connection
      if (pattern) {
        int k = i < r.server ? i : i - 1;
        const std::string& by_connection = i == r.server ? r.ip[i] : r.ip[order[k]];
        if (hst != by_connection) pattern = false;
      }
    }
  }
  if (!right && !pattern) { sim::violation("wrong-table-address", detail); return false; }
  if (!right) { sim::known("discovery-hostname-by-id", detail + " (parties on several hosts, connected in an order other than their ids')"); return false; }
  return true;
}
void discovery(bool hostile) {
  sim::draw_network(true, 64);
  sim::cfg.guard_alloc = sim::chance(K, 1, 8);
  sim::cfg.latency_mode = (int)sim::weighted(K, {4, 2, 3, 3});
  int n = hostile ? 2 + (int)sim::choose(W, 7) : sim::chance(W, 1, 40) ? 20 + (int)sim::choose(W, 236) : 1 + (int)sim::choose(W, 9);
  Bad bad = hostile ? (Bad)(1 + sim::choose(W, 4)) : NONE;
  if (bad == DUPLICATE && n < 3) bad = SERVERS_ID;
  // 0: one machine, 1: several machines connecting in the order of their ids, 2: any order, 3: several parties per machine
  int layout = (int)sim::weighted(K, {3, 4, 2, 1});
  if (n > 20) { sim::cfg.max_time_ns = ~0ull / 4; sim::cfg.max_steps = 60000000; }
  int server = (int)sim::choose(W, n);
  std::vector<std::string> ip;
  std::vector<int> hosts;
  int h0 = layout == 0 ? sim::add_host("127.0.0.1") : 0;
  std::vector<int> pool;
  std::vector<std::string> machines;
  if (layout) machines = h::draw_ips(std::max(n, 3));
  for (int i = 0; i < n; ++i) {
    if (layout == 0) { ip.push_back("127.0.0.1"); hosts.push_back(h0); continue; }
    int m = layout == 3 ? (int)sim::choose(K, 3) : i;
    const std::string& a = machines[m];
    while ((int)pool.size() <= m) pool.push_back(-1);
    if (pool[m] < 0) pool[m] = sim::add_host(a);
    ip.push_back(a);
    hosts.push_back(pool[m]);
  }
  auto* p = new Plan;
  int nrounds = hostile ? 1 : 1 + (int)sim::weighted(W, {3, 2, 1});
  if (n > 20) nrounds = 1;
  int port = sim::chance(K, 1, 3) ? 9999 : 2000 + (int)sim::choose(K, 50000);
  for (int k = 0; k < nrounds; ++k) p->rounds.push_back(draw_round(n, server, ip, port, bad));
  p->mesh = !hostile && n <= 9 && layout <= 1 && sim::chance(W, 1, 2);
  if (p->mesh) for (int i = 0; i < n; ++i) p->rounds.back().announced_port[i] = (layout == 0 ? 20000 + i * 7 : 20000 + (int)sim::choose(W, 20));
  if (p->mesh && port >= 19000 && port < 21000) for (auto& r : p->rounds) r.port = 9999;
  sim::describe("n=" + std::to_string(n) + " server " + std::to_string(server) + (layout == 0 ? " one machine" : layout == 1 ? " several machines in order" : layout == 2 ? " several machines" : " shared machines") + " rounds " + std::to_string(nrounds) + (bad ? " bad announcement " + std::to_string(p->rounds[0].claim) + " by " + std::to_string(p->rounds[0].liar) : "") + (p->mesh ? " then mesh" : ""));
  for (int i = 0, c = (int)sim::weighted(F, {3, 2, 1}); i < c; ++i) {
    int a = (int)sim::choose(F, n), b = (int)sim::choose(F, n);
    u64 off = sim::logu(F, 20), dur = stall_time();
    if (sim::chance(F, 1, 2) && a != b) sim::plan_fault(sim::LINK_STALL, a, 1, off, b, dur); else sim::plan_fault(sim::STALL, a, 1, off, 0, dur);
  }
  if (layout == 1) sim::cfg.latency_mode = (int)sim::choose(K, 2);
  std::vector<u64> delay(n);
  for (int i = 0; i < n; ++i) delay[i] = late_start();
  // in order: a later party starts long after the earlier one has connected
  bool in_order = layout == 1;
  for (int i = 0; i < n; ++i) {
    u64 d = delay[i];
    if (in_order) d = i == server ? 0 : 1000000000ull * 7 * (u64)(i + 1);
    sim::spawn("party", hosts[i], [p, i, n, in_order, ip] {
      sim::set_phase("discovery");
      for (size_t k = 0; k < p->rounds.size(); ++k) {
        Round& r = p->rounds[k];
        if (k) {
          sim::barrier("round" + std::to_string(k), n);
          if (i == 0) p->first_conn = (int)sim::links().size();
          sim::barrier("start" + std::to_string(k), n);
          if (in_order && i != r.server) sim::sleep_ns(7000000000ull * (u64)(i + 1));
        }
        if (i == r.server) serve(r);
        else if (i == r.liar) liar(r, i);
        else client(r, i);
        if (sim::violated()) return;
        if (r.bad == NONE) sim::barrier("end" + std::to_string(k), n);
        if (k + 1 < p->rounds.size() || p->mesh) {
          if (i == 0 && !check_round(r, connection_order(r.server, p->first_conn))) return;
        }
      }
      if (p->mesh) {
        sim::barrier("mesh", n);
        sim::set_phase("mesh");
        scl::NetworkConfig c(i, p->rounds.back().table[i]);
        auto net = scl::Network::Create(c);
        for (int j = 0; j < n; ++j) net.Party(j)->Send(1000 * i + j);
        for (int j = 0; j < n; ++j) { int v = -1; net.Party(j)->Recv(v); if (v != 1000 * j + i) { sim::violation("table-does-not-connect", "party " + std::to_string(i) + " received " + std::to_string(v) + " from party " + std::to_string(j)); return; } }
        sim::barrier("close", n);
        net.Close();
        sim::probe("meshes_from_table");
      }
    }, d);
  }
  auto out = sim::run();
  if (sim::violated()) return;
  Round& last = p->rounds.back();
  if (hostile) {
    for (int i = 0; i < n; ++i) if (last.have[i]) { sim::violation("published-despite-bad-id", (i == server ? "the service" : "party " + std::to_string(i)) + " ended with the table " + show(last.table[i])); return; }
    for (int i = 0; i < n; ++i) if (sim::info(i).status == sim::FAILED && sim::info(i).why.find("SIG") != std::string::npos && i == server) { sim::violation("service-killed", sim::info(i).why); return; }
    // whoever has not ended is waiting at the harness' barrier or, wrongly, for the service
    if (sim::info(server).status != sim::FAILED && bad != DISCONNECT) { sim::violation("bad-id-accepted", "the service did not fail: " + sim::blocked_report()); return; }
    if (sim::info(server).status == sim::RUNNING) { sim::violation("service-hangs", sim::blocked_report()); return; }
    for (int i = 0; i < n; ++i) if (sim::info(i).status == sim::RUNNING) { sim::violation("client-hangs", "the service failed, but: " + sim::blocked_report()); return; }
    sim::probe("bad_announcements");
    return;
  }
  for (int i = 0; i < n; ++i) if (sim::info(i).status == sim::FAILED) { sim::violation("discovery-failed", "party " + std::to_string(i) + " in phase " + sim::info(i).phase + ": " + sim::info(i).why); return; }
  if (out != sim::DONE) { sim::violation("discovery-hangs-" + outcome_name(out), sim::blocked_report()); return; }
  for (int i = 0; i < n; ++i) if (!last.have[i]) { sim::violation("no-table", "party " + std::to_string(i)); return; }
  if (!check_round(last, connection_order(server, p->first_conn))) return;
  sim::probe("tables_checked", n);
}
// A service that sends a client a table which is not one: an id out of range, listed twice, too few
// entries for the client's own id, or an end in the middle.
void bad_table() {
  sim::draw_network(true, 64);
  sim::cfg.guard_alloc = sim::chance(K, 1, 4);
  int n = 1 + (int)sim::choose(W, 9);
  unsigned me = (unsigned)sim::choose(W, n);
  int port = 2000 + (int)sim::choose(K, 50000);
  int kind = (int)sim::choose(W, 4);           // out of range, twice, own id missing, cut off
  if (kind == 1 && n == 1) kind = 0;
  static const unsigned far[] = {0x7FFFFFFFu, 0x80000000u, 0xFFFFFFFFu, 0x10000u, 256u};
  auto* ids = new std::vector<unsigned>;
  for (int i = 0; i < n; ++i) ids->push_back(i);
  size_t at = sim::choose(W, n), cut = 0;
  if (kind == 0) (*ids)[at] = sim::chance(W, 1, 2) ? n + (unsigned)sim::choose(W, 3) : far[sim::choose(W, 5)];
  if (kind == 1) { unsigned o; do o = (unsigned)sim::choose(W, n); while (o == at); (*ids)[at] = o; }
  if (kind == 2) me = n + (unsigned)sim::choose(W, 5);
  auto* table = new std::vector<unsigned char>;
  auto put = [table](const void* p, size_t k) { const unsigned char* b = (const unsigned char*)p; table->insert(table->end(), b, b + k); };
  size_t count = n;
  put(&count, 8);
  for (int i = 0; i < n; ++i) {
    int pt = 1000 + i;
    std::string hst = "10.0.0." + std::to_string(i);
    size_t len = hst.size();
    put(&(*ids)[i], 4); put(&pt, 4); put(&len, 8); put(hst.data(), len);
  }
  cut = table->size();
  if (kind == 3) cut = sim::choose(W, cut);
  sim::describe("a table of " + std::to_string(n) + (kind == 0 ? " with id " + std::to_string((*ids)[at]) : kind == 1 ? " with id " + std::to_string((*ids)[at]) + " twice" : kind == 2 ? " for party " + std::to_string(me) : " cut after " + std::to_string(cut) + " of " + std::to_string(table->size()) + " bytes"));
  int h0 = sim::add_host("127.0.0.1");
  sim::spawn("service", h0, [=] {
    sim::set_phase("discovery");
    int ss = scl::details::CreateServerSocket(port, 1);
    auto ac = scl::details::AcceptConnection(ss);
    std::shared_ptr<scl::Channel> ch = std::make_shared<scl::TcpChannel>(ac.socket);
    unsigned id; int pt;
    ch->Recv(id); ch->Recv(pt);
    ch->Send(table->data(), cut);
    if (kind != 3) sim::sleep_ns(60000000000ull);
  }, start_delay());
  auto* got = new std::string;
  sim::spawn("client", h0, [=] {
    sim::set_phase("discovery");
    auto c = scl::DiscoveryClient("127.0.0.1", port).Run(me, 4242);
    *got = show(c.Parties()) + ".";
  }, start_delay());
  auto out = sim::run();
  if (sim::violated()) return;
  auto& c = sim::info(1);
  if (!got->empty()) { sim::violation("bad-table-accepted", "the client ended with the table " + *got); return; }
  if (c.status == sim::RUNNING) { sim::violation("client-hangs-" + outcome_name(out), sim::blocked_report()); return; }
  sim::probe("bad_tables_refused");
}
}  // namespace
SCENARIO(C09, bad_table, 1) { bad_table(); }
SCENARIO(C09, honest, 3) { discovery(false); }
SCENARIO(C09, bad_announcement, 2) { discovery(true); }
