// C25: a network gives back everything it opened, and nothing that is not its own.
#include <thread>
#include "proto.h"
#include "scl/net/discovery/client.h"
#include "scl/net/discovery/server.h"
using namespace h;

namespace {
unsigned char byte_of(u64 salt, int round, int from, int to, size_t pos) {
  u64 x = salt ^ ((u64)round << 50) ^ ((u64)from << 40) ^ ((u64)to << 20) ^ (pos + 1);
  x ^= x >> 33; x *= 0xff51afd7ed558ccdULL; x ^= x >> 33; x *= 0xc4ceb9fe1a85ec53ULL; x ^= x >> 33;
  return (unsigned char)x;
}
enum Teardown { CLOSE, DROP, CLOSE_TWICE, CLOSE_COPY, CLOSE_ELSEWHERE, CLOSE_SOME, NTEAR };
struct Round {
  std::vector<int> threaded, tear;
  std::vector<std::vector<size_t>> len;
  int shift = 0;                         // added to the ports
  bool together = false;
};
struct Plan { int n; u64 salt; std::vector<Round> rounds; int done = 0; bool faults = false; int nodes = 1; };

void account(const std::string& when, int base_fibers) {
  int me = sim::self();
  if (size_t k = sim::live_sockets(me)) sim::violation("descriptor-left-open", "party " + std::to_string(me) + " has " + std::to_string(k) + " descriptor(s) open " + when);
  int f = sim::live_fibers(me);
  if (f > base_fibers) sim::violation("thread-left", "party " + std::to_string(me) + " has " + std::to_string(f - base_fibers) + " more thread(s) than before " + when);
  sim::probe("teardowns_checked");
}
void teardown(std::unique_ptr<scl::Network>& net, int how) {
  switch (how) {
    case CLOSE: net->Close(); break;
    case DROP: break;
    case CLOSE_TWICE: net->Close(); net->Close(); break;
    case CLOSE_COPY: { scl::Network copy = *net; net.reset(); copy.Close(); break; }
    case CLOSE_ELSEWHERE: { std::thread t([&] { net->Close(); }); t.join(); break; }
    default: for (unsigned j = 0; j < net->Size(); j += 2) net->Party(j)->Close(); break;
  }
  net.reset();
}
void one_round(Plan* p, const Mesh& m, int i, int r) {
  const Round& rd = p->rounds[r];
  int n = p->n;
  std::string tag = "round " + std::to_string(r) + (rd.threaded[i] ? " (background sending)" : "");
  sim::set_phase("connect-" + std::to_string(r));
  std::vector<scl::Party> tb;
  for (int j = 0; j < n; ++j) tb.push_back(scl::Party{(unsigned)j, m.ips[j], m.base_port + (m.localhost ? j : 0) + rd.shift});
  scl::NetworkConfig c(i, tb);
  auto net = std::make_unique<scl::Network>(rd.threaded[i] ? scl::Network::CreateThreadedSenders(c) : scl::Network::Create(c));
  if (p->faults) sim::barrier("connected-" + std::to_string(r), n);
  sim::set_phase("exchange-" + std::to_string(r));
  std::string err;
  try {
    for (int j = 0; j < n; ++j) {
      std::vector<unsigned char> b(rd.len[i][j]);
      for (size_t k = 0; k < b.size(); ++k) b[k] = byte_of(p->salt, r, i, j, k);
      net->Party(j)->Send(b.data(), b.size());
    }
    for (int j = 0; j < n; ++j) {
      std::vector<unsigned char> b(rd.len[j][i]);
      net->Party(j)->Recv(b.data(), b.size());
      for (size_t k = 0; k < b.size(); ++k) if (b[k] != byte_of(p->salt, r, j, i, k)) { sim::violation("foreign-bytes", tag + ": party " + std::to_string(i) + " received from party " + std::to_string(j) + " something that was not sent on this connection"); return; }
    }
  } catch (const std::exception& e) { err = e.what(); }
  if (rd.together && err.empty() && !p->faults) sim::barrier("exchanged-" + std::to_string(r), n);
  sim::set_phase("close-" + std::to_string(r));
  teardown(net, rd.tear[i]);
  account("after its network of " + tag + (err.empty() ? " was closed" : " was closed after an error"), 1);
  if (!err.empty()) throw std::runtime_error(err);
  ++p->done;
}
void rounds(bool faults) {
  auto* p = new Plan;
  int n = p->n = 1 + (int)sim::weighted(W, {1, 5, 5, 4, 2, 1});
  p->salt = sim::choose(W, 1ull << 60);
  p->faults = faults;
  sim::draw_network(true, 4096);
  Mesh m = make_mesh(n, false);
  int R = faults ? 1 + (int)sim::choose(W, 2) : 1 + (int)sim::weighted(W, {3, 4, 3, 2, 1, 1, 1, 1});
  for (int r = 0; r < R; ++r) {
    Round rd;
    int thr = (int)sim::weighted(K, {3, 4, 3});
    for (int i = 0; i < n; ++i) {
      rd.threaded.push_back(thr == 0 ? 0 : thr == 1 ? 1 : (int)sim::choose(K, 2));
      rd.tear.push_back((int)sim::choose(W, NTEAR));
      std::vector<size_t> l;
      for (int j = 0; j < n; ++j) l.push_back(1 + (size_t)sim::logu(W, 1500));
      rd.len.push_back(l);
    }
    rd.shift = sim::chance(W, 1, 2) ? 0 : r * 100;
    rd.together = sim::chance(W, 1, 3);
    p->rounds.push_back(rd);
  }
  sim::describe("n=" + std::to_string(n) + " rounds=" + std::to_string(R) + (faults ? " with faults" : ""));
  if (faults) {
    static const int kinds[] = {sim::CRASH, sim::RESET, sim::FAIL_READ, sim::FAIL_WRITE};
    int c = 1 + (int)sim::weighted(F, {4, 2, 1});
    for (int i = 0; i < c; ++i) {
      int a = (int)sim::choose(F, n), b = (int)sim::choose(F, n);
      sim::plan_fault(kinds[sim::weighted(F, {2, 3, 2, 3})], a, 2 + (int)sim::choose(F, 2), sim::logu(F, 60), b, 0);
    }
  } else for (int i = 0, c = (int)sim::weighted(F, {4, 2, 1}); i < c; ++i) {
    int a = (int)sim::choose(F, n), b = (int)sim::choose(F, n);
    u64 off = sim::logu(F, 60), dur = stall_time();
    int ph = 1 + (int)sim::choose(F, 3 * R);
    if (sim::chance(F, 1, 2) && a != b) sim::plan_fault(sim::LINK_STALL, a, ph, off, b, dur); else sim::plan_fault(sim::STALL, a, ph, off, 0, dur);
  }
  for (int i = 0; i < n; ++i) sim::spawn("party", m.hosts[i], [p, m, i] {
    for (size_t r = 0; r < p->rounds.size() && !sim::violated(); ++r) one_round(p, m, i, (int)r);
  }, start_delay());
  auto out = sim::run();
  if (sim::violated()) return;
  bool fired = false;
  for (auto& f : sim::planned()) fired = fired || (f.fired && f.kind != sim::STALL && f.kind != sim::LINK_STALL);
  for (int i = 0; i < n; ++i) {
    if (sim::stray_fd_ops(i)) { sim::violation("closed-descriptor-used", "party " + std::to_string(i) + " read, wrote, shut down or closed a descriptor that was not open (" + std::to_string(sim::stray_fd_ops(i)) + " times): one opened meanwhile would have been hit"); return; }
    if (sim::info(i).status == sim::FAILED && !fired) { sim::violation("party-failed", "party " + std::to_string(i) + " in phase " + sim::info(i).phase + ": " + sim::info(i).why); return; }
  }
  // with faults, a second round may wait for a party that is gone; that is not this property's matter
  if (out != sim::DONE && !fired) { sim::violation("does-not-end-" + outcome_name(out), sim::blocked_report()); return; }
  sim::probe("networks_torn_down", p->done);
}
// The discovery service leaves nothing behind either.
void discovery() {
  int n = 2 + (int)sim::choose(W, 5);
  int R = 1 + (int)sim::choose(W, 3);
  sim::draw_network(false, 0);
  int port = 5000;
  sim::describe("discovery n=" + std::to_string(n) + " rounds=" + std::to_string(R));
  std::vector<int> hosts;
  for (int i = 0; i < n; ++i) hosts.push_back(sim::add_host("10.1.0." + std::to_string(i + 1)));
  bool same_port = sim::chance(W, 1, 2);
  for (int i = 0; i < n; ++i) sim::spawn("party", hosts[i], [=] {
    for (int r = 0; r < R && !sim::violated(); ++r) {
      sim::set_phase("discover-" + std::to_string(r));
      int pt = port + (same_port ? 0 : r);
      if (i == 0) { scl::DiscoveryServer srv(pt, n); srv.Run(scl::Party{0, "10.1.0.1", 7000}); }
      else { scl::DiscoveryClient cl("10.1.0.1", pt); cl.Run(i, 7000 + i); }
      account("after discovery round " + std::to_string(r), 1);
      sim::barrier("round-" + std::to_string(r), n);
    }
  }, start_delay());
  auto out = sim::run();
  if (sim::violated()) return;
  for (int i = 0; i < n; ++i) {
    if (sim::stray_fd_ops(i)) { sim::violation("closed-descriptor-used", "discovery: party " + std::to_string(i)); return; }
    if (sim::info(i).status == sim::FAILED) { sim::violation("party-failed", "discovery: party " + std::to_string(i) + ": " + sim::info(i).why); return; }
  }
  if (out != sim::DONE) sim::violation("does-not-end-" + outcome_name(out), sim::blocked_report());
}
// Many channels in one process, opened and closed by several threads at once: a descriptor closed by one
// is at once reused by another.
void churn() {
  auto* bad = new int(0);
  int pairs = 2 + (int)sim::choose(W, 3), R = 2 + (int)sim::choose(W, 5);
  u64 salt = sim::choose(W, 1ull << 60);
  bool thr = sim::chance(K, 1, 2);
  sim::draw_network(true, 4096);
  sim::describe("churn pairs=" + std::to_string(pairs) + " rounds=" + std::to_string(R) + (thr ? " threaded" : ""));
  int ha = sim::add_host("10.2.0.1"), hb = sim::add_host("10.2.0.2");
  std::vector<std::vector<size_t>> len(pairs);
  std::vector<std::vector<int>> tear(pairs);
  for (auto& l : len) for (int r = 0; r < 2 * R; ++r) l.push_back(1 + (size_t)sim::logu(W, 600));
  for (auto& l : tear) for (int r = 0; r < 2 * R; ++r) l.push_back((int)sim::choose(W, NTEAR));
  for (int side = 0; side < 2; ++side) sim::spawn("process", side ? hb : ha, [=] {
    std::vector<std::thread> th;
    for (int q = 0; q < pairs; ++q) th.emplace_back([=] {
      for (int r = 0; r < R && !sim::violated(); ++r) {
        std::vector<scl::Party> tb{{0, "10.2.0.1", 6000 + q}, {1, "10.2.0.2", 6100 + q}};
        scl::NetworkConfig c(side, tb);
        auto net = std::make_unique<scl::Network>(thr ? scl::Network::CreateThreadedSenders(c) : scl::Network::Create(c));
        std::vector<unsigned char> b(len[q][2 * r + side]), g(len[q][2 * r + 1 - side]);
        for (size_t k = 0; k < b.size(); ++k) b[k] = byte_of(salt, r, q, side, k);
        net->Party(1 - side)->Send(b.data(), b.size());
        net->Party(1 - side)->Recv(g.data(), g.size());
        for (size_t k = 0; k < g.size(); ++k) if (g[k] != byte_of(salt, r, q, 1 - side, k)) { sim::violation("foreign-bytes", "pair " + std::to_string(q) + " received bytes of another connection"); return; }
        teardown(net, tear[q][2 * r + side]);
      }
    });
    for (auto& t : th) t.join();
    if (!sim::violated()) account("after all its networks were closed", 1);
  });
  auto out = sim::run();
  (void)bad;
  if (sim::violated()) return;
  for (int i = 0; i < 2; ++i) {
    if (sim::stray_fd_ops(i)) { sim::violation("closed-descriptor-used", "process " + std::to_string(i)); return; }
    if (sim::info(i).status == sim::FAILED) { sim::violation("party-failed", "process " + std::to_string(i) + ": " + sim::info(i).why); return; }
  }
  if (out != sim::DONE) sim::violation("does-not-end-" + outcome_name(out), sim::blocked_report());
}
}  // namespace
SCENARIO(C25, rounds, 4) { rounds(false); }
SCENARIO(C25, faults, 3) { rounds(true); }
SCENARIO(C25, discovery, 1) { discovery(); }
SCENARIO(C25, churn, 3) { churn(); }
