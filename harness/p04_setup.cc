// C04: network set-up under any start order, refused connection attempts and timing.
#include "proto.h"
#include "scl/net/tcp_utils.h"
#include <thread>
using namespace h;

namespace {
// The bytes party `from` sends to party `to`.
unsigned char byte_of(u64 salt, int from, int to, size_t pos) {
  u64 x = salt ^ ((u64)from << 40) ^ ((u64)to << 20) ^ (pos + 1);
  x ^= x >> 33; x *= 0xff51afd7ed558ccdULL; x ^= x >> 33; x *= 0xc4ceb9fe1a85ec53ULL; x ^= x >> 33;
  return (unsigned char)x;
}
struct Plan {
  int n;
  u64 salt;
  std::vector<std::vector<size_t>> len;             // len[i][j]: bytes i -> j
  std::vector<std::vector<int>> recv_order;
  std::vector<std::vector<int>> send_order;
  std::vector<std::vector<scl::Party>> table;       // order of the lines in each party's table
  std::vector<int> threaded;
  int received = 0;
};
scl::Network make(const scl::NetworkConfig& c, bool threaded) { return threaded ? scl::Network::CreateThreadedSenders(c) : scl::Network::Create(c); }
template <typename V> void shuffle(V& v) { for (size_t i = v.size(); i > 1; --i) std::swap(v[i - 1], v[sim::choose(W, i)]); }

void setup(bool localhost_helper) {
  auto* p = new Plan;
  int huge = sim::chance(W, 1, 1500) ? 2 : sim::chance(W, 1, 60) ? 1 : 0;
  int n = p->n = huge == 2 ? (sim::chance(W, 1, 4) ? 257 : 129) + (int)sim::choose(W, 12) : huge ? 17 + (int)sim::choose(W, 48) : localhost_helper ? 1 + (int)sim::choose(W, 9) : 1 + (int)sim::weighted(W, {1, 4, 6, 5, 4, 3, 2, 2, 1, 1, 1, 1, 1, 1, 1, 1});
  p->salt = sim::choose(W, 1ull << 60);
  sim::draw_network(false, 0);
  sim::cfg.latency_mode = (int)sim::weighted(K, {4, 2, 3, 3});
  Mesh m = make_mesh(n, false);
  if (localhost_helper) { m = Mesh(); m.n = n; int hst = sim::add_host("127.0.0.1"); m.hosts.assign(n, hst); m.base_port = sim::chance(K, 1, 2) ? 9900 : 3000; }
  if (huge) { sim::cfg.max_time_ns = ~0ull / 4; sim::cfg.max_steps = 100000000; }
  int thr = huge == 2 ? 0 : (int)sim::weighted(K, {4, 3, 2});       // nobody, everybody, some
  for (int i = 0; i < n; ++i) {
    p->threaded.push_back(thr == 0 ? 0 : thr == 1 ? 1 : (int)sim::choose(K, 2));
    std::vector<size_t> l;
    for (int j = 0; j < n; ++j) l.push_back(sim::chance(W, 1, 6) ? 0 : 1 + (size_t)sim::logu(W, huge ? 20 : 3000));
    p->len.push_back(l);
    std::vector<int> o(n), q(n);
    for (int j = 0; j < n; ++j) o[j] = q[j] = j;
    shuffle(o); shuffle(q);
    p->recv_order.push_back(o);
    p->send_order.push_back(q);
    std::vector<scl::Party> tb;
    if (!localhost_helper) {
      for (int j = 0; j < n; ++j) tb.push_back(scl::Party{(unsigned)j, m.ips[j], m.base_port + (m.localhost ? j : 0)});
      if (sim::chance(W, 1, 3)) shuffle(tb);
    }
    p->table.push_back(tb);
  }
  sim::describe("n=" + std::to_string(n) + (thr ? thr == 1 ? " threaded" : " mixed" : " plain") + (m.localhost ? " one host" : " n hosts"));
  // links and parties may be held up during set-up too
  for (int i = 0, c = (int)sim::weighted(F, {4, 2, 1}); i < c; ++i) {
    int a = (int)sim::choose(F, n), b = (int)sim::choose(F, n);
    u64 off = sim::logu(F, 40), dur = stall_time();
    if (sim::chance(F, 1, 2) && a != b) sim::plan_fault(sim::LINK_STALL, a, 1, off, b, dur); else sim::plan_fault(sim::STALL, a, 1, off, 0, dur);
  }
  for (int i = 0; i < n; ++i) {
    sim::spawn("party", m.hosts[i], [p, i, n, m, localhost_helper] {
      sim::set_phase("connect");
      scl::NetworkConfig c = localhost_helper ? (m.base_port == 9900 ? scl::NetworkConfig::Localhost(i, n) : scl::NetworkConfig::Localhost(i, n, m.base_port)) : scl::NetworkConfig(i, p->table[i]);
      scl::Network net = make(c, p->threaded[i]);
      sim::set_phase("exchange");
      if ((int)net.Size() != n) sim::violation("wrong-network-size", std::to_string(net.Size()) + " instead of " + std::to_string(n));
      for (int j = 0; j < n; ++j) if (!net.Party(j)) { sim::violation("missing-link", "party " + std::to_string(i) + " has no channel to party " + std::to_string(j)); return; }
      auto bytes = [&](int from, int to) { std::vector<unsigned char> b(p->len[from][to]); for (size_t k = 0; k < b.size(); ++k) b[k] = byte_of(p->salt, from, to, k); return b; };
      for (int j : p->send_order[i]) {
        auto b = bytes(i, j);
        size_t cut = b.size() / 2;
        net.Party(j)->Send(b.data(), cut);
        net.Party(j)->Send(b.data() + cut, b.size() - cut);
      }
      for (int j : p->recv_order[i]) {
        auto want = bytes(j, i);
        std::vector<unsigned char> got(want.size(), 0xEE);
        net.Party(j)->Recv(got.data(), got.size());
        if (got != want) {
          int who = -1;
          for (int a = 0; a < n && who < 0; ++a) for (int b = 0; b < n; ++b) if (!got.empty() && p->len[a][b] && byte_of(p->salt, a, b, 0) == got[0] && got.size() > 1 && p->len[a][b] > 1 && byte_of(p->salt, a, b, 1) == got[1]) { who = a * 100 + b; break; }
          sim::violation("crossed-link", "party " + std::to_string(i) + " received other bytes from party " + std::to_string(j) + " than that party sent to it" + (who >= 0 ? " (they are those of " + std::to_string(who / 100) + "->" + std::to_string(who % 100) + ")" : ""));
          return;
        }
        ++p->received;
      }
      sim::barrier("exchanged", n);          // nobody closes while others still read
      sim::set_phase("close");
      net.Close();
    }, late_start());
  }
  auto out = sim::run();
  if (sim::violated()) return;
  for (int i = 0; i < n; ++i) if (sim::info(i).status == sim::FAILED) { sim::violation("setup-failed", "party " + std::to_string(i) + " in phase " + sim::info(i).phase + ": " + sim::info(i).why); return; }
  if (out != sim::DONE) { sim::violation("setup-hangs-" + outcome_name(out), sim::blocked_report()); return; }
  sim::probe("links_checked", p->received);
}
}  // namespace
SCENARIO(C04, mesh, 4) { setup(false); }
SCENARIO(C04, localhost, 1) { setup(true); }

// However long the last party keeps the others waiting, set-up ends soon after it started.
SCENARIO(C04, prompt, 1) {
  int n = 2 + (int)sim::choose(W, 5);
  bool threaded = sim::chance(W, 1, 3);
  sim::draw_network(false, 0);
  if (sim::cfg.latency_mode == 0) sim::cfg.latency_mode = 1;
  if (sim::cfg.refuse > 40) sim::cfg.refuse = 40;
  Mesh m = make_mesh(n, false);
  m.threaded = threaded;
  struct Times { u64 started = 0, ready = 0; };
  auto* t = new Times;
  int late = (int)sim::choose(W, n);
  u64 delay = 1000000000ull * (1 + sim::logu(K, 8000));
  sim::describe("n=" + std::to_string(n) + (threaded ? " threaded" : "") + " party " + std::to_string(late) + " starts after " + std::to_string(delay / 1000000000) + " s");
  for (int i = 0; i < n; ++i)
    sim::spawn("party", m.hosts[i], [=] {
      sim::set_phase("connect");
      t->started = std::max(t->started, sim::now());
      auto net = connect(m, i);
      t->ready = std::max(t->ready, sim::now());
      sim::set_phase("connected");
      sim::barrier("connected", n);
      net->Close();
    }, i == late ? delay : start_delay());
  auto out = sim::run();
  if (sim::violated()) return;
  for (int i = 0; i < n; ++i) if (sim::info(i).status == sim::FAILED) { sim::violation("setup-failed", "party " + std::to_string(i) + " in phase " + sim::info(i).phase + ": " + sim::info(i).why); return; }
  if (out != sim::DONE) { sim::violation("setup-hangs-" + outcome_name(out), sim::blocked_report()); return; }
  u64 took = (t->ready - t->started) / 1000000000;
  sim::probe("late_starts");
  if (took > 240 + 20 * (u64)n) sim::violation("setup-late", "the last party started " + std::to_string(t->started / 1000000000) + " s after the first, and set-up took " + std::to_string(took) + " s more");
}

// Set-up again, right after an earlier set-up on the same ports was closed.
SCENARIO(C04, again, 1) {
  int n = 2 + (int)sim::choose(W, 5), rounds = 2 + (int)sim::choose(W, 3);
  sim::draw_network(false, 0);
  Mesh m = make_mesh(n, true);
  u64 salt = sim::choose(W, 1ull << 60);
  auto* pause = new std::vector<u64>;
  for (int i = 0; i < n * rounds; ++i) pause->push_back(sim::chance(K, 1, 2) ? sim::choose(K, 3) : stall_time());
  sim::describe("n=" + std::to_string(n) + " rounds=" + std::to_string(rounds) + (m.threaded ? " threaded" : ""));
  for (int i = 0; i < n; ++i)
    sim::spawn("party", m.hosts[i], [=] {
      for (int r = 0; r < rounds; ++r) {
        sim::set_phase("connect");
        auto net = connect(m, i);
        sim::set_phase("exchange");
        for (int j = 0; j < n; ++j) { unsigned char b[24]; for (int k = 0; k < 24; ++k) b[k] = byte_of(salt + r, i, j, k); net->Party(j)->Send(b, 24); }
        for (int j = 0; j < n; ++j) {
          unsigned char b[24];
          net->Party(j)->Recv(b, 24);
          for (int k = 0; k < 24; ++k) if (b[k] != byte_of(salt + r, j, i, k)) { sim::violation("crossed-link", "set-up " + std::to_string(r + 1) + ": party " + std::to_string(i) + " received other bytes from party " + std::to_string(j) + " than that party sent to it"); return; }
          sim::probe("links_checked");
        }
        sim::barrier(("exchanged " + std::to_string(r)).c_str(), n);
        sim::set_phase("close");
        net->Close();
        net.reset();
        if (r + 1 < rounds) sim::sleep_ns((*pause)[r * n + i]);
      }
    }, start_delay());
  auto out = sim::run();
  if (sim::violated()) return;
  for (int i = 0; i < n; ++i) if (sim::info(i).status == sim::FAILED) { sim::violation("setup-failed", "party " + std::to_string(i) + " in phase " + sim::info(i).phase + ": " + sim::info(i).why); return; }
  if (out != sim::DONE) { sim::violation("setup-hangs-" + outcome_name(out), sim::blocked_report()); return; }
  sim::probe("setups_repeated");
}

// One party announces another index than its own: whoever it connects to may not end set-up.
SCENARIO(C04, misannounced, 1) {
  int n = 2 + (int)sim::choose(W, 6);
  bool threaded = sim::chance(W, 1, 3);
  sim::draw_network(false, 0);
  if (sim::cfg.refuse > 40) sim::cfg.refuse = 40;
  sim::cfg.max_time_ns = 900000000000ull;
  sim::cfg.guard_alloc = sim::chance(K, 1, 4);
  Mesh m = make_mesh(n, false);
  m.threaded = threaded;
  int bad = 1 + (int)sim::choose(W, n - 1);
  auto* claim = new std::vector<unsigned>;
  static const unsigned far[] = {0x7FFFFFFFu, 0x80000000u, 0xFFFFFFFFu, 0x10000u, 256u};
  for (int i = 0; i < bad; ++i) {
    unsigned c;
    do c = sim::weighted(W, {3, 1, 4}) == 0 ? n + (unsigned)sim::choose(W, 3) : sim::chance(W, 1, 4) ? far[sim::choose(W, 5)] : (unsigned)sim::choose(W, n); while ((int)c == bad);
    claim->push_back(c);
  }
  auto* ended = new std::vector<char>(n, 0);
  std::string what;
  for (int i = 0; i < bad; ++i) what += " " + std::to_string((*claim)[i]);
  sim::describe("n=" + std::to_string(n) + (threaded ? " threaded" : "") + " party " + std::to_string(bad) + " announces itself to the parties before it as" + what);
  for (int i = 0; i < n; ++i)
    sim::spawn("party", m.hosts[i], [=] {
      sim::set_phase("connect");
      if (i != bad) {
        auto net = connect(m, i);
        (*ended)[i] = 1;
        for (int j = 0; j < n; ++j) if (!net->Party(j)) { sim::violation("missing-link", "party " + std::to_string(i) + " has no channel to party " + std::to_string(j)); return; }
        return;
      }
      std::vector<int> socks;
      std::vector<std::shared_ptr<scl::Channel>> ch;
      auto announce = [&] { for (int j = 0; j < bad; ++j) { socks.push_back(scl::details::ConnectAsClient(m.ips[j], m.base_port + (m.localhost ? j : 0))); ch.push_back(std::make_shared<scl::TcpChannel>(socks.back())); ch.back()->Send((*claim)[j]); } };
      if (bad == n - 1) { announce(); sim::sleep_ns(600000000000ull); return; }
      int ss = scl::details::CreateServerSocket(m.base_port + (m.localhost ? bad : 0), n - bad - 1);
      announce();
      for (int j = bad + 1; j < n; ++j) scl::details::AcceptConnection(ss);
      sim::sleep_ns(600000000000ull);
    }, start_delay());
  sim::run();
  if (sim::violated()) return;
  for (int i = 0; i < bad; ++i) {
    if ((*ended)[i]) { sim::violation("wrong-announcement-accepted", "set-up ended at party " + std::to_string(i) + " although the only other party that could connect to it as party " + std::to_string(bad) + " announced itself as " + std::to_string((*claim)[i])); return; }
    auto& pi = sim::info(i);
    sim::probe(pi.status == sim::FAILED ? "wrong_announcements_refused" : "setups_left_waiting");
  }
}

// In-memory and mock networks give the same wiring.
SCENARIO(C04, in_memory, 1) {
  int n = 1 + (int)sim::choose(W, 8);
  u64 salt = sim::choose(W, 1ull << 60);
  int mock = (int)sim::choose(W, 2);
  sim::describe("n=" + std::to_string(n) + (mock ? " mock" : " in-memory"));
  int host = sim::add_host("10.0.0.1");
  int me = (int)sim::choose(W, n);
  sim::spawn("process", host, [=] {
    auto send = [=](scl::Channel* c, int from, int to) { unsigned char b[40]; for (int k = 0; k < 40; ++k) b[k] = byte_of(salt, from, to, k); c->Send(b, 40); };
    auto recv = [=](scl::Channel* c, int from, int to) {
      unsigned char b[40];
      c->Recv(b, 40);
      for (int k = 0; k < 40; ++k) if (b[k] != byte_of(salt, from, to, k)) { sim::violation("crossed-link", "in-memory: party " + std::to_string(to) + " received other bytes from party " + std::to_string(from)); return; }
      sim::probe("links_checked");
    };
    std::vector<std::thread> th;
    if (mock) {
      auto mk = scl::Network::CreateMock(me, n);
      scl::Network& net = mk.first;
      auto& remote = mk.second;
      for (int j = 0; j < n; ++j) if (j != me) th.emplace_back([&, j] { send(remote[j].get(), j, me); recv(remote[j].get(), me, j); });
      for (int j = 0; j < n; ++j) send(net.Party(j), me, j);
      for (int j = n; j-- > 0;) recv(net.Party(j), j, me);
      for (auto& t : th) t.join();
    } else {
      auto nets = scl::Network::CreateFullInMemory(n);
      for (int i = 0; i < n; ++i) th.emplace_back([&, i] {
        for (int j = 0; j < n; ++j) send(nets[i].Party(j), i, j);
        for (int j = n; j-- > 0;) recv(nets[i].Party(j), j, i);
      });
      for (auto& t : th) t.join();
    }
  });
  auto out = sim::run();
  if (sim::violated()) return;
  if (sim::info(0).status == sim::FAILED) sim::violation("setup-failed", sim::info(0).why);
  else if (out != sim::DONE) sim::violation("setup-hangs-" + outcome_name(out), sim::blocked_report());
}
