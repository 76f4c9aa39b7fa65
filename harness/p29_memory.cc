// C29: memory follows what is in use, however long a process runs.
#include <thread>
#include "proto.h"
#include "scl/net/discovery/client.h"
#include "scl/net/discovery/server.h"
#include "scl/net/mem_channel.h"
#include "scl/net/tcp_channel.h"
#include "scl/net/threaded_sender.h"
using namespace h;

namespace {
std::string bytes(u64 b) { return std::to_string(b) + " bytes"; }

// ---- what passed through a channel ---------------------------------------------------------------
struct Traffic {
  int n, rounds, lag;                              // receivers stay `lag` rounds behind
  std::vector<std::vector<std::vector<size_t>>> msg;   // [from][to]: sizes sent each round
  std::vector<std::vector<size_t>> piece;          // [from][to]: how much is received at once
  size_t volume = 0, messages = 0;                 // per round, all links
  std::vector<unsigned char*> buf;                 // per party, outside the counted heap
};
Traffic* draw_traffic() {
  auto* t = new Traffic;
  t->n = 1 + (int)sim::weighted(W, {1, 5, 2});
  t->rounds = 150 + (int)sim::choose(W, 150);
  t->lag = sim::chance(W, 1, 3) ? 1 + (int)sim::choose(W, 2) : 0;
  int shape = (int)sim::choose(W, 4);
  size_t most = 0;
  for (int i = 0; i < t->n; ++i) {
    t->msg.emplace_back();
    t->piece.emplace_back();
    for (int j = 0; j < t->n; ++j) {
      std::vector<size_t> m;
      size_t sum = 0;
      int c = shape == 0 ? 1 : shape == 1 ? 6 + (int)sim::choose(W, 10) : (int)sim::choose(W, 5);
      for (int k = 0; k < c; ++k) { m.push_back(1 + sim::logu(W, shape == 1 ? 30 : 2000)); sum += m.back(); }
      t->volume += sum;
      t->messages += m.size();
      most = std::max(most, sum);
      t->msg[i].push_back(m);
      t->piece[i].push_back(sim::chance(W, 1, 2) ? sum : 1 + sim::logu(W, sum));
    }
  }
  for (int i = 0; i < t->n; ++i) t->buf.push_back(new unsigned char[std::max<size_t>(most, 1)]());
  sim::describe("n=" + std::to_string(t->n) + ", " + std::to_string(t->rounds) + " rounds of " + std::to_string(t->messages) + " messages, " + bytes(t->volume) + (t->lag ? ", receivers " + std::to_string(t->lag) + " round(s) behind" : ""));
  return t;
}
void one_receive(Traffic* t, scl::Network& net, int i) {
  for (int j = 0; j < t->n; ++j) {
    size_t sum = 0;
    for (size_t s : t->msg[j][i]) sum += s;
    while (sum) {
      size_t c = std::min(sum, t->piece[j][i]);
      net.Party(j)->Recv(t->buf[i], c);
      sum -= c;
    }
  }
}
void exchange(Traffic* t, scl::Network& net, int i, const char* what) {
  u64 base = 0;
  for (int r = 0; r < t->rounds && !sim::violated(); ++r) {
    for (int j = 0; j < t->n; ++j) for (size_t s : t->msg[i][j]) net.Party(j)->Send(t->buf[i], s);
    if (r >= t->lag) one_receive(t, net, i);
    if (r % 10 == 9 || r == t->lag) {
      std::string key = "round-" + std::to_string(r);
      sim::barrier(key, t->n);
      if (i == 0) {
        u64 live = sim::heap_live().bytes;
        if (r == t->lag) base = live;
        u64 allowed = base + (u64)t->n * t->n * 4096 + (8 + 4 * t->lag) * (t->volume + 64 * t->messages);
        if (live > allowed) sim::violation("memory-for-what-was-received", std::string(what) + ": after " + std::to_string(r + 1) + " rounds of " + bytes(t->volume) + " in " + std::to_string(t->messages) + " messages, received up to " + std::to_string(t->lag) + " round(s), " + bytes(live) + " are held (" + bytes(base) + " at first): " + sim::heap_report());
        sim::probe("levels_checked");
      }
      sim::barrier(key + "b", t->n);
    }
  }
  for (int l = 0; l < t->lag && !sim::violated(); ++l) one_receive(t, net, i);
}
void expect_done(sim::Outcome out, int parties) {
  if (sim::violated()) return;
  for (int i = 0; i < parties; ++i) if (sim::info(i).status == sim::FAILED) { sim::violation("party-failed", "party " + std::to_string(i) + ": " + sim::info(i).why); return; }
  if (out != sim::DONE) sim::violation("does-not-end-" + outcome_name(out), sim::blocked_report());
}

// ---- repeated cycles --------------------------------------------------------------------------------
struct Levels {
  std::vector<sim::Heap> at;
  // called when everything made in a cycle is destroyed
  void check(const char* what, int cycles) {
    at.push_back(sim::heap_live());
    int c = (int)at.size();
    sim::probe("cycles_checked");
    if (c < cycles) return;
    int rise = 0;
    for (int i = c - 1; i > 0 && at[i].bytes > at[i - 1].bytes; --i) ++rise;
    if (rise < 6) return;
    std::string s;
    for (auto& h : at) s += (s.empty() ? "" : ", ") + std::to_string(h.bytes);
    sim::violation("memory-not-given-back", std::string(what) + ": everything made in a cycle was destroyed, but the memory in use keeps growing: " + s + " bytes after each; in use: " + sim::heap_report());
  }
};
enum { kCycles = 9 };
std::unique_ptr<Levels> g_levels;

void close_down(scl::Network& net, int how) {
  if (how == 1) net.Close();
  if (how == 2) for (unsigned j = 0; j < net.Size(); ++j) net.Party(j)->Close();
}
void talk(scl::Network& net, int i, int n, size_t len, int cut) {
  // cut: the party that closes early; the others then see an error
  std::vector<unsigned char> b(len + 1);
  try {
    for (int j = 0; j < n; ++j) net.Party(j)->Send(b.data(), len);
    if (cut == i) { for (int j = 0; j < n; ++j) net.Party(j)->Recv(b.data(), len); return; }
    for (int j = 0; j < n; ++j) net.Party(j)->Recv(b.data(), len + (cut == j));
  } catch (const std::exception&) { sim::probe("errors_in_cycles"); }
}
void network_cycles() {
  int n = 1 + (int)sim::weighted(W, {1, 5, 3, 1});
  sim::draw_network(true, 4096);
  bool thr = sim::chance(K, 1, 2), objects = sim::chance(W, 1, 2);
  int cut = n > 1 && sim::chance(W, 1, 2) ? (int)sim::choose(W, n) : -1;
  size_t len = 1 + sim::logu(W, 2000);
  std::vector<int> how;
  for (int i = 0; i < n; ++i) how.push_back(thr && cut >= 0 ? 1 : (int)sim::choose(W, 3));
  Mesh m = make_mesh(n, false);
  m.threaded = thr;
  sim::describe(std::string("set-up and teardown over and over, n=") + std::to_string(n) + (thr ? ", background sending" : "") + (cut >= 0 ? ", party " + std::to_string(cut) + " closes early" : "") + (objects ? ", vectors" : ""));
  for (int i = 0; i < n; ++i) sim::spawn("party", m.hosts[i], [=] {
    for (int c = 0; c < kCycles && !sim::violated(); ++c) {
      std::string key = std::to_string(c);
      sim::set_phase("cycle-" + key);
      {
        auto net = connect(m, i);
        sim::barrier("connected-" + key, n);
        if (objects && cut < 0) {
          for (int j = 0; j < n; ++j) { std::vector<tp::FF> v(1 + len % 50, tp::FF(7)); net->Party(j)->Send(scl::Vec<tp::FF>(v)); net->Party(j)->Send((int)c); }
          for (int j = 0; j < n; ++j) { scl::Vec<tp::FF> v; int x; net->Party(j)->Recv(v); net->Party(j)->Recv(x); }
          sim::barrier("talked-" + key, n);
        } else {
          talk(*net, i, n, len, cut);
          if (cut < 0) sim::barrier("talked-" + key, n);
        }
        close_down(*net, how[i]);
      }
      sim::barrier("closed-" + key, n);
      if (i == 0) g_levels->check("networks", kCycles);
      sim::barrier("checked-" + key, n);
    }
  }, start_delay());
  expect_done(sim::run(), n);
}
void discovery_cycles() {
  int n = 2 + (int)sim::choose(W, 4);
  sim::draw_network(false, 0);
  sim::describe("discovery over and over, n=" + std::to_string(n));
  std::vector<int> hosts;
  for (int i = 0; i < n; ++i) hosts.push_back(sim::add_host("10.1.0." + std::to_string(i + 1)));
  bool bad = n > 2 && sim::chance(W, 1, 3);              // two announcements of the same id: an error at the service
  for (int i = 0; i < n; ++i) sim::spawn("party", hosts[i], [=] {
    for (int c = 0; c < kCycles && !sim::violated(); ++c) {
      sim::set_phase("cycle-" + std::to_string(c));
      try {
        if (i == 0) { scl::DiscoveryServer srv(5000, n); srv.Run(scl::Party{0, "10.1.0.1", 7000}); }
        else { scl::DiscoveryClient cl("10.1.0.1", 5000); cl.Run(bad ? 1 : i, 7000 + i); }
      } catch (const std::exception&) { sim::probe("errors_in_cycles"); }
      sim::barrier("done-" + std::to_string(c), n);
      if (i == 0) g_levels->check("discovery", kCycles);
      sim::barrier("checked-" + std::to_string(c), n);
    }
  });
  auto out = sim::run();
  // a client whose service ended with an error may be left trying to connect to it; that is C09's matter
  if (!bad) expect_done(out, n);
}
void pair_cycles() {
  int kind = (int)sim::choose(W, 3);
  size_t sent = sim::logu(W, 3000), got = sim::chance(W, 1, 2) ? sent : sim::choose(W, sent + 1);
  sim::describe("in-memory channels made, used (" + std::to_string(got) + " of " + bytes(sent) + " received) and dropped");
  sim::spawn("process", sim::add_host("10.0.0.1"), [=] {
    std::vector<unsigned char> b(3001);
    for (int c = 0; c < kCycles && !sim::violated(); ++c) {
      if (kind == 0) {
        auto p = scl::InMemoryChannel::CreatePaired();
        for (size_t o = 0; o < sent; o += 500) p[0]->Send(b.data() + o, std::min<size_t>(500, sent - o));
        p[1]->Recv(b.data(), got);
        if (c % 2) p[1]->Flush();
      } else if (kind == 1) {
        auto s = scl::InMemoryChannel::CreateSelfConnecting();
        s->Send(b.data(), sent);
        s->Recv(b.data(), got);
      } else {
        auto nets = scl::Network::CreateFullInMemory(3);
        std::vector<std::thread> th;
        for (int i = 0; i < 3; ++i) th.emplace_back([&, i] { for (int j = 0; j < 3; ++j) nets[i].Party(j)->Send(b.data(), sent); });
        for (auto& t : th) t.join();
        for (int j = 0; j < 3; ++j) nets[1].Party(j)->Recv(b.data(), got);
      }
      g_levels->check("in-memory channels", kCycles);
    }
  });
  expect_done(sim::run(), 1);
}
// Whole executions, everything made anew and dropped each time.
void executions(bool over_tcp) {
  auto* e = new Exec;
  GenOpt o;
  o.max_n = 7;
  o.max_layers = 2;
  o.max_width = 5;
  e->dn07 = o.dn07 = sim::chance(W, 1, 3);
  e->spec = gen_spec(o);
  e->phases = false;
  int n = e->spec.n;
  bool shared_net = sim::chance(W, 1, 4), close = sim::chance(W, 1, 2);   // one network for all executions
  sim::describe(std::string(shared_net ? "executions on one network" : "executions, each on its network") + (over_tcp ? ", tcp: " : ", in memory: ") + e->spec.str());
  e->st.assign(n, PartyState());
  auto one = [=](int i, std::shared_ptr<scl::Network> net) { run_party(*e, i, net); };
  auto level = [=](int c, int i) {
    e->st[i] = PartyState();
    sim::barrier("done-" + std::to_string(c), n);
    if (i == 0) g_levels->check(over_tcp ? "executions over TCP" : "executions in memory", kCycles);
    sim::barrier("checked-" + std::to_string(c), n);
  };
  if (over_tcp) {
    sim::draw_network(true, fd_floor(e->spec, e->dn07));
    Mesh m = make_mesh(n, true);
    for (int i = 0; i < n; ++i) sim::spawn("party", m.hosts[i], [=] {
      std::shared_ptr<scl::Network> net;
      for (int c = 0; c < kCycles && !sim::violated(); ++c) {
        if (!net) net = connect(m, i);
        one(i, net);
        if (!shared_net) {
          sim::barrier("ran-" + std::to_string(c), n);
          if (close) net->Close();
          net.reset();
          e->st[i] = PartyState();
          if (size_t k = sim::live_sockets(i)) sim::violation("network-kept", "party " + std::to_string(i) + " dropped the network and everything that used it, but " + std::to_string(k) + " descriptors are still open");
        }
        level(c, i);
      }
    }, start_delay());
  } else {
    sim::spawn("process", sim::add_host("10.0.0.1"), [=] {
      auto nets = scl::Network::CreateFullInMemory(n);
      for (int c = 0; c < kCycles && !sim::violated(); ++c) {
        if (!shared_net) nets = scl::Network::CreateFullInMemory(n);
        {
          std::vector<std::thread> th;
          for (int i = 0; i < n; ++i) th.emplace_back([=, &nets] { one(i, std::make_shared<scl::Network>(nets[i])); });
          for (auto& t : th) t.join();
        }
        if (!shared_net) nets.clear();
        for (int i = 0; i < n; ++i) e->st[i] = PartyState();
        g_levels->check("executions in memory", kCycles);
      }
    });
  }
  expect_done(sim::run(), over_tcp ? n : 1);
}
void start() { sim::cfg.count_heap = true; g_levels = std::make_unique<Levels>(); g_levels->at.reserve(kCycles + 1); }
}  // namespace

SCENARIO(C29, rounds_tcp, 3) {
  start();
  auto* t = draw_traffic();
  sim::draw_network(true, 4096 + (2 + t->lag) * t->volume);
  Mesh m = make_mesh(t->n, true);
  for (int i = 0; i < t->n; ++i) sim::spawn("party", m.hosts[i], [=] {
    sim::set_phase("connect");
    auto net = connect(m, i);
    sim::set_phase("rounds");
    exchange(t, *net, i, m.threaded ? "background sending" : "tcp");
    sim::barrier("end", t->n);
    net->Close();
  });
  expect_done(sim::run(), t->n);
}
SCENARIO(C29, rounds_in_memory, 3) {
  start();
  auto* t = draw_traffic();
  sim::spawn("process", sim::add_host("10.0.0.1"), [=] {
    auto nets = scl::Network::CreateFullInMemory(t->n);
    std::vector<std::thread> th;
    for (int i = 0; i < t->n; ++i) th.emplace_back([&, i] { exchange(t, nets[i], i, "in memory"); });
    for (auto& x : th) x.join();
  });
  expect_done(sim::run(), 1);
}
SCENARIO(C29, networks, 3) { start(); network_cycles(); }
SCENARIO(C29, discovery, 1) { start(); discovery_cycles(); }
SCENARIO(C29, in_memory_channels, 1) { start(); pair_cycles(); }
SCENARIO(C29, executions_tcp, 2) { start(); executions(true); }
SCENARIO(C29, executions_in_memory, 2) { start(); executions(false); }
