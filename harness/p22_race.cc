// C22: everything a party runs on several threads, in a build whose memory accesses are watched.
// (This file is instrumented as well; only the build simrun-race detects races.)
#include "proto.h"
#include "scl/hash.h"
#include "scl/net/discovery/client.h"
#include "scl/net/discovery/server.h"
#include "scl/net/mem_channel.h"
#include "scl/net/threaded_sender.h"
#include <thread>
using namespace h;

#ifdef RACE_BUILD
namespace sim { extern bool race_preempt; extern uint64_t race_accesses; }
void p16_program(bool dn07, bool kills);
namespace {
void draw() { sim::race_preempt = sim::chance(K, 2, 3); }
void end() { sim::probe("memory_accesses_watched", sim::race_accesses); }

void execution(bool dn07, int how) {
  draw();
  GenOpt o;
  o.dn07 = dn07;
  o.max_n = 7;
  o.max_layers = 3;
  o.max_width = 5;
  o.max_inputs = 4;
  o.max_outputs = 3;
  auto* e = new Exec;
  e->dn07 = dn07;
  e->spec = gen_spec(o);
  sim::describe(std::string(dn07 ? "dn07 " : "turbopack ") + (how ? "tcp " : "in-memory ") + e->spec.str());
  if (how == 0) {
    sim::cfg.spurious = sim::chance(K, 1, 3) ? 60 : 0;
    run_mem(*e);
  } else {
    sim::draw_network(true, fd_floor(e->spec, dn07));
    plan_stalls(e->spec.n, 6 + e->spec.depth());
    run_tcp(*e, how == 2);
  }
  end();
}

struct Ends { std::shared_ptr<scl::Channel> c[2]; };
// One sending and one receiving thread on each end of a channel.
void both_ways(scl::Channel* c, u64 salt, size_t n_out, size_t n_in) {
  std::thread tx([=] {
    for (size_t i = 0; i < n_out; ++i) {
      switch ((salt + i) % 4) {
        case 0: { u64 x = salt + i; c->Send(x); break; }
        case 1: { std::vector<u64> v(1 + i % 7, salt + i); c->Send(v); break; }
        case 2: { scl::Vec<tp::FF> v(3); for (auto& x : v) x = tp::FF((int)i); c->Send(v); break; }
        default: { tp::FF x((int)i); c->Send(x); }
      }
    }
  });
  for (size_t i = 0; i < n_in; ++i) {
    switch ((salt + i) % 4) {
      case 0: { u64 x; c->Recv(x); break; }
      case 1: { std::vector<u64> v(1 + i % 7); c->Recv(v); break; }
      case 2: { scl::Vec<tp::FF> v; c->Recv(v); break; }
      default: { tp::FF x; c->Recv(x); }
    }
  }
  tx.join();
}
}  // namespace
SCENARIO(C22, turbopack_tcp, 3) { execution(false, 2); }
SCENARIO(C22, dn07_tcp, 2) { execution(true, 2); }
SCENARIO(C22, turbopack_memory, 2) { execution(false, 0); }
SCENARIO(C22, dn07_memory, 2) { execution(true, 0); }
SCENARIO(C22, program_turbopack, 1) { draw(); p16_program(false, false); end(); }
SCENARIO(C22, program_dn07, 1) { draw(); p16_program(true, false); end(); }
SCENARIO(C22, kills, 1) { draw(); p16_program(sim::chance(W, 1, 2), true); end(); }

// Set-up (connecting and accepting threads), traffic on every channel from two threads, closing in every way.
SCENARIO(C22, setup_and_close, 5) {
  draw();
  int n = 2 + (int)sim::choose(W, 3);
  bool threaded = sim::chance(W, 2, 3);
  size_t msgs = sim::choose(W, 12);
  int how = (int)sim::choose(W, 4);
  u64 salt = sim::choose(W, 1000);
  sim::draw_network(true, 64);
  plan_stalls(n, 3);
  if (sim::chance(F, 1, 4)) sim::plan_fault(sim::chance(F, 1, 2) ? sim::CRASH : sim::RESET, (int)sim::choose(F, n), 2, sim::logu(F, 40), (int)sim::choose(F, n), 0);
  Mesh m = make_mesh(n, false);
  m.threaded = threaded;
  sim::describe("n=" + std::to_string(n) + (threaded ? " threaded senders" : "") + ", " + std::to_string(msgs) + " messages per channel, close " + std::to_string(how));
  for (int i = 0; i < n; ++i) sim::spawn("party", m.hosts[i], [=] {
    sim::set_phase("connect");
    auto net = connect(m, i);
    sim::barrier("connected", n);
    sim::set_phase("traffic");
    std::vector<std::thread> th;
    for (int p = 0; p < n; ++p) th.emplace_back([=] { try { both_ways(net->Party(p), salt, msgs, msgs); } catch (const std::exception&) {} });
    for (auto& t : th) t.join();
    sim::set_phase("close");
    if (how == 0 || how == 2) net->Close();
    if (how == 1) for (int p = 0; p < n; ++p) net->Party(p)->Close();
    if (how == 2) net->Close();
  }, start_delay());
  sim::run();
  end();
}
// A background-sending channel closed or destroyed while it still has data, with every kind of peer.
SCENARIO(C22, close_while_sending, 4) {
  draw();
  sim::draw_network(true, 16);
  int how = (int)sim::choose(W, 3), peer = (int)sim::choose(W, 3);
  size_t msgs = 1 + sim::choose(W, 30), sz = 1 + sim::choose(W, 60);
  Mesh m = make_mesh(2, false);
  m.threaded = true;
  sim::describe(std::to_string(msgs) + " messages of " + std::to_string(sz) + " bytes queued, close " + std::to_string(how) + ", peer " + std::to_string(peer));
  for (int i = 0; i < 2; ++i) sim::spawn("party", m.hosts[i], [=] {
    sim::set_phase("connect");
    auto net = connect(m, i);
    sim::barrier("connected", 2);
    auto* c = net->Party(1 - i);
    std::vector<unsigned char> b(sz, 7);
    if (i == 0) {
      for (size_t k = 0; k < msgs; ++k) c->Send(b.data(), sz);
      if (how == 0) net->Close();
      if (how == 1) c->Close();
    } else {
      size_t want = peer == 0 ? msgs : peer == 1 ? msgs / 2 : 0;
      for (size_t k = 0; k < want; ++k) c->Recv(b.data(), sz);
    }
  }, start_delay());
  sim::run();
  end();
}
// The two ends of an in-memory channel, and the channel to oneself, each used by two threads.
SCENARIO(C22, memory_channels, 3) {
  draw();
  sim::cfg.spurious = sim::chance(K, 1, 2) ? 60 : 0;
  size_t msgs = 1 + sim::choose(W, 25);
  u64 salt = sim::choose(W, 1000);
  bool self = sim::chance(W, 1, 3);
  sim::describe(std::string(self ? "loopback" : "paired") + " in-memory channel, " + std::to_string(msgs) + " messages");
  sim::spawn("process", sim::add_host("10.0.0.1"), [=] {
    if (self) { auto c = scl::InMemoryChannel::CreateSelfConnecting(); both_ways(c.get(), salt, msgs, msgs); }
    else {
      auto p = scl::InMemoryChannel::CreatePaired();
      std::thread t([&] { both_ways(p[1].get(), salt, msgs, msgs); });
      both_ways(p[0].get(), salt, msgs, msgs);
      t.join();
      p[0]->Close();
      p[1]->Close();
    }
  });
  sim::run();
  end();
}
// Objects that are not shared: generators, hashes, sharings, circuits, configurations, one per thread.
SCENARIO(C22, independent_objects, 2) {
  draw();
  int k = 2 + (int)sim::choose(W, 3);
  u64 salt = sim::choose(W, 1000);
  sim::describe(std::to_string(k) + " threads with objects of their own");
  sim::spawn("process", sim::add_host("10.0.0.1"), [=] {
    std::vector<std::thread> th;
    for (int i = 0; i < k; ++i) th.emplace_back([=] {
      unsigned char seed[16] = {(unsigned char)i, (unsigned char)salt};
      scl::PRG g(seed);
      for (int r = 0; r < 4; ++r) { auto v = g.Next(1 + (salt * 7 + r * 13) % 90); scl::Hash256 hs; hs.Update(v); hs.Finalize(); }
      auto sh = scl::details::SharesFromEvPoly(scl::details::EvPolyFromSecretAndDegree(tp::FF((int)salt), 2, g), 5);
      (void)scl::details::SecretFromShares(sh);
      tp::CircuitConfig c;
      c.n_parties = 5; c.inp_gates = {2, 0, 0, 0, 0}; c.out_gates = {2, 0, 0, 0, 0}; c.width = 4; c.depth = 2; c.batch_size = 2;
      auto circuit = tp::Circuit::FromConfig(c);
      circuit.SetClearInputsFlat({tp::FF(3), tp::FF((int)salt)});
      (void)circuit.GetClearOutputsFlat();
      auto cfg = scl::NetworkConfig::Localhost(0, 3);
      (void)cfg.ToString();
    });
    for (auto& t : th) t.join();
  });
  sim::run();
  end();
}
#endif
