// C05, C06: byte streams over TCP channels, with and without background sending.
#include "proto.h"
#include <thread>
using namespace h;

namespace {
unsigned char pat(u64 salt, int dir, size_t pos) {
  u64 x = salt ^ ((u64)dir << 56) ^ pos;
  x ^= x >> 31; x *= 0x9E3779B97F4A7C15ull; x ^= x >> 29; x *= 0xBF58476D1CE4E5B9ull; x ^= x >> 32;
  return (unsigned char)x;
}
u64 piece(u64 max) {
  switch (sim::weighted(W, {4, 3, 2, 1, 1})) {
    case 0: return 1 + sim::logu(W, max);
    case 1: return 8;
    case 2: return 1;
    case 3: return 0;
    default: return max;
  }
}
std::vector<size_t> cut(u64 total, u64 max, bool allow_zero) {
  std::vector<size_t> v;
  u64 left = total;
  while (left) {
    u64 k = std::min<u64>(piece(max), left);
    if (k == 0 && !allow_zero) k = 1;
    v.push_back(k);
    left -= k;
    if (v.size() > 60) { if (left) v.push_back(left); break; }
  }
  return v;
}
struct Dir {                    // one direction of the connection
  u64 total = 0;
  std::vector<size_t> sends, recvs;
  u64 got = 0;                  // bytes received and verified
  bool send_done = false, recv_done = false, recv_error = false, send_error = false;
};
enum Mode { CLEAN, CLOSE, FAULTS };
struct Stream {
  u64 salt;
  Dir d[2];                     // d[i]: sent by party i
  Mode mode;
  int closer = 0;
  size_t extra = 0;             // asked for beyond what was written
  bool reversed_threads = false;
  int order[2] = {0, 0};
};
// One receive of k bytes; false: the channel reported an error.
bool take(Stream* s, Dir& d, int dir, scl::Channel* c, size_t k, int who) {
  std::vector<unsigned char> b(k + 16, 0xC3);
  try { c->Recv(b.data(), k); }
  catch (const std::exception&) { d.recv_error = true; if (s->mode == FAULTS) throw; return false; }      // with faults an error ends the party, as in the programs
  for (size_t i = k; i < k + 16; ++i) if (b[i] != 0xC3) { sim::violation("wrote-beyond-buffer", "receive of " + std::to_string(k) + " bytes wrote behind the buffer"); return false; }
  if (d.got + k > d.total) { sim::violation("bytes-from-nowhere", "party " + std::to_string(who) + ": a receive of " + std::to_string(k) + " bytes returned normally after " + std::to_string(d.got) + " of " + std::to_string(d.total) + " bytes that were ever written"); return false; }
  for (size_t i = 0; i < k; ++i) if (b[i] != pat(s->salt, dir, d.got + i)) {
    sim::violation("stream-corrupted", "party " + std::to_string(who) + ": byte " + std::to_string(d.got + i) + " of the stream differs (receive of " + std::to_string(k) + " bytes at offset " + std::to_string(d.got) + ")");
    return false;
  }
  d.got += k;
  return true;
}
void do_send(Stream* s, int me, scl::Channel* c) {
  Dir& d = s->d[me];
  size_t pos = 0;
  for (size_t k : d.sends) {
    std::vector<unsigned char> b(k);
    for (size_t i = 0; i < k; ++i) b[i] = pat(s->salt, me, pos + i);
    try { c->Send(b.data(), k); } catch (const std::exception&) { d.send_error = true; if (s->mode == FAULTS) throw; return; }
    std::fill(b.begin(), b.end(), 0x99);          // the caller may reuse its buffer at once
    pos += k;
  }
  d.send_done = true;
}
void do_recv(Stream* s, int me, scl::Channel* c) {
  Dir& d = s->d[1 - me];
  for (size_t k : d.recvs) if (!take(s, d, 1 - me, c, k, me)) return;
  d.recv_done = true;
}
Stream* gen_stream(Mode mode) {
  auto* s = new Stream;
  s->mode = mode;
  s->salt = sim::choose(W, 1ull << 60);
  u64 big = sim::chance(W, 1, 1000) ? 40000000 : sim::chance(W, 1, 12) ? 200000 : sim::chance(W, 1, 3) ? 20000 : 600;
  for (int i = 0; i < 2; ++i) {
    Dir& d = s->d[i];
    d.total = sim::chance(W, 1, 6) ? 0 : big > 200000 ? (i == 0 ? big / 2 + sim::choose(W, big / 2) : 1000) : sim::logu(W, big);
    d.sends = cut(d.total, big, true);
    d.recvs = cut(d.total, big, true);
  }
  s->closer = (int)sim::choose(W, 2);
  s->extra = 1 + sim::logu(W, 64);
  return s;
}
void small_caps(u64 total) {
  // connection buffers: down to a few bytes, but not so small that a long stream needs endless steps
  static const size_t caps[] = {1 << 22, 1, 8, 33, 256, 4096};
  size_t c = caps[sim::weighted(K, {4, 1, 2, 2, 2, 2})];
  while (c * 3000 < total) c *= 8;
  sim::cfg.cap = c;
}
std::string describe_stream(Stream* s) {
  return "stream 0->1 " + std::to_string(s->d[0].total) + " bytes in " + std::to_string(s->d[0].sends.size()) + "/" + std::to_string(s->d[0].recvs.size()) + " pieces, 1->0 " + std::to_string(s->d[1].total) + " bytes in " + std::to_string(s->d[1].sends.size()) + "/" + std::to_string(s->d[1].recvs.size()) + " pieces";
}
void plan_channel_faults() {
  static const int kinds[] = {sim::RESET, sim::FAIL_READ, sim::FAIL_WRITE, sim::CRASH, sim::FAIL_ALLOC};
  int m = 1 + (int)sim::weighted(F, {4, 1});
  for (int i = 0; i < m; ++i) {
    int kind = kinds[sim::weighted(F, {4, 3, 3, 3, 1})];
    sim::plan_fault(kind, (int)sim::choose(F, 2), 2, sim::logu(F, 120), 0, kind == sim::FAIL_ALLOC ? sim::logu(F, 30) : 0);
  }
}

// threaded: channels with background sending
void tcp_stream(Mode mode, bool threaded) {
  sim::draw_network(false, 0);
  Stream* s = gen_stream(mode);
  small_caps(s->d[0].total + s->d[1].total);
  sim::describe((mode == CLEAN ? "clean " : mode == CLOSE ? "close " : "faults ") + describe_stream(s));
  unsigned eintr = 0;
  if (mode == FAULTS) {
    if (sim::chance(K, 1, 4)) eintr = 1u << sim::choose(K, 9);
    if (!eintr || sim::chance(F, 1, 2)) plan_channel_faults();
  } else {
    for (int i = 0, c = (int)sim::weighted(F, {3, 2, 1}); i < c; ++i) {
      u64 off = sim::logu(F, 60), dur = stall_time();
      if (sim::chance(F, 1, 2)) sim::plan_fault(sim::STALL, (int)sim::choose(F, 2), 2, off, 0, dur); else sim::plan_fault(sim::LINK_STALL, 0, 2, off, 1, dur);
    }
  }
  Mesh m = make_mesh(2, false);
  m.threaded = threaded;
  for (int i = 0; i < 2; ++i) {
    sim::spawn("party", m.hosts[i], [s, m, i, eintr] {
      sim::set_phase("connect");
      auto net = connect(m, i);
      sim::barrier("connected", 2);
      sim::set_phase("stream");
      if (s->mode == FAULTS) sim::cfg.eintr = eintr;
      scl::Channel* c = net->Party(1 - i);
      if (s->mode == CLOSE) {
        if (i == s->closer) {
          // reads what it is going to get, sends, closes
          s->order[i] = 1;
          if (m.threaded) do_send(s, i, c);
          std::thread t([&] { if (!m.threaded) do_send(s, i, c); });
          do_recv(s, i, c);
          t.join();
          sim::set_phase("close");
          net->Close();
        } else {
          std::thread t([&] { do_send(s, i, c); });
          do_recv(s, i, c);
          t.join();
          // the other end sends no more: asking for more must fail, however often it is asked
          Dir& d = s->d[1 - i];
          for (int k = 0; k < 2 && !sim::violated(); ++k) {
            if (!d.recv_done) break;
            if (take(s, d, 1 - i, c, s->extra, i)) break;
          }
          sim::set_phase("close");
          net->Close();
        }
      } else {
        std::thread t([&] { do_send(s, i, c); });
        do_recv(s, i, c);
        t.join();
        if (s->mode == CLEAN) { sim::barrier("streamed", 2); net->Close(); }
      }
    });
  }
  auto out = sim::run();
  if (sim::violated()) return;
  sim::probe("bytes_verified", s->d[0].got + s->d[1].got);
  if (out != sim::DONE) { sim::violation("stream-hangs-" + outcome_name(out), sim::blocked_report() + "; " + describe_stream(s)); return; }
  if (mode == FAULTS) {
    bool f = eintr != 0;
    for (auto& x : sim::planned()) f |= x.fired;
    if (!f) sim::trivial();
    return;
  }
  for (int i = 0; i < 2; ++i) {
    if (sim::info(i).status == sim::FAILED) { sim::violation("party-failed", "party " + std::to_string(i) + ": " + sim::info(i).why + "; " + describe_stream(s)); return; }
    Dir& d = s->d[i];
    if (!d.send_done) { sim::violation("send-failed", "a send of party " + std::to_string(i) + " reported an error although the peer was reading; " + describe_stream(s)); return; }
    if (!d.recv_done || d.got != d.total) { sim::violation("bytes-lost", "party " + std::to_string(1 - i) + " received " + std::to_string(d.got) + " of " + std::to_string(d.total) + " bytes of party " + std::to_string(i) + "; " + describe_stream(s)); return; }
  }
  if (mode == CLOSE && !s->d[s->closer].recv_error) sim::violation("no-error-at-end", "receiving beyond the end of a closed connection reported no error");
}

// One thread per party, alternating directions: request and answer.
void ping_pong(bool threaded) {
  sim::draw_network(false, 0);
  int rounds = 1 + (int)sim::choose(W, 12);
  u64 salt = sim::choose(W, 1ull << 60);
  auto* sz = new std::vector<std::vector<size_t>>();
  u64 tot = 0;
  for (int r = 0; r < 2 * rounds; ++r) { auto v = cut(sim::logu(W, 3000), 3000, true); sz->push_back(v); for (auto x : v) tot += x; }
  small_caps(tot);
  sim::describe("ping-pong rounds=" + std::to_string(rounds));
  Mesh m = make_mesh(2, false);
  m.threaded = threaded;
  auto* bad = new int(0);
  for (int i = 0; i < 2; ++i) sim::spawn("party", m.hosts[i], [=] {
    auto net = connect(m, i);
    scl::Channel* c = net->Party(1 - i);
    size_t pos[2] = {0, 0};
    for (int r = 0; r < 2 * rounds; ++r) {
      int dir = r & 1;
      size_t total = 0;
      for (size_t k : (*sz)[r]) total += k;
      if (dir == i) {
        for (size_t k : (*sz)[r]) { std::vector<unsigned char> b(k); for (size_t x = 0; x < k; ++x) b[x] = pat(salt, dir, pos[dir] + x); c->Send(b.data(), k); pos[dir] += k; }
      } else {
        std::vector<unsigned char> b(total);
        c->Recv(b.data(), total);
        for (size_t x = 0; x < total; ++x) if (b[x] != pat(salt, dir, pos[dir] + x)) { ++*bad; sim::violation("stream-corrupted", "round " + std::to_string(r) + " byte " + std::to_string(x)); return; }
        pos[dir] += total;
      }
    }
    sim::barrier("done", 2);
    net->Close();
  }, late_start());
  auto out = sim::run();
  if (sim::violated()) return;
  for (int i = 0; i < 2; ++i) if (sim::info(i).status == sim::FAILED) { sim::violation("party-failed", sim::info(i).why); return; }
  if (out != sim::DONE) sim::violation("stream-hangs-" + outcome_name(out), sim::blocked_report());
  sim::probe("bytes_verified", tot);
}
}  // namespace
SCENARIO(C05, clean, 4) { tcp_stream(CLEAN, false); }
SCENARIO(C05, close, 3) { tcp_stream(CLOSE, false); }
SCENARIO(C05, faults, 4) { tcp_stream(FAULTS, false); }
SCENARIO(C05, ping_pong, 2) { ping_pong(false); }

SCENARIO(C06, clean, 2) { tcp_stream(CLEAN, true); }
SCENARIO(C06, close, 2) { tcp_stream(CLOSE, true); }
SCENARIO(C06, faults, 2) { tcp_stream(FAULTS, true); }
SCENARIO(C06, ping_pong, 1) { ping_pong(true); }

namespace {
// n parties; all hand everything to the network before anybody receives anything.
struct All { int n; u64 salt; std::vector<std::vector<std::vector<size_t>>> sends; std::vector<std::vector<int>> order; std::vector<int> how; int bad = 0; std::vector<int> left; std::vector<u64> sent_at; };
}
SCENARIO(C06, send_all_first, 4) {
  auto* a = new All;
  a->n = 2 + (int)sim::weighted(W, {4, 4, 2, 1});
  int n = a->n;
  a->salt = sim::choose(W, 1ull << 60);
  sim::draw_network(false, 0);
  u64 big = sim::chance(W, 1, 4) ? 20000 : 1500;
  if (sim::chance(W, 1, 40)) big = 1000000;
  if (sim::chance(W, 1, 600)) { a->n = n = 2; big = 40000000; }
  u64 most = 0;
  for (int i = 0; i < n; ++i) {
    a->sends.emplace_back();
    for (int j = 0; j < n; ++j) { a->sends[i].push_back(cut(sim::chance(W, 1, 8) ? 0 : big > 20000 ? big / 2 + sim::choose(W, big / 2) : sim::logu(W, big), big, true)); u64 t = 0; for (auto k : a->sends[i][j]) t += k; most = std::max(most, t); }
    std::vector<int> o;
    for (int j = 0; j < n; ++j) o.push_back(j);
    for (size_t x = o.size(); x > 1; --x) std::swap(o[x - 1], o[sim::choose(W, x)]);
    a->order.push_back(o);
    a->how.push_back((int)sim::choose(W, 4));       // close, destroy, close twice, close each channel
  }
  a->left.assign(n, -1);
  small_caps(most);
  bool wait_all = sim::chance(W, 2, 3);             // nobody receives before everybody has sent everything
  sim::describe("send-all-first n=" + std::to_string(n) + " up to " + std::to_string(most) + " bytes per pair, capacity " + std::to_string(sim::cfg.cap) + (wait_all ? " barrier" : ""));
  Mesh m = make_mesh(n, false);
  m.threaded = true;
  for (int i = 0; i < n; ++i) sim::spawn("party", m.hosts[i], [=] {
    sim::set_phase("connect");
    {
      auto net = connect(m, i);
      sim::set_phase("send");
      for (int j = 0; j < n; ++j) {
        size_t pos = 0;
        for (size_t k : a->sends[i][j]) { std::vector<unsigned char> b(k); for (size_t x = 0; x < k; ++x) b[x] = pat(a->salt, i * 16 + j, pos + x); net->Party(j)->Send(b.data(), k); std::fill(b.begin(), b.end(), 0); pos += k; }
      }
      if (wait_all) sim::barrier("all-sent", n);
      sim::set_phase("receive");
      for (int j : a->order[i]) {
        size_t total = 0;
        for (size_t k : a->sends[j][i]) total += k;
        std::vector<unsigned char> b(total);
        net->Party(j)->Recv(b.data(), total);
        for (size_t x = 0; x < total; ++x) if (b[x] != pat(a->salt, j * 16 + i, x)) { sim::violation("stream-corrupted", "party " + std::to_string(i) + ": byte " + std::to_string(x) + " from party " + std::to_string(j) + " differs"); return; }
        sim::probe("bytes_verified", total);
      }
      // an orderly close: nothing is unread at this party, but its own data may still be queued
      sim::set_phase("close");
      if (a->how[i] == 0 || a->how[i] == 2) net->Close();
      if (a->how[i] == 2) net->Close();
      if (a->how[i] == 3) for (int j = n; j-- > 0;) net->Party(j)->Close();
    }
    a->left[i] = sim::live_fibers(i) - 1;
  }, late_start());
  auto out = sim::run();
  if (sim::violated()) return;
  for (int i = 0; i < n; ++i) if (sim::info(i).status == sim::FAILED) { sim::violation("party-failed", "party " + std::to_string(i) + " in " + sim::info(i).phase + ": " + sim::info(i).why); return; }
  if (out != sim::DONE) { sim::violation("send-all-first-hangs-" + outcome_name(out), sim::blocked_report()); return; }
  for (int i = 0; i < n; ++i) if (a->left[i] != 0) { sim::violation("thread-left-behind", "party " + std::to_string(i) + " has " + std::to_string(a->left[i]) + " threads left after the network was destroyed"); return; }
}

// Many small messages: everything is queued before anybody receives.
SCENARIO(C06, many_messages, 1) {
  u64 salt = sim::choose(W, 1ull << 60);
  sim::draw_network(false, 0);
  u64 most = sim::chance(W, 1, 40) ? 150000 : sim::chance(W, 1, 6) ? 20000 : 3000;
  u64 count[2] = {sim::logu(W, most), most / 2 + sim::choose(W, most / 2)};
  u64 size = 1 + sim::choose(W, 9);
  small_caps(count[1] * size);
  bool wait_all = sim::chance(W, 3, 4);
  sim::describe("many messages: " + std::to_string(count[0]) + " and " + std::to_string(count[1]) + " of " + std::to_string(size) + " bytes, capacity " + std::to_string(sim::cfg.cap) + (wait_all ? " barrier" : ""));
  Mesh m = make_mesh(2, false);
  m.threaded = true;
  for (int i = 0; i < 2; ++i) sim::spawn("party", m.hosts[i], [=] {
    auto net = connect(m, i);
    scl::Channel* c = net->Party(1 - i);
    sim::set_phase("send");
    unsigned char b[16];
    for (u64 k = 0; k < count[i]; ++k) { for (u64 x = 0; x < size; ++x) b[x] = pat(salt, i, k * size + x); c->Send(b, size); }
    if (wait_all) sim::barrier("all-sent", 2);
    sim::set_phase("receive");
    std::vector<unsigned char> r(count[1 - i] * size);
    c->Recv(r.data(), r.size());
    for (size_t x = 0; x < r.size(); ++x) if (r[x] != pat(salt, 1 - i, x)) { sim::violation("stream-corrupted", "byte " + std::to_string(x) + " differs"); return; }
    sim::probe("bytes_verified", r.size());
    net->Close();
  }, start_delay());
  auto out = sim::run();
  if (sim::violated()) return;
  for (int i = 0; i < 2; ++i) if (sim::info(i).status == sim::FAILED) { sim::violation("party-failed", sim::info(i).why); return; }
  if (out != sim::DONE) { sim::violation("send-all-first-hangs-" + outcome_name(out), sim::blocked_report()); return; }
}

// Closing or destroying while data is queued, with a peer that reads, stalls, leaves early or dies.
SCENARIO(C06, close_with_queue, 4) {
  u64 salt = sim::choose(W, 1ull << 60);
  sim::draw_network(false, 0);
  u64 big = sim::chance(W, 1, 3) ? 20000 : 800;
  auto* sends = new std::vector<size_t>(cut(1 + sim::logu(W, big), big, true));
  u64 total = 0;
  for (auto k : *sends) total += k;
  small_caps(total);
  int how = (int)sim::choose(W, 4), who = (int)sim::choose(W, 2), peer = (int)sim::weighted(W, {5, 2, 2, 1});   // reads all / leaves after some / leaves at once / dies
  u64 some = sim::choose(W, total);
  u64 nap = sim::chance(W, 1, 2) ? 0 : stall_time();
  static const char* pn[] = {"reads everything", "leaves in the middle", "leaves at once", "dies"};
  sim::describe("close with up to " + std::to_string(total) + " bytes queued, peer " + pn[peer] + ", capacity " + std::to_string(sim::cfg.cap));
  Mesh m = make_mesh(2, false);
  m.threaded = true;
  bool* got = new bool(false);
  int* left = new int(-1);
  bool* peer_threaded = new bool(sim::chance(W, 1, 2));
  if (peer == 3) sim::plan_fault(sim::CRASH, 1 - who, 2, sim::logu(F, 40), 0, 0);
  for (int i = 0; i < 2; ++i) sim::spawn("party", m.hosts[i], [=] {
    sim::set_phase("connect");
    Mesh mm = m;
    if (i != who) mm.threaded = *peer_threaded;
    if (i == who) {
      {
        auto net = connect(mm, i);
        sim::barrier("connected", 2);
        sim::set_phase("send");
        size_t pos = 0;
        scl::Channel* c = net->Party(1 - i);
        for (size_t k : *sends) { std::vector<unsigned char> b(k); for (size_t x = 0; x < k; ++x) b[x] = pat(salt, 0, pos + x); c->Send(b.data(), k); pos += k; }
        sim::set_phase("close");
        if (how == 0 || how == 2) net->Close();
        if (how == 2) { net->Close(); c->Close(); }
        if (how == 3) c->Close();
      }
      *left = sim::live_fibers(i) - 1;
    } else {
      auto net = connect(mm, i);
      sim::barrier("connected", 2);
      sim::set_phase("read");
      scl::Channel* c = net->Party(1 - i);
      if (nap) sim::sleep_ns(nap);
      u64 want = peer == 0 ? total : peer == 3 ? total : peer == 1 ? some : 0;
      u64 have = 0;
      while (have < want) {
        u64 k = std::min<u64>(want - have, 1 + (have * 7 + 13) % 97);
        std::vector<unsigned char> b(k);
        c->Recv(b.data(), k);
        for (size_t x = 0; x < k; ++x) if (b[x] != pat(salt, 0, have + x)) { sim::violation("stream-corrupted", "byte " + std::to_string(have + x) + " differs"); return; }
        have += k;
      }
      sim::probe("bytes_verified", have);
      if (peer == 0) {
        *got = true;
        unsigned char x;
        bool err = false;
        try { c->Recv(&x, 1); } catch (const std::exception&) { err = true; }
        if (!err) sim::violation("bytes-from-nowhere", "one more byte than was sent arrived before the end");
      }
    }
  });
  auto out = sim::run();
  if (sim::violated()) return;
  const auto& a = sim::info(who);
  if (out != sim::DONE) { sim::violation("close-hangs-" + outcome_name(out), sim::blocked_report()); return; }
  if (peer == 0) {
    for (int i = 0; i < 2; ++i) if (sim::info(i).status == sim::FAILED) { sim::violation(i == who ? "close-failed" : "bytes-lost", std::string(i == who ? "closing party: " : "the reader saw an error before everything sent had arrived: ") + sim::info(i).why); return; }
    if (!*got) { sim::violation("bytes-lost", "the reader did not get everything that was sent before the close"); return; }
  }
  // with a peer that left, the write may kill the process (SIGPIPE) or the channel may report an error
  if (a.status == sim::EXITED && *left != 0) sim::violation("thread-left-behind", std::to_string(*left) + " threads left after the network was destroyed");
}
