// C07: in-memory channels between threads.
#include "proto.h"
#include "scl/net/mem_channel.h"
#include <thread>
using namespace h;

namespace {
unsigned char pat(u64 salt, int dir, size_t pos) { u64 x = salt ^ ((u64)dir << 56) ^ pos; x ^= x >> 31; x *= 0x9E3779B97F4A7C15ull; x ^= x >> 29; return (unsigned char)(x >> 11); }
std::vector<size_t> cut(u64 total, u64 max) {
  std::vector<size_t> v;
  while (total) {
    u64 k = 0;
    switch (sim::weighted(W, {4, 2, 1, 2})) { case 0: k = 1 + sim::logu(W, max); break; case 1: k = 1; break; case 2: k = 0; break; default: k = 8; }
    k = std::min(k, total);
    v.push_back(k);
    total -= k;
    if (v.size() > 50 && total) { v.push_back(total); break; }
  }
  return v;
}
void send_all(scl::Channel* c, const std::vector<size_t>& v, u64 salt, int dir, size_t pos = 0) {
  for (size_t k : v) { std::vector<unsigned char> b(k); for (size_t x = 0; x < k; ++x) b[x] = pat(salt, dir, pos + x); c->Send(b.data(), k); std::fill(b.begin(), b.end(), 0x77); pos += k; }
}
bool recv_all(scl::Channel* c, const std::vector<size_t>& v, u64 salt, int dir, size_t pos = 0) {
  for (size_t k : v) {
    std::vector<unsigned char> b(k + 8, 0xC3);
    c->Recv(b.data(), k);
    for (size_t x = 0; x < k; ++x) if (b[x] != pat(salt, dir, pos + x)) { sim::violation("stream-corrupted", "byte " + std::to_string(pos + x) + " differs (receive of " + std::to_string(k) + " bytes)"); return false; }
    for (size_t x = k; x < k + 8; ++x) if (b[x] != 0xC3) { sim::violation("wrote-beyond-buffer", "receive of " + std::to_string(k) + " bytes"); return false; }
    pos += k;
  }
  sim::probe("bytes_verified", pos);
  return true;
}
u64 sum(const std::vector<size_t>& v) { u64 s = 0; for (auto k : v) s += k; return s; }
void finish() {
  auto out = sim::run();
  if (sim::violated()) return;
  if (sim::info(0).status == sim::FAILED) sim::violation("party-failed", sim::info(0).why);
  else if (out != sim::DONE) sim::violation("receive-hangs-" + outcome_name(out), sim::blocked_report());
}
}  // namespace

// both directions at once, one sending and one receiving thread at each end
SCENARIO(C07, streams, 4) {
  sim::cfg.spurious = sim::chance(K, 1, 3) ? 100 : 0;
  u64 salt = sim::choose(W, 1ull << 60);
  u64 most = sim::chance(W, 1, 1500) ? 40000000 : sim::chance(W, 1, 20) ? 400000 : 4000;
  u64 max = 1 + sim::logu(W, most / 2);
  std::vector<size_t> sv[2], rv[2];
  for (int d = 0; d < 2; ++d) { u64 t = most > 4000 && d == 0 ? most / 2 + sim::choose(W, most / 2) : sim::logu(W, 4000); sv[d] = cut(t, max); rv[d] = cut(t, max); }
  int self = sim::chance(W, 1, 4);
  sim::describe((self ? "self " : "paired ") + std::to_string(sum(sv[0])) + "/" + std::to_string(sum(sv[1])) + " bytes in " + std::to_string(sv[0].size()) + "/" + std::to_string(rv[0].size()) + " pieces");
  int host = sim::add_host("10.0.0.1");
  sim::spawn("process", host, [=] {
    if (self) {
      auto c = scl::InMemoryChannel::CreateSelfConnecting();
      std::thread t([&] { send_all(c.get(), sv[0], salt, 0); });
      recv_all(c.get(), rv[0], salt, 0);
      t.join();
      return;
    }
    auto c = scl::InMemoryChannel::CreatePaired();
    std::vector<std::thread> th;
    for (int d = 0; d < 2; ++d) {
      th.emplace_back([&, d] { send_all(c[d].get(), sv[d], salt, d); });
      th.emplace_back([&, d] { recv_all(c[1 - d].get(), rv[d], salt, d); });
    }
    for (auto& t : th) t.join();
  });
  finish();
}
// one thread per end, the sends of a round fully buffered before they are read in other pieces
SCENARIO(C07, rounds, 2) {
  sim::cfg.spurious = sim::chance(K, 1, 3) ? 100 : 0;
  u64 salt = sim::choose(W, 1ull << 60);
  int rounds = 1 + (int)sim::choose(W, 8);
  u64 big = sim::chance(W, 1, 1500) ? 20000000 : sim::chance(W, 1, 20) ? 300000 : 600;   // one side queues all of it before the other reads
  auto* sv = new std::vector<std::vector<size_t>>();
  auto* rv = new std::vector<std::vector<size_t>>();
  for (int r = 0; r < rounds; ++r) { u64 t = sim::logu(W, big); u64 piece = big > 600 && sim::chance(W, 1, 2) ? big / 3 : std::max<u64>(100, big / 200); sv->push_back(cut(t, piece)); rv->push_back(cut(t, piece)); }
  bool self = sim::chance(W, 1, 3);
  sim::describe(std::string(self ? "self" : "paired") + " rounds=" + std::to_string(rounds));
  int host = sim::add_host("10.0.0.1");
  sim::spawn("process", host, [=] {
    if (self) {
      auto c = scl::InMemoryChannel::CreateSelfConnecting();
      size_t p = 0;
      for (int r = 0; r < rounds; ++r) { send_all(c.get(), (*sv)[r], salt, 0, p); recv_all(c.get(), (*rv)[r], salt, 0, p); p += sum((*sv)[r]); }
      return;
    }
    auto c = scl::InMemoryChannel::CreatePaired();
    auto end = [&](int me) {
      size_t p[2] = {0, 0};
      for (int r = 0; r < rounds; ++r) {
        int d = r & 1;
        if (d == me) send_all(c[me].get(), (*sv)[r], salt, d, p[d]); else recv_all(c[me].get(), (*rv)[r], salt, d, p[d]);
        p[d] += sum((*sv)[r]);
      }
    };
    std::thread t([&] { end(1); });
    end(0);
    t.join();
  });
  finish();
}
// discarding: at a quiet moment, exactly what was sent before disappears
SCENARIO(C07, flush_quiet, 2) {
  u64 salt = sim::choose(W, 1ull << 60);
  int rounds = 1 + (int)sim::choose(W, 4);
  auto* before = new std::vector<std::vector<size_t>>();
  auto* part = new std::vector<u64>();
  auto* after = new std::vector<std::vector<size_t>>();
  auto* afterr = new std::vector<std::vector<size_t>>();
  for (int r = 0; r < rounds; ++r) {
    before->push_back(cut(sim::logu(W, 300), 60));
    part->push_back(sim::choose(W, sum(before->back()) + 1));
    u64 t = sim::logu(W, 300);
    after->push_back(cut(t, 60));
    afterr->push_back(cut(t, 60));
  }
  bool self = sim::chance(W, 1, 3);
  int host = sim::add_host("10.0.0.1");
  sim::describe(std::string("flush at rest ") + (self ? "self" : "paired") + " rounds=" + std::to_string(rounds));
  sim::spawn("process", host, [=] {
    std::shared_ptr<scl::InMemoryChannel> tx, rx;
    if (self) tx = rx = scl::InMemoryChannel::CreateSelfConnecting();
    else { auto c = scl::InMemoryChannel::CreatePaired(); tx = c[0]; rx = c[1]; }
    auto sender = [&] {
      size_t p = 0;
      for (int r = 0; r < rounds; ++r) {
        send_all(tx.get(), (*before)[r], salt, 0, p);
        p += sum((*before)[r]);
        if (!self) { sim::barrier("sent", 2); sim::barrier("flushed", 2); }
        else break;
        send_all(tx.get(), (*after)[r], salt, 0, p);
        p += sum((*after)[r]);
      }
    };
    if (self) {
      size_t p = 0;
      for (int r = 0; r < rounds; ++r) {
        send_all(tx.get(), (*before)[r], salt, 0, p);
        recv_all(rx.get(), {(size_t)(*part)[r]}, salt, 0, p);
        rx->Flush();
        p += sum((*before)[r]);
        send_all(tx.get(), (*after)[r], salt, 0, p);
        recv_all(rx.get(), (*afterr)[r], salt, 0, p);
        p += sum((*after)[r]);
      }
      return;
    }
    std::thread t(sender);
    size_t p = 0;
    bool ok = true;
    for (int r = 0; r < rounds; ++r) {
      if (ok) ok = recv_all(rx.get(), {(size_t)(*part)[r]}, salt, 0, p);
      sim::barrier("sent", 2);
      rx->Flush();
      sim::barrier("flushed", 2);
      p += sum((*before)[r]);
      if (ok) ok = recv_all(rx.get(), (*afterr)[r], salt, 0, p);
      p += sum((*after)[r]);
    }
    t.join();
    // the opposite direction is not affected
    send_all(rx.get(), {5, 6}, salt, 1);
    tx->Send((const unsigned char*)"x", 1);
    recv_all(tx.get(), {3, 8}, salt, 1);
  });
  finish();
}
// discarding while the other side is sending: what remains is a suffix of the messages, and nothing
// that was sent before discarding began remains
SCENARIO(C07, flush_racing, 2) {
  int n1 = (int)sim::choose(W, 6), n2 = (int)sim::choose(W, 8);
  u64 salt = sim::choose(W, 1ull << 60);
  auto* len = new std::vector<size_t>();
  for (int i = 0; i < n1 + n2 + 2; ++i) len->push_back(1 + sim::choose(W, 30));
  int* sent = new int(0);
  sim::describe("flush while sending, " + std::to_string(n1) + " before, " + std::to_string(n2) + " during");
  int host = sim::add_host("10.0.0.1");
  sim::spawn("process", host, [=] {
    auto c = scl::InMemoryChannel::CreatePaired();
    std::vector<size_t> start{0};
    for (size_t k : *len) start.push_back(start.back() + k);
    auto msg = [&](int i) { std::vector<unsigned char> b; for (size_t x = 0; x < (*len)[i]; ++x) b.push_back(pat(salt, 0, start[i] + x)); return b; };
    std::thread t([&] {
      for (int i = 0; i < n1 + n2; ++i) { if (i == n1) sim::yield(); auto b = msg(i); c[0]->Send(b.data(), b.size()); *sent = i + 1; }
      sim::barrier("flushed", 2);
      for (int i = n1 + n2; i < n1 + n2 + 2; ++i) { auto b = msg(i); c[0]->Send(b.data(), b.size()); }
    });
    int naps = (int)sim::choose(W, 12);
    for (int i = 0; i < naps; ++i) sim::yield();
    int lo = *sent;
    c[1]->Flush();
    int hi = std::min(*sent + 1, n1 + n2);        // the message being sent may be in or out
    sim::barrier("flushed", 2);
    // read to the end: the first byte must start a message m with lo <= m <= hi
    std::vector<unsigned char> tail = msg(n1 + n2), last = msg(n1 + n2 + 1);
    tail.insert(tail.end(), last.begin(), last.end());
    std::vector<unsigned char> got;
    // longest possible remainder first is unknown: read until the stream ends with the two last messages
    size_t min_len = tail.size();
    got.resize(min_len);
    c[1]->Recv(got.data(), min_len);
    auto matches = [&](int m) { size_t off = start[m]; if (got.size() > start.back() - off) return false; for (size_t x = 0; x < got.size(); ++x) if (got[x] != pat(salt, 0, off + x)) return false; return true; };
    int m = -1;
    for (int i = lo; i <= hi; ++i) if (matches(i)) { m = i; break; }
    if (m < 0) sim::violation("flush-kept-or-lost", "after discarding, the stream does not continue at a message sent between " + std::to_string(lo) + " and " + std::to_string(hi));
    else {
      size_t rest = start.back() - start[m] - got.size();
      std::vector<unsigned char> more(rest);
      c[1]->Recv(more.data(), rest);
      for (size_t x = 0; x < rest; ++x) if (more[x] != pat(salt, 0, start[m] + got.size() + x)) { sim::violation("stream-corrupted", "after discarding"); break; }
      sim::probe("flush_kept", n1 + n2 - m);
    }
    t.join();
  });
  finish();
}
