// C21: the incremental hash over a stream, cut the way the network delivered it.
#include "proto.h"
#include "scl/hash.h"
#include <thread>
using namespace h;

namespace {
// Reference SHA-3 (Keccak-f[1600] from its definition: round constants and offsets are computed).
struct Ref {
  static u64 rot(u64 x, unsigned k) { return k ? x << k | x >> (64 - k) : x; }
  static void permute(u64 A[5][5]) {
    unsigned char lfsr = 1;
    for (int r = 0; r < 24; ++r) {
      u64 C[5], D[5];
      for (int x = 0; x < 5; ++x) C[x] = A[x][0] ^ A[x][1] ^ A[x][2] ^ A[x][3] ^ A[x][4];
      for (int x = 0; x < 5; ++x) D[x] = C[(x + 4) % 5] ^ rot(C[(x + 1) % 5], 1);
      for (int x = 0; x < 5; ++x) for (int y = 0; y < 5; ++y) A[x][y] ^= D[x];
      int x = 1, y = 0;
      u64 cur = A[x][y];
      for (int t = 0; t < 24; ++t) {
        int nx = y, ny = (2 * x + 3 * y) % 5;
        x = nx; y = ny;
        u64 s = A[x][y];
        A[x][y] = rot(cur, ((t + 1) * (t + 2) / 2) % 64);
        cur = s;
      }
      for (int yy = 0; yy < 5; ++yy) {
        u64 row[5];
        for (int xx = 0; xx < 5; ++xx) row[xx] = A[xx][yy];
        for (int xx = 0; xx < 5; ++xx) A[xx][yy] = row[xx] ^ (~row[(xx + 1) % 5] & row[(xx + 2) % 5]);
      }
      for (int j = 0; j < 7; ++j) {
        if (lfsr & 1) A[0][0] ^= 1ull << ((1 << j) - 1);
        lfsr = (unsigned char)(lfsr << 1 ^ (lfsr & 0x80 ? 0x71 : 0));
      }
    }
  }
  static std::string digest(const std::string& msg, unsigned bits) {
    size_t rate = 200 - bits / 4;
    std::string m = msg;
    m += (char)0x06;
    while (m.size() % rate) m += (char)0;
    m.back() = (char)((unsigned char)m.back() | 0x80);
    u64 A[5][5] = {};
    for (size_t o = 0; o < m.size(); o += rate) {
      for (size_t i = 0; i < rate / 8; ++i) { u64 w; memcpy(&w, &m[o + 8 * i], 8); A[i % 5][i / 5] ^= w; }
      permute(A);
    }
    std::string out;
    for (size_t i = 0; i < bits / 64; ++i) out.append((char*)&A[i % 5][i / 5], 8);
    return out;
  }
};
size_t draw_len(unsigned bits) {
  size_t rate = 200 - bits / 4;
  switch (sim::weighted(W, {1, 3, 3, 3, 1})) {
    case 0: return 0;
    case 1: return sim::choose(W, 40);
    case 2: return rate * (1 + sim::choose(W, 4)) + sim::choose(W, 19) - 9;      // around block ends
    case 3: return sim::choose(W, 900);
    case 4: if (sim::chance(W, 1, 8)) return 65000 + sim::logu(W, sim::chance(W, 1, 40) ? 20000000 : 200000); [[fallthrough]];
    default: return sim::choose(W, 12000);
  }
}
size_t piece(sim::Stream st, int style) {
  switch (style) {
    case 0: return 1;
    case 1: return 1 + sim::choose(st, 7);
    case 2: return sim::choose(st, 20);                                          // empty pieces included
    case 3: return 8 * (1 + sim::choose(st, 20));
    case 4: return 60 + sim::choose(st, 90);
    default: return 1 + sim::logu(st, 3000);
  }
}
template <size_t B> std::string fin(scl::details::Hash<B>& hs) { auto d = hs.Finalize(); return std::string((char*)d.data(), d.size()); }
struct Stream0 { unsigned bits; std::string data; std::vector<size_t> cuts; bool heap; };
Stream0 draw_stream() {
  Stream0 s;
  static const unsigned sizes[] = {256, 384, 512};
  s.bits = sizes[sim::choose(W, 3)];
  size_t n = draw_len(s.bits);
  u64 x = sim::choose(W, 1ull << 60);
  int fill = (int)sim::choose(W, 4);
  for (size_t i = 0; i < n; ++i) { x = x * 6364136223846793005ull + 1442695040888963407ull; s.data += (char)(fill == 0 ? 0 : fill == 1 ? 0xFF : x >> 56); }
  int style = (int)sim::choose(W, 6);
  bool big = n > 30000;
  for (size_t left = n; left;) { size_t k = std::min(left, big ? 1 + sim::logu(W, n) + n / 500 : piece(W, style)); s.cuts.push_back(k); left -= k; }
  s.heap = sim::chance(W, 1, 2);
  return s;
}
// Hashes the stream piece by piece; other fibers run in between.
template <size_t B> std::string pieces(const Stream0& s) {
  scl::details::Hash<B> hs;
  size_t o = 0;
  for (size_t k : s.cuts) {
    if (s.heap) { std::vector<unsigned char> v(s.data.begin() + o, s.data.begin() + o + k); hs.Update(v); }
    else hs.Update((const unsigned char*)s.data.data() + o, k);
    o += k;
    sim::yield();
  }
  return fin(hs);
}
std::string by_pieces(const Stream0& s) { return s.bits == 256 ? pieces<256>(s) : s.bits == 384 ? pieces<384>(s) : pieces<512>(s); }
template <size_t B> std::string one(const std::string& d) { scl::details::Hash<B> hs; hs.Update((const unsigned char*)d.data(), d.size()); return fin(hs); }
std::string whole(unsigned bits, const std::string& d) { return bits == 256 ? one<256>(d) : bits == 384 ? one<384>(d) : one<512>(d); }
std::string about(const Stream0& s) { return std::to_string(s.bits) + "-bit digest of " + std::to_string(s.data.size()) + " bytes in " + std::to_string(s.cuts.size()) + " pieces"; }

void judge(const Stream0& s, const std::string& got) {
  std::string want = Ref::digest(s.data, s.bits);
  if (got != want) {
    std::string w = whole(s.bits, s.data);
    sim::violation(w == want ? "digest-depends-on-pieces" : "wrong-digest", about(s));
  }
  sim::probe("digests_checked");
  sim::probe("bytes_hashed", s.data.size());
}
}  // namespace

// Several hash computations of one process advance in turns.
SCENARIO(C21, interleaved, 3) {
  if (sim::chance(K, 1, 2)) sim::cfg.fine = 1 + (unsigned)sim::logu(K, 200);
  sim::cfg.guard_alloc = sim::chance(K, 1, 8);
  int k = 1 + (int)sim::choose(W, 5);
  auto* ss = new std::vector<Stream0>;
  for (int i = 0; i < k; ++i) ss->push_back(draw_stream());
  std::string d;
  for (auto& s : *ss) d += (d.empty() ? "" : "; ") + about(s);
  sim::describe(d);
  auto* done = new int(0);
  int host = sim::add_host("10.0.0.1");
  sim::spawn("process", host, [=] {
    std::vector<std::thread> th;
    for (auto& s : *ss) th.emplace_back([&s, done] {
      judge(s, by_pieces(s));
      if (whole(s.bits, s.data) != Ref::digest(s.data, s.bits)) sim::violation("wrong-digest", about(s) + ", in one piece");
      ++*done;
    });
    for (auto& t : th) t.join();
  });
  auto out = sim::run();
  if (sim::violated()) return;
  if (out != sim::DONE || *done != k) sim::violation("hang", sim::info(0).why);
}
// Two streams that differ in one byte have different digests.
SCENARIO(C21, one_byte, 2) {
  sim::cfg.guard_alloc = sim::chance(K, 1, 8);
  auto* s = new Stream0(draw_stream());
  if (s->data.empty()) { s->data = "x"; s->cuts = {1}; }
  size_t at = sim::choose(W, s->data.size());
  auto* s2 = new Stream0(*s);
  s2->data[at] = (char)(s2->data[at] ^ (1 + sim::choose(W, 255)));
  if (sim::chance(W, 1, 4)) { s2->data = s->data + (char)0; s2->cuts = s->cuts; s2->cuts.push_back(1); }
  sim::describe(about(*s) + " and the same with byte " + std::to_string(at) + " changed");
  sim::spawn("process", sim::add_host("10.0.0.1"), [=] {
    std::string a = by_pieces(*s), b = by_pieces(*s2);
    if (a == b) sim::violation("collision", about(*s) + ": byte " + std::to_string(at) + " does not influence the digest");
    judge(*s2, b);
  });
  sim::run();
}
// The sender hashes what it sends, the receiver what arrives, in the pieces in which it arrives.
SCENARIO(C21, over_the_network, 4) {
  sim::draw_network(true, 256);
  sim::cfg.guard_alloc = sim::chance(K, 1, 8);
  auto* s = new Stream0(draw_stream());
  int style = (int)sim::choose(W, 6);
  while (sim::cfg.cap * 3000 < s->data.size()) sim::cfg.cap *= 8;
  Mesh m = make_mesh(2, true);
  sim::describe(about(*s) + " over the network");
  auto* dg = new std::vector<std::string>(2);
  auto* reads = new std::vector<size_t>;
  for (size_t left = s->data.size(); left;) { size_t k = std::min(left, s->data.size() > 30000 ? 1 + sim::logu(W, left) + left / 500 : std::max<size_t>(1, piece(W, style))); reads->push_back(k); left -= k; }
  for (int i = 0; i < 2; ++i) sim::spawn("party", m.hosts[i], [=] {
    auto net = connect(m, i);
    auto* c = net->Party(1 - i);
    if (i == 0) {
      size_t o = 0;
      for (size_t k : s->cuts) { c->Send((const unsigned char*)s->data.data() + o, k); o += k; }
      (*dg)[0] = by_pieces(*s);
    } else {
      Stream0 r = *s;
      r.data.clear();
      r.cuts = *reads;
      for (size_t k : *reads) { std::vector<unsigned char> b(k); c->Recv(b.data(), k); r.data.append((char*)b.data(), k); }
      (*dg)[1] = by_pieces(r);
    }
    sim::barrier("done", 2);
    net->Close();
  }, start_delay());
  auto out = sim::run();
  if (sim::violated()) return;
  if (out != sim::DONE) { sim::violation("hang-" + outcome_name(out), sim::blocked_report()); return; }
  for (int i = 0; i < 2; ++i) if (sim::info(i).status != sim::EXITED) { sim::violation("party-failed", sim::info(i).why); return; }
  if ((*dg)[0] != (*dg)[1]) { sim::violation("digest-depends-on-pieces", "sender and receiver of " + about(*s) + " disagree"); return; }
  judge(*s, (*dg)[1]);
}
