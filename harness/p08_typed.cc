// C08: typed messages over every kind of channel, hostile headers, truncated messages.
#include "proto.h"
#include "scl/math/z2k.h"
#include "scl/net/mem_channel.h"
#include <functional>
#include <sys/mman.h>
#include <thread>
using namespace h;

namespace {
constexpr size_t LIMIT = 1024;              // MAX_VEC_READ_SIZE and MAX_MAT_READ_SIZE of this build
struct Rec { uint32_t a; uint16_t b; unsigned char c[5]; };   // a trivially copyable record

u64 word() { if (sim::chance(W, 1, 6)) return (1ull << sim::choose(W, 64)) + sim::choose(W, 3) - 1; return sim::chance(W, 1, 5) ? ~0ull : sim::chance(W, 1, 5) ? 0 : (sim::choose(W, 1ull << 32) << 32) | sim::choose(W, 1ull << 32); }
size_t count(size_t max) { switch (sim::weighted(W, {2, 5, 2, 1})) { case 0: return 0; case 1: return 1 + sim::choose(W, 12); case 2: return 1 + sim::logu(W, max - 1); default: return max; } }

// The value as a list of canonical byte strings, computed by the harness from the bytes of each element.
template <typename T> std::string elem(const T& x) { std::string s(T::ByteSize(), 0); x.Write((unsigned char*)s.data()); return s; }
// Canonical bytes of an element, drawn by the harness: little endian, below the modulus.
template <typename T> struct Bits;
template <size_t K> struct Bits<scl::Z2k<K>> { static constexpr size_t k = K; static constexpr bool field = false; };
template <> struct Bits<scl::FF<61>> { static constexpr size_t k = 61; static constexpr bool field = true; };
template <> struct Bits<scl::FF<127>> { static constexpr size_t k = 127; static constexpr bool field = true; };
template <typename T> std::string draw_bytes() {
  constexpr size_t k = Bits<T>::k, nb = (k - 1) / 8 + 1;
  unsigned char b[16];
  for (int i = 0; i < 16; i += 8) { u64 w = word(); memcpy(b + i, &w, 8); }
  std::string s((char*)b, nb);
  if (k % 8) s[nb - 1] = (char)((unsigned char)s[nb - 1] & ((1u << (k % 8)) - 1));
  if (Bits<T>::field) {                       // p = 2^k - 1 itself is not canonical
    bool all = (unsigned char)s[nb - 1] == (1u << (k % 8)) - 1;
    for (size_t i = 0; i + 1 < nb; ++i) all = all && (unsigned char)s[i] == 0xFF;
    if (all) s[0] = (char)0xFE;
  }
  return s;
}
template <typename T> T make(const std::string& canonical) {
  static_assert(T::ByteSize() == (Bits<T>::k - 1) / 8 + 1);
  unsigned char b[16] = {0};
  memcpy(b, canonical.data(), canonical.size());
  return T::Read(b);
}
// Field elements and ring elements are compared with what the sender put in.
struct Msg {
  std::string what;
  std::function<void(scl::Channel*)> send;
  std::function<void(scl::Channel*)> recv;      // reports a violation when the value differs
  size_t payload = 0;                           // bytes on the wire
};
void differ(const std::string& what, const std::string& how) { sim::violation("value-changed", what + ": " + how); }

template <typename T> Msg vec_msg(const char* tn) {
  auto v = std::make_shared<scl::Vec<T>>();
  size_t n = count(LIMIT);
  auto want = std::make_shared<std::vector<std::string>>();
  for (size_t i = 0; i < n; ++i) { auto b = draw_bytes<T>(); v->Emplace(make<T>(b)); want->push_back(b); }
  size_t dirt = sim::choose(W, 5);
  Msg m;
  m.what = std::string("Vec<") + tn + ">(" + std::to_string(n) + ")";
  m.payload = 4 + n * T::ByteSize();
  m.send = [v](scl::Channel* c) { c->Send(*v); };
  std::string what = m.what;
  m.recv = [want, what, dirt](scl::Channel* c) {
    scl::Vec<T> r(dirt);                        // a destination with other contents
    c->Recv(r);
    if (r.Size() != want->size()) { differ(what, "received " + std::to_string(r.Size()) + " elements"); return; }
    for (size_t i = 0; i < r.Size(); ++i) if (elem(r[i]) != (*want)[i]) { differ(what, "element " + std::to_string(i)); return; }
  };
  return m;
}
template <typename T> Msg mat_msg(const char* tn) {
  size_t r = 0, c = 0;
  bool empty = sim::chance(W, 1, 10);
  if (!empty) {
    r = 1 + sim::logu(W, 31);
    c = 1 + sim::logu(W, LIMIT / r - 1);
    if (sim::chance(W, 1, 8)) { r = (size_t)1 << sim::choose(W, 11); c = LIMIT / r; }      // exactly what is allowed
    if (sim::chance(W, 1, 4)) std::swap(r, c);
  }
  auto m0 = std::make_shared<scl::Mat<T>>();
  if (!empty) *m0 = scl::Mat<T>(r, c);
  auto want = std::make_shared<std::vector<std::string>>();
  for (size_t i = 0; i < r; ++i) for (size_t j = 0; j < c; ++j) { auto b = draw_bytes<T>(); (*m0)(i, j) = make<T>(b); want->push_back(b); }
  Msg m;
  m.what = std::string("Mat<") + tn + ">(" + std::to_string(r) + "x" + std::to_string(c) + ")";
  m.payload = 8 + r * c * T::ByteSize();
  m.send = [m0](scl::Channel* ch) { ch->Send(*m0); };
  std::string what = m.what;
  int dirt = (int)sim::choose(W, 3);
  m.recv = [want, what, r, c, dirt](scl::Channel* ch) {
    scl::Mat<T> x;
    if (dirt) x = scl::Mat<T>(dirt, 3);
    ch->Recv(x);
    if (x.Rows() != r || x.Cols() != c) { differ(what, "received a " + std::to_string(x.Rows()) + "x" + std::to_string(x.Cols()) + " matrix"); return; }
    for (size_t i = 0; i < r; ++i) for (size_t j = 0; j < c; ++j) if (elem(x(i, j)) != (*want)[i * c + j]) { differ(what, "entry " + std::to_string(i) + "," + std::to_string(j)); return; }
  };
  return m;
}
template <typename T> Msg array_msg(const char* tn) {
  auto v = std::make_shared<std::vector<T>>(count(sim::chance(W, 1, 30) ? 30000 : 300));
  for (auto& x : *v) { unsigned char b[sizeof(T)]; for (auto& y : b) y = (unsigned char)sim::choose(W, 256); memcpy((void*)&x, b, sizeof(T)); }
  Msg m;
  m.what = std::string("array of ") + tn + "(" + std::to_string(v->size()) + ")";
  m.payload = v->size() * sizeof(T);
  std::string what = m.what;
  m.send = [v](scl::Channel* c) { c->Send(*v); };
  m.recv = [v, what](scl::Channel* c) { std::vector<T> r(v->size()); c->Recv(r); if (r.size() != v->size() || (r.size() && memcmp(r.data(), v->data(), r.size() * sizeof(T)))) differ(what, "contents differ"); };
  return m;
}
template <typename T> Msg scalar_msg(const char* tn) {
  auto v = std::make_shared<T>();
  for (size_t i = 0; i < sizeof(T); ++i) ((unsigned char*)v.get())[i] = (unsigned char)sim::choose(W, 256);
  Msg m;
  m.what = tn;
  m.payload = sizeof(T);
  std::string what = m.what;
  m.send = [v](scl::Channel* c) { c->Send(*v); };
  m.recv = [v, what](scl::Channel* c) { T r; memset((void*)&r, 0x5F, sizeof r); c->Recv(r); if (memcmp((void*)&r, (void*)v.get(), sizeof(T))) differ(what, "scalar differs"); };
  return m;
}
template <typename T> Msg field_scalar(const char* tn) {
  auto b = draw_bytes<T>();
  T x = make<T>(b);
  Msg m;
  m.what = std::string("scalar ") + tn;
  m.payload = sizeof(T);
  std::string what = m.what;
  m.send = [x](scl::Channel* c) { c->Send(x); };
  m.recv = [b, what](scl::Channel* c) { T r; c->Recv(r); if (elem(r) != b) differ(what, "differs"); };
  return m;
}
Msg draw_msg() {
  switch (sim::choose(W, 20)) {
    case 0: return vec_msg<scl::FF<61>>("FF61");
    case 1: return vec_msg<scl::FF<127>>("FF127");
    case 2: return vec_msg<scl::Z2k<32>>("Z2k32");
    case 3: return vec_msg<scl::Z2k<62>>("Z2k62");
    case 4: return vec_msg<scl::Z2k<123>>("Z2k123");
    case 5: return vec_msg<scl::Z2k<9>>("Z2k9");
    case 6: return vec_msg<scl::Z2k<100>>("Z2k100");
    case 7: return mat_msg<scl::FF<61>>("FF61");
    case 8: return mat_msg<scl::FF<127>>("FF127");
    case 9: return mat_msg<scl::Z2k<17>>("Z2k17");
    case 10: return mat_msg<scl::Z2k<100>>("Z2k100");
    case 11: return array_msg<uint32_t>("uint32");
    case 12: return array_msg<unsigned char>("bytes");
    case 13: return array_msg<Rec>("records");
    case 14: return scalar_msg<u64>("uint64");
    case 15: return scalar_msg<Rec>("record");
    case 16: return field_scalar<scl::FF<61>>("FF61");
    case 17: return vec_msg<scl::Z2k<64>>("Z2k64");
    case 18: return vec_msg<scl::Z2k<128>>("Z2k128");
    default: return field_scalar<scl::FF<127>>("FF127");
  }
}
enum Kind { PLAIN, THREADED, MEM };
// Runs sender and receiver over a channel of the given kind.
sim::Outcome duplex(Kind kind, std::function<void(scl::Channel*)> a, std::function<void(scl::Channel*)> b, bool close_after_a) {
  if (kind == MEM) {
    int host = sim::add_host("10.0.0.1");
    sim::spawn("process", host, [=] {
      auto c = scl::InMemoryChannel::CreatePaired();
      std::thread t([&] { a(c[0].get()); });
      b(c[1].get());
      t.join();
    });
    return sim::run();
  }
  Mesh m = make_mesh(2, false);
  m.threaded = kind == THREADED;
  for (int i = 0; i < 2; ++i) sim::spawn("party", m.hosts[i], [=] {
    sim::set_phase("connect");
    auto net = connect(m, i);
    sim::barrier("connected", 2);
    sim::set_phase("messages");
    if (i == 0) a(net->Party(1)); else b(net->Party(0));
    if (i == 1 || close_after_a) { net->Close(); return; }
    if (!close_after_a && i == 0) { unsigned char x; try { net->Party(1)->Recv(&x, 1); } catch (...) {} }   // until the receiver has finished
    net->Close();
  }, start_delay());
  return sim::run();
}
void guard() { sim::cfg.guard_alloc = sim::chance(K, 1, 2); }

void intact(Kind kind) {
  sim::draw_network(true, 0);
  guard();
  int n = 1 + (int)sim::choose(W, 8);
  auto* ms = new std::vector<Msg>();
  std::string d;
  size_t tot = 0;
  for (int i = 0; i < n; ++i) { ms->push_back(draw_msg()); d += ms->back().what + " "; tot += ms->back().payload; }
  if (sim::cfg.cap * 4000 < tot) sim::cfg.cap = 256;
  sim::describe(std::string(kind == MEM ? "in-memory: " : kind == THREADED ? "threaded: " : "tcp: ") + d);
  auto out = duplex(kind, [=](scl::Channel* c) { for (auto& m : *ms) m.send(c); },
                    [=](scl::Channel* c) {
                      for (auto& m : *ms) { m.recv(c); if (sim::violated()) return; sim::probe("messages_verified"); }
                      sim::set_phase("received");
                    }, false);
  if (sim::violated()) return;
  for (int i = 0; i < (kind == MEM ? 1 : 2); ++i) if (sim::info(i).status == sim::FAILED) { sim::violation("message-failed", sim::info(i).why + "; " + d); return; }
  if (out != sim::DONE) sim::violation("message-hangs", sim::blocked_report() + "; " + d);
}

// Headers that announce more than the limit, followed by as much data as the victim may ask for.
struct Hdr { bool mat; uint32_t a, b; };
void hostile(Kind kind) {
  sim::draw_network(true, 0);
  if (sim::cfg.cap < 256) sim::cfg.cap = 256;
  guard();
  auto* h = new Hdr;
  h->mat = sim::chance(W, 1, 2);
  auto big = [&]() -> uint32_t {
    switch (sim::choose(W, 5)) { case 0: return (uint32_t)(LIMIT + 1); case 1: return (uint32_t)(LIMIT + 1 + sim::logu(W, 4000)); case 2: return 0xFFFFFFFFu; case 3: return 1u << (11 + sim::choose(W, 21)); default: return 0x80000000u + (uint32_t)sim::logu(W, 1000); }
  };
  if (h->mat) {
    switch (sim::choose(W, 5)) {
      case 0: h->a = 33; h->b = 32; break;
      case 1: h->a = 1 + (uint32_t)sim::choose(W, 40); h->b = big(); break;
      case 2: h->a = big(); h->b = 1 + (uint32_t)sim::choose(W, 40); break;
      case 3: h->a = 1u << 16; h->b = 1u << 16; break;                   // product 0 in 32 bits
      default: { static const uint32_t p[][2] = {{0x10000, 0x10001}, {0x80000000u, 2}, {0x40000001u, 4}, {641, 6700417}, {0xFFFFFFFFu, 0xFFFFFFFFu}, {1u << 31, 1u << 31}}; int i = (int)sim::choose(W, 6); h->a = p[i][0]; h->b = p[i][1]; }
    }
  } else { h->a = big(); h->b = 0; }
  bool wide = sim::chance(W, 1, 2);
  std::string d = std::string(h->mat ? "matrix header " : "vector header ") + std::to_string(h->a) + (h->mat ? "x" + std::to_string(h->b) : "");
  sim::describe("hostile " + d);
  // enough to satisfy a reader that believes the announcement, within reason
  u64 el = h->mat ? (u64)h->a * h->b : h->a;
  size_t tail = (size_t)std::min<u64>(el < (1ull << 40) ? el * 16 : 1 << 17, 1 << 17);
  bool* accepted = new bool(false);
  bool* rejected = new bool(false);
  auto out = duplex(kind, [=](scl::Channel* c) {
    c->Send(h->a);
    if (h->mat) c->Send(h->b);
    std::vector<unsigned char> b(tail, 0);
    if (kind == MEM || kind == THREADED) c->Send(b.data(), b.size());
    else try { c->Send(b.data(), b.size()); } catch (const std::exception&) {}
  }, [=](scl::Channel* c) {
    try {
      if (h->mat) { if (wide) { scl::Mat<scl::FF<127>> m; c->Recv(m); } else { scl::Mat<scl::FF<61>> m; c->Recv(m); } }
      else { if (wide) { scl::Vec<scl::FF<127>> v; c->Recv(v); } else { scl::Vec<scl::FF<61>> v; c->Recv(v); } }
      *accepted = true;
    } catch (const std::bad_alloc&) { sim::violation("limit-not-enforced", "the receiver tried to allocate what the header announced: " + d); }
    catch (const std::exception&) { *rejected = true; }
  }, true);
  if (sim::violated()) return;
  if (*accepted) { sim::violation("limit-not-enforced", "accepted " + d); return; }
  if (!*rejected) sim::violation("limit-not-enforced", "no error for " + d + ": " + sim::blocked_report());
  (void)out;
  sim::probe("hostile_headers_rejected");
}

// The connection ends in the middle of a message.
void truncated(Kind kind) {
  sim::draw_network(true, 0);
  guard();
  auto* m = new Msg;
  do { *m = draw_msg(); } while (m->payload == 0);
  auto* whole = new int((int)sim::choose(W, 3));
  auto* ms = new std::vector<Msg>();
  for (int i = 0; i < *whole; ++i) ms->push_back(draw_msg());
  size_t keep = sim::choose(W, m->payload);
  size_t tot = m->payload;
  for (auto& x : *ms) tot += x.payload;
  if (sim::cfg.cap * 4000 < tot) sim::cfg.cap = 256;
  sim::describe("truncated " + m->what + " after " + std::to_string(keep) + " of " + std::to_string(m->payload) + " bytes");
  bool* err = new bool(false);
  bool* ret = new bool(false);
  int* seen = new int(0);
  auto out = duplex(kind, [=](scl::Channel* c) {
    for (auto& x : *ms) x.send(c);
    // the bytes of the message come from an in-memory channel the message is sent on
    auto tmp = scl::InMemoryChannel::CreateSelfConnecting();
    scl::Channel* tc = tmp.get();
    m->send(tc);
    std::vector<unsigned char> b(keep);
    tc->Recv(b.data(), keep);
    c->Send(b.data(), keep);
  }, [=](scl::Channel* c) {
    try {
      for (auto& x : *ms) { x.recv(c); ++*seen; }
    } catch (const std::exception& e) { sim::violation("message-failed", std::string("a complete message before the truncated one: ") + e.what()); return; }
    try { m->recv(c); *ret = true; } catch (const std::exception&) { *err = true; }
  }, true);
  if (sim::violated()) return;
  if (*ret) { sim::violation("truncated-message-returned", m->what + " was returned although only " + std::to_string(keep) + " of " + std::to_string(m->payload) + " bytes were sent"); return; }
  if (out != sim::DONE) { sim::violation("truncated-message-hangs", sim::blocked_report()); return; }
  if (!*err) sim::violation("truncated-message-lost", "the receiver ended without an error");
  sim::probe("truncated_rejected");
}
}  // namespace
SCENARIO(C08, tcp, 3) { intact(PLAIN); }
SCENARIO(C08, threaded, 2) { intact(THREADED); }
SCENARIO(C08, in_memory, 2) { intact(MEM); }
SCENARIO(C08, hostile_tcp, 2) { hostile(PLAIN); }
SCENARIO(C08, hostile_mem, 1) { hostile(MEM); }
SCENARIO(C08, truncated_tcp, 2) { truncated(PLAIN); }
SCENARIO(C08, truncated_threaded, 1) { truncated(THREADED); }
