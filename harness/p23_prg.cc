// C23: generators with a common seed.
#include "proto.h"
#include "scl/prg.h"
#include <set>
#include <thread>
using namespace h;

namespace {
using Bytes = std::vector<unsigned char>;
enum Op { INTO_POINTER, INTO_VECTOR, INTO_PREFIX, RETURNED, RESET, FIELD, REFUSED_PREFIX };
struct Req { Op op; size_t n; };
struct Seq { Bytes seed; bool default_seed = false; std::vector<Req> reqs; };
size_t draw_size() { switch (sim::weighted(W, {2, 4, 2, 1})) { case 0: return sim::choose(W, 3); case 1: return sim::choose(W, 70); case 2: return 16 * (1 + sim::choose(W, 8)); default: return sim::logu(W, 9000); } }
Seq draw_seq(bool resets) {
  Seq s;
  s.default_seed = sim::chance(W, 1, 8);
  s.seed.assign(16, 0);
  if (!s.default_seed) { for (auto& b : s.seed) b = (unsigned char)sim::choose(W, 256); if (sim::chance(W, 1, 6)) for (int i = 1; i < 16; ++i) s.seed[i] = 0; }
  int n = 1 + (int)sim::choose(W, 14);
  bool small = sim::chance(W, 1, 8);                       // less than a block at a time
  for (int i = 0; i < n; ++i) { Op o = (Op)sim::weighted(W, {4, 2, 1, 2, resets ? 2u : 0u, 1, 1}); s.reqs.push_back({o, small ? 1 + sim::choose(W, 15) : draw_size()}); }
  return s;
}
scl::PRG make(const Seq& s) { return s.default_seed ? scl::PRG() : scl::PRG(s.seed.data()); }
// Executes one request; the answer is what was drawn (empty for a reset).
Bytes serve(scl::PRG& g, const Req& r, bool& damage) {
  Bytes b(r.n, 0xA5);
  switch (r.op) {
    case INTO_POINTER: {
      Bytes big(r.n + 64, 0xA5);
      g.Next(big.data() + 32, r.n);
      for (size_t i = 0; i < big.size(); ++i) if ((i < 32 || i >= 32 + r.n) && big[i] != 0xA5) damage = true;
      return Bytes(big.begin() + 32, big.begin() + 32 + r.n);
    }
    case INTO_VECTOR: g.Next(b); return b;
    case INTO_PREFIX: {
      Bytes big(r.n + 9, 0xA5);
      g.Next(big, r.n);
      for (size_t i = r.n; i < big.size(); ++i) if (big[i] != 0xA5) damage = true;
      big.resize(r.n);
      return big;
    }
    case RETURNED: { Bytes x = g.Next(r.n); if (x.size() != r.n) damage = true; return x; }
    case RESET: g.Reset(); return {};
    case FIELD: { tp::FF x = tp::FF::Random(g); Bytes o(8); x.Write(o.data()); return o; }
    default: {
      bool threw = false;
      try { g.Next(b, r.n + 1); } catch (const std::exception&) { threw = true; }
      if (!threw || b != Bytes(r.n, 0xA5)) damage = true;
      return {};
    }
  }
}
std::string show(const Req& r) { static const char* n[] = {"Next(ptr,", "Next(vector ", "Next(vector, ", "Next(", "Reset(", "Random(", "Next(too short "}; return n[r.op] + std::to_string(r.n) + ")"; }
std::string show(const Seq& s) { std::string r = s.default_seed ? "default seed:" : "seed " + std::to_string(s.seed[0]) + ".." + std::to_string(s.seed[15]) + ":"; for (auto& q : s.reqs) r += " " + show(q); return r; }

struct Twin { Seq* seq; std::vector<Bytes> ans; int at = 0; };
void play(Twin& t) {
  scl::PRG g = make(*t.seq);
  if (memcmp(g.Seed(), t.seq->seed.data(), 16)) sim::violation("seed-not-kept", show(*t.seq));
  for (auto& r : t.seq->reqs) {
    bool damage = false;
    t.ans.push_back(serve(g, r, damage));
    if (damage) { sim::violation("wrote-elsewhere", show(r) + " in " + show(*t.seq)); return; }
    ++t.at;
    sim::yield();
  }
}
// No block of output repeats between resets, and a reset replays from the start: the answer to the
// requests after it equals that of a fresh generator.
void judge(const Twin& t) {
  std::set<std::string> blocks;
  size_t nblocks = 0, alike = 0;
  const Bytes* before = nullptr;                           // the answer to the previous request when it was short
  for (size_t i = 0; i < t.seq->reqs.size() && i < t.ans.size(); ++i) {
    auto& a = t.ans[i];
    if (t.seq->reqs[i].op == RESET) { blocks.clear(); before = nullptr; continue; }
    // Short answers one after the other: each is too short to say that it is a repetition, together they are not.
    if (!a.empty() && a.size() <= 8) {
      size_t m = before ? std::min(before->size(), a.size()) : 0;
      if (m && !memcmp(before->data(), a.data(), m) && (alike += m) >= 9) { sim::violation("randomness-repeated", "consecutive short requests get the same bytes, e.g. " + show(t.seq->reqs[i]) + " in " + show(*t.seq)); return; }
      before = &a;
    }
    for (size_t o = 0; o + 16 <= a.size(); o += 16) {
      ++nblocks;
      if (!blocks.insert(std::string((char*)&a[o], 16)).second) { sim::violation("randomness-repeated", show(t.seq->reqs[i]) + " returns a block drawn before, in " + show(*t.seq)); return; }
    }
    // shorter answers and tails: eight or more bytes must not be the beginning of an earlier block
    size_t tail = a.size() % 16;
    if (tail >= 8) {
      std::string x((char*)&a[a.size() - tail], tail);
      auto it = blocks.lower_bound(x);
      if (it != blocks.end() && it->compare(0, tail, x) == 0) { sim::violation("randomness-repeated", show(t.seq->reqs[i]) + " ends like a block drawn before, in " + show(*t.seq)); return; }
      blocks.insert(x + std::string(16 - tail, 0));
    }
  }
  sim::probe("blocks_distinct", nblocks);
  // replay from the last reset
  size_t last = 0;
  bool any = false;
  for (size_t i = 0; i < t.seq->reqs.size(); ++i) if (t.seq->reqs[i].op == RESET) { last = i + 1; any = true; }
  if (any) {
    scl::PRG g = make(*t.seq);
    for (size_t i = last; i < t.seq->reqs.size() && i < t.ans.size(); ++i) {
      bool damage = false;
      if (serve(g, t.seq->reqs[i], damage) != t.ans[i]) { sim::violation("reset-does-not-replay", show(t.seq->reqs[i]) + " after the reset in " + show(*t.seq)); return; }
    }
    sim::probe("resets_replayed");
  }
}
bool same(const Twin& a, const Twin& b, const char* who) {
  for (size_t i = 0; i < a.ans.size() && i < b.ans.size(); ++i) if (a.ans[i] != b.ans[i]) {
    sim::violation("twins-differ", std::string(who) + ": request " + std::to_string(i) + " " + show(a.seq->reqs[i]) + " of " + show(*a.seq));
    return false;
  }
  return true;
}
}  // namespace

// Threads of one process and generators of other processes, all interleaved.
SCENARIO(C23, twins, 4) {
  sim::cfg.guard_alloc = sim::chance(K, 1, 8);
  if (sim::chance(K, 1, 2)) sim::cfg.fine = 1 + (unsigned)sim::logu(K, 200);
  int pairs = 1 + (int)sim::choose(W, 3), procs = 1 + (int)sim::choose(W, 2);
  auto* seqs = new std::vector<Seq>;
  for (int i = 0; i < pairs; ++i) seqs->push_back(draw_seq(true));
  auto* tw = new std::vector<Twin>;
  for (int i = 0; i < 2 * pairs; ++i) { Twin t; t.seq = &(*seqs)[i / 2]; tw->push_back(t); }
  std::string d;
  for (auto& s : *seqs) d += (d.empty() ? "" : " | ") + show(s);
  sim::describe(d);
  for (int p = 0; p < procs; ++p) sim::spawn("process", sim::add_host("10.0.0." + std::to_string(p + 1)), [=] {
    std::vector<std::thread> th;
    for (int i = 0; i < 2 * pairs; ++i) if (i % procs == p) th.emplace_back([tw, i] { play((*tw)[i]); });
    for (auto& t : th) t.join();
  });
  auto out = sim::run();
  if (sim::violated()) return;
  for (int p = 0; p < procs; ++p) if (sim::info(p).status != sim::EXITED) { sim::violation("process-failed", sim::info(p).why); return; }
  if (out != sim::DONE) { sim::violation("hang", sim::blocked_report()); return; }
  for (int i = 0; i < pairs; ++i) { if (!same((*tw)[2 * i], (*tw)[2 * i + 1], "interleaved twins")) return; judge((*tw)[2 * i]); if (sim::violated()) return; }
  sim::probe("pairs_compared", pairs);
}
// One long stream, asked for at once or in parts: no block of it repeats, and both agree.
SCENARIO(C23, long_stream, 1) {
  if (!sim::chance(W, 1, 12)) {
    // most runs stay short: a stream costs up to seconds
    auto* s = new Seq(draw_seq(true));
    sim::describe(show(*s));
    sim::spawn("process", sim::add_host("10.0.0.1"), [=] { Twin a; a.seq = s; play(a); if (!sim::violated()) judge(a); });
    sim::run();
    if (!sim::violated() && sim::info(0).status != sim::EXITED) sim::violation("process-failed", sim::info(0).why);
    return;
  }
  auto* s = new Seq(draw_seq(false));
  size_t total = sim::chance(W, 1, 40) ? 280000000 : (1 << 20) + sim::logu(W, 63 << 20);
  total = total / 16 * 16;
  bool parts = sim::chance(W, 1, 2);
  std::vector<size_t> cuts;
  for (size_t left = total; parts && left;) { size_t k = std::min(left, 16 * (1 + sim::logu(W, total / 16)) + total / 200 / 16 * 16); cuts.push_back(k); left -= k; }
  sim::describe("a stream of " + std::to_string(total) + " bytes, " + (parts ? "in " + std::to_string(cuts.size()) + " parts" : "at once"));
  sim::spawn("process", sim::add_host("10.0.0.1"), [=] {
    scl::PRG g = make(*s), f = make(*s);
    Bytes all(total);
    if (parts) { size_t o = 0; for (size_t k : cuts) { g.Next(all.data() + o, k); o += k; sim::yield(); } }
    else g.Next(all.data(), total);
    std::vector<u64> b(total / 8);
    memcpy(b.data(), all.data(), total);
    // whatever two blocks have in common, not both halves
    std::vector<std::pair<u64, u64>> h;
    if (total <= (80 << 20)) {
      for (size_t i = 0; i + 1 < b.size(); i += 2) h.push_back({b[i], b[i + 1]});
      std::sort(h.begin(), h.end());
      for (size_t i = 1; i < h.size(); ++i) if (h[i] == h[i - 1]) { sim::violation("randomness-repeated", "a block occurs twice in a stream of " + std::to_string(total) + " bytes"); return; }
    } else for (size_t i = 2; i + 1 < b.size(); i += 2) if (b[i] == b[0] && b[i + 1] == b[1]) { sim::violation("randomness-repeated", "the first block occurs again after " + std::to_string(i * 8) + " bytes"); return; }
    Bytes x(16 * (1 + total % 7));
    f.Next(x.data(), x.size());
    if (memcmp(x.data(), all.data(), x.size())) { sim::violation("twins-differ", "the beginning of a stream of " + std::to_string(total) + " bytes"); return; }
    g.Reset();
    g.Next(x.data(), x.size());
    if (memcmp(x.data(), all.data(), x.size())) { sim::violation("reset-does-not-replay", "after a stream of " + std::to_string(total) + " bytes"); return; }
    sim::probe("long_streams", 1);
  });
  sim::run();
  if (!sim::violated() && sim::info(0).status != sim::EXITED) sim::violation("process-failed", sim::info(0).why);
}
// A copy continues like the original; both are independent afterwards.
SCENARIO(C23, copies, 1) {
  if (sim::chance(K, 1, 2)) sim::cfg.fine = 1 + (unsigned)sim::logu(K, 200);
  auto* s = new Seq(draw_seq(false));
  size_t at = sim::choose(W, s->reqs.size());
  sim::describe("copy at request " + std::to_string(at) + " of " + show(*s));
  sim::spawn("process", sim::add_host("10.0.0.1"), [=] {
    Twin a;
    a.seq = s;
    play(a);
    scl::PRG g = make(*s);
    bool dm = false;
    for (size_t i = 0; i < at; ++i) serve(g, s->reqs[i], dm);
    scl::PRG c = g;
    std::vector<std::thread> th;
    th.emplace_back([&] { bool d2 = false; for (size_t i = at; i < s->reqs.size(); ++i) { if (serve(g, s->reqs[i], d2) != a.ans[i]) sim::violation("twins-differ", "original after it was copied: " + show(*s)); sim::yield(); } });
    th.emplace_back([&] { bool d2 = false; for (size_t i = at; i < s->reqs.size(); ++i) { if (serve(c, s->reqs[i], d2) != a.ans[i]) sim::violation("twins-differ", "copy: " + show(*s)); sim::yield(); } });
    for (auto& t : th) t.join();
    sim::probe("copies_compared");
  });
  sim::run();
  if (!sim::violated() && sim::info(0).status != sim::EXITED) sim::violation("process-failed", sim::info(0).why);
}
// Memory runs out during some request: it fails with an error and writes nothing.
SCENARIO(C23, no_memory, 3) {
  auto* s = new Seq(draw_seq(true));
  for (auto& r : s->reqs) if (r.n == 0) r.n = 1;
  size_t at = sim::choose(F, s->reqs.size());
  s->reqs[at].op = sim::chance(F, 2, 3) ? INTO_POINTER : RETURNED;
  u64 nth = 1 + sim::choose(F, 2);
  sim::describe("allocation failure in request " + std::to_string(at) + " of " + show(*s));
  sim::spawn("process", sim::add_host("10.0.0.1"), [=] {
    sim::set_phase("draw");
    Twin a;
    a.seq = s;
    play(a);
    scl::PRG g = make(*s);
    bool dm = false;
    for (size_t i = 0; i < at; ++i) serve(g, s->reqs[i], dm);
    size_t n = s->reqs[at].n;
    Bytes dest(n + 32, 0x5A);
    bool threw = false;
    Bytes ret;
    if (s->reqs[at].op == INTO_POINTER) {
      sim::arm_alloc_failure(0, 1);
      try { g.Next(dest.data() + 16, n); } catch (const std::exception&) { threw = true; }
      sim::arm_alloc_failure(0, 0);
      if (threw && dest != Bytes(n + 32, 0x5A)) { sim::violation("wrote-without-memory", "the failed request changed its destination: " + show(*s)); return; }
      if (!threw) ret.assign(dest.begin() + 16, dest.begin() + 16 + n);
    } else {
      sim::arm_alloc_failure(0, nth);
      try { ret = g.Next(n); } catch (const std::exception&) { threw = true; }
      sim::arm_alloc_failure(0, 0);
    }
    if (!threw && ret != a.ans[at]) { sim::violation("not-random-without-memory", "request " + show(s->reqs[at]) + " succeeds without memory but returns something else: " + show(*s)); return; }
    sim::probe(threw ? "requests_refused_without_memory" : "requests_served_without_that_allocation");
    // whatever the generator does next, it does not repeat what was drawn before
    std::set<std::string> seen;
    for (size_t i = 0; i < at; ++i) { if (s->reqs[i].op == RESET) seen.clear(); else if (s->reqs[i].op != FIELD) for (size_t o = 0; o + 16 <= a.ans[i].size(); o += 16) seen.insert(std::string((char*)&a.ans[i][o], 16)); }
    Bytes more(48);
    g.Next(more.data(), 48);
    for (size_t o = 0; o < 48; o += 16) if (seen.count(std::string((char*)&more[o], 16))) { sim::violation("randomness-repeated", "after a failed request: " + show(*s)); return; }
    g.Reset();
    scl::PRG f = make(*s);
    Bytes x(40), y(40);
    g.Next(x);
    f.Next(y);
    if (x != y) { sim::violation("reset-does-not-replay", "after a failed request: " + show(*s)); return; }
  });
  sim::run();
  if (!sim::violated() && sim::info(0).status != sim::EXITED) sim::violation("process-failed", sim::info(0).why);
}
// Parties agree on a seed over the network; each draws while it is busy with protocol traffic of other sizes.
SCENARIO(C23, common_seed, 2) {
  int n = 2 + (int)sim::choose(W, 4);
  auto* s = new Seq(draw_seq(true));
  s->default_seed = false;
  sim::draw_network(true, 4096);
  plan_stalls(n, 3);
  Mesh m = make_mesh(n, true);
  sim::describe("n=" + std::to_string(n) + " " + show(*s));
  auto* tw = new std::vector<Twin>(n);
  std::vector<std::vector<u64>> own(n);
  for (auto& v : own) for (int i = 0, k = (int)sim::choose(W, 6); i < k; ++i) v.push_back(1 + sim::choose(W, 40));
  for (int i = 0; i < n; ++i) sim::spawn("party", m.hosts[i], [=] {
    sim::set_phase("connect");
    auto net = connect(m, i);
    sim::set_phase("seed");
    unsigned char seed[16];
    if (i == 0) for (int p = 0; p < n; ++p) net->Party(p)->Send(s->seed.data(), 16);
    net->Party(0)->Recv(seed, 16);
    sim::set_phase("draw");
    scl::PRG mine(seed), other;
    Twin& t = (*tw)[i];
    t.seq = s;
    size_t q = 0;
    for (auto& r : s->reqs) {
      if (q < own[i].size()) other.Next(own[i][q++]);
      bool dm = false;
      t.ans.push_back(serve(mine, r, dm));
      if (dm) { sim::violation("wrote-elsewhere", show(r)); return; }
      sim::yield();
    }
    // compare over the wire as well
    Bytes sum(8, 0);
    for (auto& a : t.ans) for (size_t k = 0; k < a.size(); ++k) sum[k % 8] = (unsigned char)(sum[k % 8] * 31 + a[k]);
    for (int p = 0; p < n; ++p) net->Party(p)->Send(sum.data(), 8);
    for (int p = 0; p < n; ++p) { Bytes x(8); net->Party(p)->Recv(x.data(), 8); if (x != sum) { sim::violation("twins-differ", "parties " + std::to_string(i) + " and " + std::to_string(p) + ": " + show(*s)); return; } }
    sim::barrier("end", n);
    net->Close();
  }, start_delay());
  auto out = sim::run();
  if (sim::violated()) return;
  for (int i = 0; i < n; ++i) if (sim::info(i).status != sim::EXITED) { sim::violation("party-failed", sim::info(i).why); return; }
  if (out != sim::DONE) { sim::violation("hang", sim::blocked_report()); return; }
  for (int i = 1; i < n; ++i) if (!same((*tw)[0], (*tw)[i], "parties")) return;
  judge((*tw)[0]);
  sim::probe("parties_compared", n);
}
