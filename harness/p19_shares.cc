// C19: secrets shared among parties, reconstructed from shares received over the network while up to t
// of the senders lie (in a coordinated way) or die.
#include "proto.h"
#include "scl/math/z2k.h"
#include "scl/ss/additive.h"
#include "scl/ss/packed.h"
#include "scl/ss/shamir.h"
#include <mutex>
#include <thread>
using namespace h;

namespace {
enum Kind { DETECT, ROBUST, PASSIVE, ADDITIVE, PACKED };
const char* kind_names[] = {"detect", "robust", "passive", "additive", "packed"};
enum Lie { RANDOM, PLUS_ONE, ZERO, SOMEONE_ELSES, NEARBY_POLYNOMIAL, SHIFTED_POLYNOMIAL, NLIES };
const char* lie_names[] = {"random values", "off by one", "zeros", "another party's share", "a polynomial that agrees with the true one at t honest points", "the sharing of another secret"};

template <typename T> std::string bytes(const T& x) { std::string s(T::ByteSize(), 0); x.Write((unsigned char*)s.data()); return s; }
template <typename T> T draw() {
  unsigned char b[16];
  switch (sim::weighted(W, {1, 1, 1, 6, 1})) {
    case 4: { T x(1); for (size_t e = sim::choose(W, 8 * T::ByteSize()); e-- > 0;) x = x + x; return x - T((int)sim::choose(W, 3) - 1); }   // next to a power of two
    case 0: return T(0);
    case 1: return T(1);
    case 2: return T(-1);
    default: for (int i = 0; i < 16; i += 4) { uint32_t w = (uint32_t)sim::choose(W, 1ull << 32); memcpy(b + i, &w, 4); } return T::Read(b);
  }
}
template <typename T> T draw_nonzero() { T x = draw<T>(); return x == T(0) ? T(7) : x; }

template <typename T> struct Item {
  Kind kind;
  size_t t = 1, deg = 1;
  int dealer = 0, receiver = 0;
  bool canonical = true;           // points 1..n, secret at 0
  std::vector<T> secrets;          // one, or the packed vector
  scl::Vec<T> alphas;
  T pos;
  Lie lie = RANDOM;
  std::vector<T> shares;           // what the dealer handed out
  std::vector<T> sent;             // what every party sends to the receiver
};
template <typename T> struct Job {
  int n = 0;
  std::vector<Item<T>> items;
  std::vector<char> liar;
  bool arrival = false;            // shares are used in the order of their arrival
  bool deaths = false;
  unsigned char seed[16];
  int done = 0;
};

template <typename T> void deal(Job<T>* j, Item<T>& it, scl::PRG& prg) {
  scl::Vec<T> sh;
  size_t n = j->n;
  switch (it.kind) {
    case ADDITIVE: sh = scl::CreateAdditiveShares(it.secrets[0], n, prg); break;
    case PACKED: {
      scl::Vec<T> s(it.secrets);
      if (it.secrets.size() == 1) sh = scl::details::SharesFromEvPoly(scl::details::EvPolyFromSecretAndPointAndDegree(it.secrets[0], it.pos, it.deg, prg), n);
      else sh = scl::details::SharesFromEvPoly(scl::details::EvPolyFromSecretsAndDegree(s, it.deg, prg), n);
      break;
    }
    default:
      if (it.canonical) sh = scl::CreateShamirShares(it.secrets[0], n, it.t, prg);
      else {
        // the secret sits at it.pos: shift the points of a polynomial whose constant term it is
        auto p = scl::details::CreateShamirSharePolynomial(it.secrets[0], it.t, prg);
        scl::Vec<T> shifted(n);
        for (size_t i = 0; i < n; ++i) shifted[i] = it.alphas[i] - it.pos;
        sh = scl::CreateShamirShares(p, shifted);
      }
  }
  it.shares.assign(sh.begin(), sh.end());
}
// What the liars send instead of their shares.
template <typename T> void corrupt(Job<T>* j, Item<T>& it, u64 salt) {
  it.sent = it.shares;
  if (it.kind == ADDITIVE || it.kind == PACKED) return;
  size_t n = j->n;
  T c = it.secrets[0] + T((int)(1 + salt % 1000));
  if (c == T(0)) c = T(3);
  std::vector<size_t> vanish;                 // t honest points where the nearby polynomial agrees
  for (size_t i = 0; i < n && vanish.size() < it.t; ++i) if (!j->liar[(i + salt) % n]) vanish.push_back((i + salt) % n);
  for (size_t i = 0; i < n; ++i) if (j->liar[i]) {
    T& s = it.sent[i];
    switch (it.lie) {
      case RANDOM: { unsigned char b[16]; u64 a = (salt + 77 * i) * 0x9E3779B97F4A7C15ull, d = a * 0xD1342543DE82EF95ull; memcpy(b, &a, 8); memcpy(b + 8, &d, 8); s = T::Read(b); break; }
      case PLUS_ONE: s = s + T(1); break;
      case ZERO: s = T(0); break;
      case SOMEONE_ELSES: s = it.shares[(i + 1 + salt % (n - 1)) % n]; break;
      case NEARBY_POLYNOMIAL: { T d = c; for (size_t v : vanish) d *= it.alphas[i] - it.alphas[v]; s = s + d; break; }
      default: s = s + c;
    }
  }
}
// Fewer shares (or points) than the kind of reconstruction needs are refused.
template <typename T> bool refused(Item<T>& it, const scl::Vec<T>& sh, const scl::Vec<T>& al, bool in_order) {
  try {
    switch (it.kind) {
      case DETECT: if (in_order) scl::ReconstructShamir(sh, it.t); else scl::ReconstructShamir(sh, al, it.pos, it.t); break;
      case ROBUST: if (in_order) scl::ReconstructShamirRobust(sh, it.t); else scl::ReconstructShamirRobust(sh, al, it.t)[0].Evaluate(it.pos); break;
      default: if (in_order) scl::ReconstructShamirPassive(sh, it.t); else scl::ReconstructShamirPassive(sh, al, it.pos, it.t);
    }
  } catch (const std::exception&) { sim::probe("too_few_shares_refused"); return true; }
  return false;
}
template <typename T> bool too_few(Job<T>* j, Item<T>& it, const std::vector<int>& order, const std::vector<T>& got, size_t most) {
  if (it.kind > PASSIVE) return true;
  size_t m = std::min(order.size(), most), m2 = m;
  bool in_order = it.canonical;
  if ((j->seed[2] + m) % 4 == 0 && m < got.size()) { in_order = false; if (j->seed[3] % 2) m = got.size(); else m2 = got.size(); }   // enough shares, too few points, or the other way
  scl::Vec<T> sh(m), al(m2);
  for (size_t i = 0; i < m; ++i) { sh[i] = got[i]; in_order = in_order && order[i] == (int)i; }
  for (size_t i = 0; i < m2; ++i) al[i] = it.alphas[order[i]];
  if (refused(it, sh, al, in_order)) return true;
  sim::violation("too-few-shares-accepted", std::string(kind_names[it.kind]) + " reconstruction, t=" + std::to_string(it.t) + ", from " + std::to_string(m) + " shares and " + std::to_string(m2) + " points");
  return false;
}
template <typename T> bool right(Item<T>& it, int i) { return bytes(it.sent[i]) == bytes(it.shares[i]); }

template <typename T> void judge(Job<T>* j, Item<T>& it, const std::vector<int>& order, const std::vector<T>& got) {
  std::string what = std::string(kind_names[it.kind]) + " reconstruction, t=" + std::to_string(it.t) + ", " + std::to_string(order.size()) + " of n=" + std::to_string(j->n) + " shares, liars send " + lie_names[it.lie];
  size_t m = order.size();
  scl::Vec<T> sh(m), al(m);
  bool in_order = it.canonical;
  for (size_t i = 0; i < m; ++i) { sh[i] = got[i]; al[i] = it.alphas[order[i]]; in_order = in_order && order[i] == (int)i; }
  T r;
  std::string want = bytes(it.secrets[0]);
  switch (it.kind) {
    case DETECT: {
      size_t need = 2 * it.t + 1;
      bool clean = true, all = true;
      for (size_t i = 0; i < m; ++i) { all = all && right(it, order[i]); if (i < need) clean = clean && right(it, order[i]); }
      bool threw = false;
      std::string why;
      try { r = in_order ? scl::ReconstructShamir(sh, it.t) : scl::ReconstructShamir(sh, al, it.pos, it.t); } catch (const std::exception& e) { threw = true; why = e.what(); }
      if (!threw && !clean) { sim::violation("wrong-share-not-detected", what); return; }
      if (!threw && bytes(r) != want) { sim::violation("wrong-secret", what); return; }
      if (threw && all) { sim::violation("correct-shares-refused", what + ": " + why); return; }
      sim::probe(clean ? "detection_clean" : "detection_of_wrong_shares");
      break;
    }
    case ROBUST: {
      try {
        if (in_order) r = scl::ReconstructShamirRobust(sh, it.t);
        else r = scl::ReconstructShamirRobust(sh, al, it.t)[0].Evaluate(it.pos);
      } catch (const std::exception& e) { sim::violation("not-corrected", what + ": " + e.what()); return; }
      if (bytes(r) != want) { sim::violation("wrong-secret", what); return; }
      int wrong = 0;
      for (size_t i = 0; i < 3 * it.t + 1; ++i) wrong += !right(it, order[i]);
      sim::probe(wrong == (int)it.t ? "correction_of_t_wrong_shares" : wrong ? "correction_of_fewer" : "correction_of_none");
      break;
    }
    case PASSIVE: {
      // any t+1 correct ones
      std::vector<size_t> ok;
      for (size_t i = 0; i < m; ++i) if (right(it, order[i])) ok.push_back(i);
      if (ok.size() < it.t + 1) return;
      bool pfx = in_order;
      for (size_t i = 0; i <= it.t; ++i) pfx = pfx && ok[i] == i;
      if (pfx) r = scl::ReconstructShamirPassive(sh, it.t);
      else {
        scl::Vec<T> s2(it.t + 1), a2(it.t + 1);
        size_t off = ok.size() - it.t - 1;
        for (size_t i = 0; i <= it.t; ++i) { s2[i] = got[ok[off + i]]; a2[i] = al[ok[off + i]]; }
        r = scl::ReconstructShamirPassive(s2, a2, it.pos, it.t);
      }
      if (bytes(r) != want) { sim::violation("wrong-secret", what); return; }
      sim::probe("plain_reconstructions");
      break;
    }
    default: {
      scl::Vec<T> full(j->n);
      for (size_t i = 0; i < m; ++i) full[order[i]] = got[i];
      if (it.kind == ADDITIVE) { if (bytes(scl::ReconstructAdditive(full)) != want) { sim::violation("wrong-secret", what); return; } sim::probe("additive_reconstructions"); break; }
      if (it.secrets.size() == 1) {
        if (bytes(scl::details::SecretFromPointAndShares(it.pos, full)) != want) { sim::violation("wrong-secret", what); return; }
        if (it.pos == T(0) && bytes(scl::details::SecretFromShares(full)) != want) { sim::violation("wrong-secret", what + " at 0"); return; }
      } else {
        auto s = scl::details::SecretsFromSharesAndLength(full, it.secrets.size());
        for (size_t i = 0; i < it.secrets.size(); ++i) if (s.Size() != it.secrets.size() || bytes(s[i]) != bytes(it.secrets[i])) { sim::violation("wrong-secret", what + ", packed secret " + std::to_string(i)); return; }
      }
      sim::probe("packed_reconstructions");
    }
  }
}

template <typename T> void party(Job<T>* j, int me, std::shared_ptr<scl::Network> net) {
  size_t n = j->n;
  sim::set_phase("deal");
  scl::PRG prg(j->seed);
  std::vector<T> mine;
  for (auto& it : j->items) {
    if (it.dealer == me) { deal(j, it, prg); for (size_t i = 0; i < n; ++i) net->Party(i)->Send(it.shares[i]); }
    T s;
    net->Party(it.dealer)->Recv(s);
    mine.push_back(s);
  }
  sim::barrier("dealt", j->n);
  if (me == 0) for (size_t k = 0; k < j->items.size(); ++k) corrupt(j, j->items[k], 31 * k + j->items[k].t);
  sim::barrier("lies-agreed", j->n);
  for (size_t k = 0; k < j->items.size(); ++k) {
    auto& it = j->items[k];
    if (bytes(mine[k]) != bytes(it.shares[me])) { sim::violation("share-changed", "party " + std::to_string(me)); return; }
  }
  sim::set_phase("reconstruct");
  for (size_t k = 0; k < j->items.size(); ++k) {
    auto& it = j->items[k];
    if (it.receiver != me || !j->liar[me]) net->Party(it.receiver)->Send(j->liar[me] ? it.sent[me] : mine[k]);
    else net->Party(me)->Send(it.sent[me]);
    if (it.receiver != me) continue;
    std::vector<int> order;
    std::vector<T> got;
    std::mutex mx;
    auto take = [&](int p) {
      T x;
      net->Party(p)->Recv(x);
      std::lock_guard<std::mutex> l(mx);
      order.push_back(p);
      got.push_back(x);
    };
    if (j->arrival) {
      std::vector<std::thread> th;
      for (size_t p = 0; p < n; ++p) th.emplace_back([&, p] { try { take((int)p); } catch (const std::exception&) {} });
      for (auto& t : th) t.join();
    } else for (size_t p = 0; p < n; ++p) { try { take((int)p); } catch (const std::exception&) { if (!j->deaths) throw; } }
    size_t need = it.kind == DETECT ? 2 * it.t + 1 : it.kind == ROBUST ? 3 * it.t + 1 : it.kind == PASSIVE ? 0 : n;
    if (it.kind == PASSIVE) need = it.t + 1;
    if ((order.size() < need || j->seed[1] % 3 == 0) && !too_few(j, it, order, got, need - 1)) return;
    if (order.size() < need) continue;          // too few parties left
    for (size_t i = 0; i < order.size(); ++i) if (bytes(got[i]) != bytes(it.sent[order[i]])) { sim::violation("share-changed", "from party " + std::to_string(order[i])); return; }
    // a receiver may pass on more shares than it needs
    judge(j, it, order, got);
    if (sim::violated()) return;
  }
  ++j->done;
}

template <typename T> void run(bool deaths, bool tcp) {
  auto* j = new Job<T>;
  size_t t = 1 + sim::weighted(W, {4, 3, 2, 1});
  bool robust = sim::chance(W, 2, 3);
  size_t need = robust ? 3 * t + 1 : 2 * t + 1;
  int extra = (int)sim::weighted(W, {4, 2, 1, 1});
  int dying = deaths ? 1 + (int)sim::choose(F, t) : 0;
  j->n = (int)need + extra + dying;
  j->deaths = deaths;
  j->arrival = deaths || sim::chance(W, 1, 2);
  for (auto& b : j->seed) b = (unsigned char)sim::choose(W, 256);
  int liars = (int)std::min<u64>(sim::weighted(F, {1, 1, 2, 3, 3}), t);
  if (sim::chance(F, 1, 3)) liars = (int)t;
  j->liar.assign(j->n, 0);
  for (int i = 0; i < liars; ++i) j->liar[sim::choose(F, j->n)] = 1;
  int receiver = (int)sim::choose(W, j->n);
  int items = 1 + (int)sim::choose(W, 4);
  for (int i = 0; i < items; ++i) {
    Item<T> it;
    it.t = t;
    it.kind = deaths ? (robust ? (Kind)sim::choose(W, 3) : sim::chance(W, 2, 3) ? DETECT : PASSIVE)
                     : robust ? (Kind)sim::weighted(W, {2, 5, 1, 1, 1}) : (Kind)sim::weighted(W, {5, 0, 1, 1, 1});
    it.dealer = (int)sim::choose(W, j->n);
    it.receiver = deaths ? receiver : (int)sim::choose(W, j->n);
    it.canonical = sim::chance(W, 1, 2);
    it.alphas = scl::CanonicalAlphas<T>(j->n);
    it.pos = T(0);
    if (it.kind <= PASSIVE && !it.canonical) {
      // distinct points other than the secret's
      it.pos = sim::chance(W, 1, 2) ? T(-(int)sim::choose(W, 5)) : draw<T>();
      std::vector<std::string> used = {bytes(it.pos)};
      for (int p = 0; p < j->n; ++p) {
        T a = sim::chance(W, 1, 2) ? T((int)sim::choose(W, 60)) : draw<T>();
        while (std::find(used.begin(), used.end(), bytes(a)) != used.end()) a = a + T(1);
        used.push_back(bytes(a));
        it.alphas[p] = a;
      }
    }
    int ns = 1;
    if (it.kind == PACKED) {
      ns = 1 + (int)sim::choose(W, 5);
      if (ns > j->n) ns = j->n;
      it.deg = ns - 1 + sim::choose(W, j->n - ns + 1);
      if (ns == 1) it.pos = T(-(int)sim::choose(W, 4));
    }
    for (int s = 0; s < ns; ++s) it.secrets.push_back(draw<T>());
    it.lie = (Lie)sim::choose(F, NLIES);
    j->items.push_back(it);
  }
  int nl = 0;
  for (char c : j->liar) nl += c;
  std::string d = std::string(T::Name()) + ", n=" + std::to_string(j->n) + ", t=" + std::to_string(t) + ", " + std::to_string(nl) + " liars, " + std::to_string(dying) + " dying, " + (j->arrival ? "arrival order:" : "id order:");
  for (auto& it : j->items) d += std::string(" ") + kind_names[it.kind] + (it.canonical ? "" : "@points");
  sim::describe(d);
  if (tcp) {
    sim::draw_network(true, 4096);
    sim::cfg.guard_alloc = sim::chance(K, 1, 8);
    Mesh m = make_mesh(j->n, true);
    // the dying ones are among the liars first: together they are at most t
    std::vector<int> cand;
    for (int i = 0; i < j->n; ++i) if (i != receiver && j->liar[i]) cand.push_back(i);
    for (int i = 0; i < j->n; ++i) if (i != receiver && !j->liar[i]) cand.push_back(i);
    for (int i = 0; i < dying && i < (int)cand.size(); ++i) sim::plan_fault(sim::CRASH, cand[i], 3, sim::logu(F, 12), 0, 0);
    for (int i = 0; i < j->n; ++i) sim::spawn("party", m.hosts[i], [=] {
      sim::set_phase("connect");
      auto net = connect(m, i);
      sim::barrier("connected", j->n);
      party(j, i, net);
      if (!j->deaths) { sim::barrier("end", j->n); net->Close(); }
    }, start_delay());
  } else {
    sim::cfg.spurious = sim::chance(K, 1, 3) ? 60 : 0;
    int host = sim::add_host("10.0.0.1");
    sim::spawn("process", host, [=] {
      auto nets = scl::Network::CreateFullInMemory(j->n);
      std::vector<std::thread> th;
      for (int i = 0; i < j->n; ++i) { auto net = std::make_shared<scl::Network>(nets[i]); th.emplace_back([=] { party(j, i, net); }); }
      for (auto& x : th) x.join();
    });
  }
  auto out = sim::run();
  if (sim::violated()) return;
  for (int i = 0; i < (tcp ? j->n : 1); ++i) if (sim::info(i).status == sim::FAILED) {
    sim::violation("party-failed", "party " + std::to_string(i) + " in " + sim::info(i).phase + ": " + sim::info(i).why);
    return;
  }
  if (out != sim::DONE) { sim::violation("hang-" + outcome_name(out), sim::blocked_report()); return; }
  if (j->done == 0) sim::trivial();
}
}  // namespace
SCENARIO(C19, tcp_61, 4) { run<scl::FF<61>>(false, true); }
SCENARIO(C19, tcp_127, 2) { run<scl::FF<127>>(false, true); }
SCENARIO(C19, memory_61, 2) { run<scl::FF<61>>(false, false); }
SCENARIO(C19, memory_127, 1) { run<scl::FF<127>>(false, false); }
SCENARIO(C19, deaths_61, 3) { run<scl::FF<61>>(true, true); }
SCENARIO(C19, deaths_127, 1) { run<scl::FF<127>>(true, true); }
