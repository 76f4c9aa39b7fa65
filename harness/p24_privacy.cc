// C24: what up to t parties see of an execution gives them no linear or quadratic information about
// the other parties' inputs beyond what their own inputs and outputs determine.
//
// One simulated process runs many executions of one circuit over an in-memory network whose channels
// are wrapped so that every field element a coalition sends or receives is recorded.  The dealers'
// randomness comes from the run's seed (seam in front of scl::PRG::Next), afresh for every execution.
// Each execution gives one row; linear algebra over the field then decides whether some combination of
// the recorded elements is a function of honest values.
#include <thread>
#include "proto.h"
using namespace h;

namespace {
u64 fastmul(u64 a, u64 b) {
  unsigned __int128 p = (unsigned __int128)a * b;
  u64 r = (u64)(p & P61) + (u64)(p >> 61);
  return r >= P61 ? r - P61 : r;
}
u64 rnd_state;
u64 rnd() {
  u64 z = (rnd_state += 0x9E3779B97F4A7C15ull);
  z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
  z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
  return (z ^ (z >> 31)) % P61;
}
// Rank growth by column: result[i] = rank of the first i+1 columns.  Rows are modified.
std::vector<size_t> ranks(std::vector<std::vector<u64>>& m) {
  std::vector<size_t> out;
  if (m.empty()) return out;
  size_t rows = m.size(), cols = m[0].size(), r = 0;
  for (size_t c = 0; c < cols; ++c) {
    size_t p = r;
    while (p < rows && !m[p][c]) ++p;
    if (p < rows) {
      std::swap(m[p], m[r]);
      u64 inv = invm(m[r][c]);
      for (size_t j = c; j < cols; ++j) m[r][j] = fastmul(m[r][j], inv);
      for (size_t i = r + 1; i < rows; ++i) {
        u64 f = m[i][c];
        if (!f) continue;
        for (size_t j = c; j < cols; ++j) m[i][j] = subm(m[i][j], fastmul(f, m[r][j]));
      }
      ++r;
    }
    out.push_back(r);
  }
  return out;
}
// Row echelon form in place; the result names the pivot column of each leading row.
std::vector<size_t> echelon(std::vector<std::vector<u64>>& m) {
  std::vector<size_t> piv;
  size_t rows = m.size(), cols = m[0].size(), r = 0;
  for (size_t c = 0; c < cols && r < rows; ++c) {
    size_t p = r;
    while (p < rows && !m[p][c]) ++p;
    if (p == rows) continue;
    std::swap(m[p], m[r]);
    u64 inv = invm(m[r][c]);
    for (size_t j = c; j < cols; ++j) m[r][j] = fastmul(m[r][j], inv);
    for (size_t i = r + 1; i < rows; ++i) {
      u64 f = m[i][c];
      if (!f) continue;
      for (size_t j = c; j < cols; ++j) m[i][j] = subm(m[i][j], fastmul(f, m[r][j]));
    }
    piv.push_back(c);
    ++r;
  }
  return piv;
}
// Is v in the row space, i.e. does it satisfy every linear relation that all rows satisfy?
bool satisfies(const std::vector<std::vector<u64>>& ech, const std::vector<size_t>& piv, std::vector<u64> v) {
  for (size_t r = 0; r < piv.size(); ++r) {
    u64 f = v[piv[r]];
    if (!f) continue;
    for (size_t j = piv[r]; j < v.size(); ++j) v[j] = subm(v[j], fastmul(f, ech[r][j]));
  }
  for (u64 x : v) if (x) return false;
  return true;
}

// What a coalition sees, as columns named by (party, direction, peer, position).
struct Log {
  std::vector<char> in;                                       // member of the coalition?
  std::vector<std::string> phase;                             // per party
  bool odd = false;                                           // something that is not field elements was sent
  std::vector<std::map<std::pair<int, int>, std::vector<u64>>> seen;   // per party: (direction, peer) -> elements of this execution
  std::vector<std::map<std::pair<int, int>, std::vector<char>>> late;  // ... sent or received after the function-independent phase
  std::vector<char> is_late;
  void note(int self, int dir, int peer, const unsigned char* p, size_t n) {
    if (!in[self]) return;
    if (dir == 0 && in[peer]) return;                         // the receiver records it
    if (n % 8) { odd = true; return; }
    for (size_t i = 0; i < n; i += 8) {
      u64 v;
      memcpy(&v, p + i, 8);
      seen[self][{dir, peer}].push_back(v % P61);
      late[self][{dir, peer}].push_back(is_late[self]);
    }
  }
};
// A reliable in-order channel of the harness' own: a party gives way only when nothing has arrived.
struct Wire { std::vector<unsigned char> d; size_t at = 0; };
struct Tap : scl::Channel {
  Wire *in, *out; Log* log; int self, peer;
  Tap(Wire* i, Wire* o, Log* l, int s, int p) : in(i), out(o), log(l), self(s), peer(p) {}
  void Close() override {}
  void Send(const unsigned char* src, std::size_t n) override {
    log->note(self, 0, peer, src, n);
    out->d.insert(out->d.end(), src, src + n);
    if (self != peer) sim::wake_waiters(out);
  }
  void Recv(unsigned char* dst, std::size_t n) override {
    while (in->d.size() - in->at < n) sim::wait_on(in, "recv");
    memcpy(dst, in->d.data() + in->at, n);
    in->at += n;
    if (in->at == in->d.size()) { in->d.clear(); in->at = 0; }
    log->note(self, 1, peer, dst, n);
  }
};
void run_once_tp(const Spec& s, int id, std::shared_ptr<scl::Network> net, Log& log) {
  PartyState st;
  tp::Circuit c(s.n, s.k);
  build(s, c, st);
  c.SetNetwork(net, id);
  c.GenCorrelator();
  c.SetThreshold(s.t);
  log.is_late[id] = 0;
  c.FIPrepSend();
  c.FIPrepRecv();
  log.is_late[id] = 1;
  c.GenProdPartiesSendP1();
  c.GenProdP1ReceivesAndSends();
  c.GenProdPartiesReceive();
  c.MapCorrToCircuit();
  c.PrepMultPartiesSendP1();
  c.PrepMultP1ReceivesAndSends();
  c.PrepIOPartiesSendOwner();
  c.PrepMultPartiesReceive();
  c.PrepIOOwnerReceives();
  std::vector<tp::FF> in;
  for (u64 x : s.inputs[id]) in.push_back(ff(x));
  c.SetInputs(in);
  c.RunProtocol();
}
void run_once_dn(const Spec& s, int id, std::shared_ptr<scl::Network> net, Log& log) {
  PartyState st;
  tp::Circuit c(s.n, s.k);
  build(s, c, st);
  c.SetNetwork(net, id);
  tp::DN07 d(s.n, s.t);
  d.SetCircuit(c);
  log.is_late[id] = 0;
  d.PrepPartiesSend();
  d.PrepPartiesReceive();
  log.is_late[id] = 1;
  d.FDMapPrepToGates();
  d.FDMultPartiesSendP1();
  d.FDMultP1Receives();
  std::vector<tp::FF> in;
  for (u64 x : s.inputs[id]) in.push_back(ff(x));
  d.SetInputs(in);
  d.InputPartiesSendOwners();
  d.InputOwnersReceiveAndSendParties();
  d.InputPartiesReceive();
  for (int l = 0; l < s.depth(); ++l) {
    d.MultPartiesSendP1(l);
    d.MultP1Receives(l);
    d.MultP1SendsParties(l);
    d.MultPartiesReceive(l);
  }
  d.OutputPartiesSendOwners();
  d.OutputOwnersReceive();
}
struct Study {
  bool dn07;
  Spec spec;
  std::vector<char> coal;
  std::function<void(Study&, int round)> new_inputs;
  std::vector<u64> tape;                                   // start of the coalition's generators: the same in every execution (0: not)
  std::function<size_t(Study&)> rounds_needed;             // after the first execution
  std::function<void(Study&, int round)> row;              // after each execution
  size_t rounds = 1;
  bool stop = false;
  Log log;
};
// Runs st.rounds executions; the callbacks run while every party waits.
sim::Outcome run_study(Study* st) {
  int n = st->spec.n;
  st->log.in = st->coal;
  st->log.is_late.assign(n, 0);
  st->log.seen.assign(n, {});
  st->log.late.assign(n, {});
  int host = sim::add_host("10.0.0.1");
  sim::spawn("process", host, [st, n] {
    std::vector<std::vector<Wire>> wires(n, std::vector<Wire>(n));       // wires[i][j]: from i to j
    std::vector<std::shared_ptr<scl::Network>> tapped;
    for (int i = 0; i < n; ++i) {
      std::vector<std::shared_ptr<scl::Channel>> ch;
      for (int j = 0; j < n; ++j) ch.push_back(std::make_shared<Tap>(&wires[j][i], &wires[i][j], &st->log, i, j));
      tapped.push_back(std::make_shared<scl::Network>(ch));
    }
    std::vector<std::thread> th;
    for (int i = 0; i < n; ++i) th.emplace_back([st, n, i, &tapped] {
      for (size_t r = 0; r < st->rounds && !st->stop; ++r) {
        sim::barrier("begin-" + std::to_string(r), n);
        if (i == 0) {
          for (auto& x : st->log.seen) x.clear();
          for (auto& x : st->log.late) x.clear();
          st->new_inputs(*st, (int)r);
          st->spec.evaluate();
        }
        sim::barrier("inputs-" + std::to_string(r), n);
        u64 mine = st->tape[i];
        g_prg_mine = mine ? &mine : nullptr;
        if (st->dn07) run_once_dn(st->spec, i, tapped[i], st->log); else run_once_tp(st->spec, i, tapped[i], st->log);
        g_prg_mine = nullptr;
        sim::barrier("end-" + std::to_string(r), n);
        if (i == 0) {
          if (r == 0) st->rounds = st->rounds_needed(*st);
          st->row(*st, (int)r);
        }
        sim::barrier("row-" + std::to_string(r), n);
      }
    });
    for (auto& t : th) t.join();
  });
  return sim::run();
}
std::vector<u64> view(Study& st, bool late_only = false) {
  std::vector<u64> v;
  for (int p = 0; p < st.spec.n; ++p) for (auto& kv : st.log.seen[p]) {
    auto& l = st.log.late[p][kv.first];
    for (size_t i = 0; i < kv.second.size(); ++i) if (!late_only || l[i]) v.push_back(kv.second[i]);
  }
  return v;
}
bool ended(Study* st, sim::Outcome out) {
  if (sim::violated()) return false;
  if (sim::info(0).status == sim::FAILED) { sim::violation("party-failed", "process stopped: " + sim::info(0).why + "; " + st->spec.str()); return false; }
  if (out != sim::DONE) { sim::violation("no-progress-" + outcome_name(out), sim::blocked_report() + "; " + st->spec.str()); return false; }
  return true;
}
Study* draw(bool dn07, int max_n, int layers, int width, int inputs, int outputs, bool honest_outputs) {
  auto* st = new Study;
  st->dn07 = dn07;
  GenOpt o;
  o.dn07 = dn07;
  o.private_ = true;
  o.max_n = max_n;
  o.max_layers = layers;
  o.max_width = width;
  o.max_inputs = inputs;
  o.max_outputs = outputs;
  st->spec = gen_spec(o);
  Spec& s = st->spec;
  for (int tries = 0; tries < 6; ++tries) {            // prefer coalitions that leave an honest input
    st->coal.assign(s.n, 0);
    int left = s.t;
    if (left && sim::chance(W, 1, 2)) { st->coal[0] = 1; --left; }
    while (left) { int p = (int)sim::choose(W, s.n); if (!st->coal[p]) { st->coal[p] = 1; --left; } }
    bool honest = false;
    for (auto& x : s.nodes) honest = honest || (x.t == Node::IN && !st->coal[x.a]);
    if (honest) break;
  }
  if (honest_outputs) {
    std::vector<int> cnt(s.n, 0);
    for (auto& x : s.outs) { while (st->coal[x.owner]) x.owner = (x.owner + 1) % s.n; x.idx = cnt[x.owner]++; }
    s.evaluate();
  }
  st->tape.assign(s.n, 0);
  if (sim::chance(W, 3, 4)) for (int i = 0; i < s.n; ++i) if (st->coal[i]) st->tape[i] = 1 + sim::choose(W, 1ull << 62);
  rnd_state = sim::choose(W, 1ull << 62);
  g_prg_random = prg_seam_complete();       // if not, no call is counted and the run is trivial
  g_prg_calls = 0;
  g_prg_state = sim::choose(W, 1ull << 62);
  sim::cfg.max_steps = 400000000;
  sim::cfg.max_time_ns = 1000000ull * 3600ull * 1000000000ull;
  std::string who;
  for (int i = 0; i < s.n; ++i) if (st->coal[i]) who += " P" + std::to_string(i);
  sim::describe(std::string(dn07 ? "dn07 " : "turbopack ") + s.str() + "; coalition" + who);
  return st;
}
// Wires whose value depends on inputs of the coalition only.
std::vector<char> own_wires(const Study& st) {
  const Spec& s = st.spec;
  std::vector<char> own(s.nodes.size());
  for (size_t i = 0; i < s.nodes.size(); ++i) {
    auto& x = s.nodes[i];
    own[i] = x.t == Node::IN ? st.coal[x.a] : own[x.a] && own[x.b];
  }
  return own;
}

// Random inputs everywhere: no combination of what is seen equals a combination of honest wire values,
// except combinations of the coalition's own wires and outputs.
void linear(bool dn07) {
  auto* st = draw(dn07, sim::chance(W, 1, 6) ? 9 : 5, 2, 3, 4, 3, false);
  Spec& s = st->spec;
  auto own = own_wires(*st);
  std::vector<char> legit(s.nodes.size());
  bool honest = false;
  for (size_t i = 0; i < s.nodes.size(); ++i) legit[i] = own[i];
  for (auto& o : s.outs) if (st->coal[o.owner]) legit[o.wire] = 1;
  for (size_t i = 0; i < s.nodes.size(); ++i) honest = honest || !legit[i];
  if (!honest) { sim::trivial(); return; }
  size_t nl = 1, nh = 0, nv = 0;
  for (char c : legit) c ? ++nl : ++nh;
  auto* rows = new std::vector<std::vector<u64>>;
  auto* rows_lh = new std::vector<std::vector<u64>>;
  st->new_inputs = [](Study& t, int) { for (auto& v : t.spec.inputs) for (auto& x : v) x = rnd(); };
  st->rounds_needed = [&nv, nl, nh](Study& t) { nv = view(t).size(); return nv + nl + nh + 8; };
  st->row = [&, rows, rows_lh](Study& t, int r) {
    auto v = view(t);
    if (v.size() != nv || t.log.odd) { t.stop = true; return; }
    std::vector<u64> row{1}, lh{1};
    for (size_t i = 0; i < legit.size(); ++i) if (legit[i]) row.push_back(t.spec.clear[i]), lh.push_back(t.spec.clear[i]);
    row.insert(row.end(), v.begin(), v.end());
    for (size_t i = 0; i < legit.size(); ++i) if (!legit[i]) row.push_back(t.spec.clear[i]), lh.push_back(t.spec.clear[i]);
    rows->push_back(row);
    rows_lh->push_back(lh);
  };
  auto out = run_study(st);
  if (!ended(st, out)) return;
  if (st->stop || !g_prg_calls) { sim::trivial(); return; }        // what is seen has no fixed shape: not decided here
  auto a = ranks(*rows), b = ranks(*rows_lh);
  size_t rl = a[nl - 1], rlv = a[nl + nv - 1], rlvh = a.back(), rlh = b.back();
  sim::mix(rlv * 1000003 + rlvh);
  sim::probe("executions_recorded", rows->size());
  sim::probe("elements_seen_by_the_coalition", nv);
  sim::probe("linear_studies_decided");
  if (rlvh != rlv + rlh - rl)
    sim::violation("linear-leak", std::to_string(rlv + rlh - rl - rlvh) + " independent linear combination(s) of what the coalition sees are equal to combinations of honest values in all " + std::to_string(rows->size()) + " executions; " + s.str());
}
// Two fixed assignments of the honest inputs: the relations of degree two among the elements seen (some of
// them multiplied, all of them added) under the one hold under the other.
void quadratic(bool dn07) {
  auto* st = draw(dn07, dn07 ? 5 : 5, 1, 2, 2, 2, sim::chance(W, 5, 6));
  Spec& s = st->spec;
  // the coalition gets no output that depends on honest inputs
  auto own = own_wires(*st);
  for (auto& o : s.outs) if (st->coal[o.owner] && !own[o.wire]) { sim::trivial(); return; }
  bool honest = false;
  for (auto& x : s.nodes) honest = honest || (x.t == Node::IN && !st->coal[x.a]);
  if (!honest) { sim::trivial(); return; }
  std::vector<std::vector<std::vector<u64>>> in(2, s.inputs);
  int kind = (int)sim::weighted(W, {2, 1});
  for (int i = 0; i < s.n; ++i) for (size_t j = 0; j < s.inputs[i].size(); ++j) {
    if (st->coal[i]) { in[0][i][j] = in[1][i][j] = rnd(); continue; }
    in[0][i][j] = kind == 1 ? 0 : rnd();
    in[1][i][j] = rnd();
  }
  // Which linear forms of the elements seen are multiplied: groups of elements at the same place of the
  // sequences that one member exchanges with its peers, taken as what the parties make of them -- combinations
  // with powers of the peers' numbers (how shares of random values are extracted), the values at 0, -1, ... of the
  // polynomial through them (how P0 reconstructs) -- or as they are.
  using Form = std::vector<std::pair<size_t, u64>>;
  const size_t kMax = 20 + sim::choose(W, 21);
  const bool as_used = sim::chance(W, 3, 4);
  size_t nv = 0, basis_rounds = 0;
  std::vector<Form> forms, chosen;
  auto value = [](const Form& f, const std::vector<u64>& v) { u64 r = 0; for (auto& t : f) r = addm(r, fastmul(t.second, v[t.first])); return r; };
  auto* views = new std::vector<std::vector<std::vector<u64>>>(2);
  auto make_groups = [&](Study& t) {
    std::map<std::vector<int>, std::vector<size_t>> g;
    std::map<std::vector<int>, bool> late;
    size_t c = 0, n = t.spec.n;
    for (int p = 0; p < t.spec.n; ++p) for (auto& kv : t.log.seen[p]) for (size_t i = 0; i < kv.second.size(); ++i, ++c) {
      std::vector<int> key{p, kv.first.first, (int)i};
      g[key].push_back(c);
      late[key] = late[key] || t.log.late[p][kv.first][i];
    }
    std::vector<std::vector<Form>> first, second;
    for (auto& kv : g) {
      std::vector<Form> fs;
      if (as_used && kv.first[1] == 1 && kv.second.size() == n) {
        if (!late[kv.first]) {
          for (int e = 0; e <= t.spec.t; ++e) { Form f; for (size_t j = 0; j < n; ++j) f.push_back({kv.second[j], e ? powm(j, e) : 1}); fs.push_back(f); }
        } else {
          for (int e = 0; e < t.spec.k; ++e) {
            Form f;
            for (size_t j = 0; j < n; ++j) {
              u64 w = 1;
              for (size_t m = 0; m < n; ++m) if (m != j) w = fastmul(w, fastmul(subm(subm(0, e), m + 1), invm(subm(j + 1, m + 1))));
              f.push_back({kv.second[j], w});
            }
            fs.push_back(f);
          }
        }
      } else for (size_t x : kv.second) fs.push_back({{x, 1}});
      (late[kv.first] ? first : second).push_back(fs);
    }
    auto shuffle = [](std::vector<std::vector<Form>>& v) { for (size_t i = v.size(); i > 1; --i) std::swap(v[i - 1], v[rnd() % i]); };
    shuffle(first); shuffle(second);
    if (rnd() % 2) std::swap(first, second);
    size_t lead = rnd() % 3 ? rnd() % (as_used ? 10 : 4) : first.size();       // some of one kind, then all of the other, then the rest
    std::vector<std::vector<Form>> all;
    for (size_t i = 0; i < first.size() && i < lead; ++i) all.push_back(first[i]);
    for (auto& x : second) all.push_back(x);
    for (size_t i = lead; i < first.size(); ++i) all.push_back(first[i]);
    for (auto& x : all) for (auto& f : x) forms.push_back(f);
  };
  // The relations are found from executions with the first assignment; executions with the second, one
  // in kEvery, are then tried on them.
  const int kEvery = 50;
  auto second = [=](int r) { return r % kEvery == kEvery - 1; };
  st->new_inputs = [&in, second](Study& t, int r) { t.spec.inputs = in[second(r)]; };
  st->rounds_needed = [&](Study& t) {
    nv = view(t).size();
    make_groups(t);
    basis_rounds = nv + nv / 40 + 12;
    return basis_rounds;
  };
  st->row = [&, views](Study& t, int r) {
    auto v = view(t);
    if (v.size() != nv || t.log.odd) { t.stop = true; return; }
    (*views)[second(r)].push_back(v);
    if ((size_t)r + 1 == basis_rounds) {
      // products of a basis of the chosen forms: the others are combinations of these
      std::vector<std::vector<u64>> m;
      for (auto& half : *views) for (auto& x : half) { std::vector<u64> row{1}; for (auto& f : forms) row.push_back(value(f, x)); for (u64 e : x) row.push_back(e); m.push_back(row); }
      auto rk = ranks(m);
      for (size_t i = 0; i < forms.size() && chosen.size() < kMax; ++i) if (rk[i + 1] > rk[i]) chosen.push_back(forms[i]);
      size_t total = 1 + rk.back() + chosen.size() * (chosen.size() + 1) / 2;
      t.rounds = std::max(basis_rounds, total + total / 40 + 60);
    }
  };
  auto out = run_study(st);
  if (!ended(st, out)) return;
  if (st->stop || !g_prg_calls) { sim::trivial(); return; }
  auto* rows = new std::vector<std::vector<std::vector<u64>>>(2);
  for (int c = 0; c < 2; ++c) for (auto& v : (*views)[c]) {
    std::vector<u64> row{1};
    row.insert(row.end(), v.begin(), v.end());
    std::vector<u64> fv;
    for (auto& f : chosen) fv.push_back(value(f, v));
    for (size_t i = 0; i < fv.size(); ++i) for (size_t j = i; j < fv.size(); ++j) row.push_back(fastmul(fv[i], fv[j]));
    (*rows)[c].push_back(row);
  }
  auto& m = (*rows)[0];
  std::vector<std::vector<u64>> more(m.end() - 2, m.end());
  m.resize(m.size() - 2);
  auto pivots = echelon(m);
  // two more executions with the first assignment have to satisfy them, or too few were recorded
  for (auto& v : more) if (!satisfies(m, pivots, v)) { sim::trivial(); return; }
  size_t bad = 0;
  for (auto& v : (*rows)[1]) bad += !satisfies(m, pivots, v);
  sim::mix(pivots.size() * 1000003 + bad);
  sim::probe("executions_recorded", (*views)[0].size() + (*views)[1].size());
  sim::probe("elements_seen_by_the_coalition", nv);
  sim::probe("quadratic_studies_decided");
  if (bad)
    sim::violation("quadratic-leak", "the relations of degree two (rank " + std::to_string(pivots.size()) + " of " + std::to_string(m[0].size()) + ") that what the coalition sees satisfied in " + std::to_string((*views)[0].size()) + " executions fail in " + std::to_string(bad) + " of " + std::to_string((*rows)[1].size()) + " executions with other honest inputs that give it the same outputs; " + s.str());
}
}  // namespace
SCENARIO(C24, turbopack_linear, 3) { linear(false); }
SCENARIO(C24, baseline_linear, 2) { linear(true); }
SCENARIO(C24, turbopack_quadratic, 2) { quadratic(false); }
SCENARIO(C24, baseline_quadratic, 1) { quadratic(true); }
