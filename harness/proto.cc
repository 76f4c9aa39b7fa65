#include "proto.h"

#include <algorithm>
#include <cstring>
#include <thread>

namespace h {
u64 powm(u64 a, u64 e) { u64 r = 1; for (; e; e >>= 1) { if (e & 1) r = mulm(r, a); a = mulm(a, a); } return r; }
u64 lagrange(const std::vector<u64>& xs, const std::vector<u64>& ys, u64 x) {
  u64 z = 0;
  for (size_t i = 0; i < xs.size(); ++i) {
    u64 num = ys[i], den = 1;
    for (size_t j = 0; j < xs.size(); ++j) if (j != i) { num = mulm(num, subm(x, xs[j])); den = mulm(den, subm(xs[i], xs[j])); }
    z = addm(z, mulm(num, invm(den)));
  }
  return z;
}
bool degree_at_most(const std::vector<u64>& xs, const std::vector<u64>& ys, size_t deg) {
  if (xs.size() <= deg + 1) return true;
  std::vector<u64> x0(xs.begin(), xs.begin() + deg + 1), y0(ys.begin(), ys.begin() + deg + 1);
  for (size_t i = deg + 1; i < xs.size(); ++i) if (lagrange(x0, y0, xs[i]) != ys[i]) return false;
  return true;
}

int Spec::io_batches() const {
  int s = 0;
  std::vector<int> no(n, 0);
  for (auto& o : outs) ++no[o.owner];
  for (int i = 0; i < n; ++i) {
    int a = (int)inputs[i].size(), b = no[i];
    s += a ? (a + k - 1) / k : 1;
    s += b ? (b + k - 1) / k : 1;
  }
  return s;
}
void Spec::evaluate() {
  clear.assign(nodes.size(), 0);
  for (size_t i = 0; i < nodes.size(); ++i) {
    const Node& x = nodes[i];
    clear[i] = x.t == Node::IN ? inputs[x.a][x.b] : x.t == Node::ADD ? addm(clear[x.a], clear[x.b]) : mulm(clear[x.a], clear[x.b]);
  }
  expected.assign(n, {});
  for (auto& o : outs) expected[o.owner].push_back(clear[o.wire]);
}
std::string Spec::str() const {
  std::string r = "n=" + std::to_string(n) + " t=" + std::to_string(t) + " k=" + std::to_string(k) + " in[";
  for (auto& x : nodes) if (x.t == Node::IN) r += " P" + std::to_string(x.a);
  r += " ] widths[";
  for (int w : width) r += " " + std::to_string(w);
  r += " ] out[";
  for (auto& o : outs) { r += " P" + std::to_string(o.owner); if (!nodes.empty()) r += nodes[o.wire].t == Node::IN ? ":in" : nodes[o.wire].t == Node::ADD ? ":add" : ":mul"; }
  int na = 0;
  for (auto& x : nodes) na += x.t == Node::ADD;
  r += " ] adds=" + std::to_string(na);
  return r;
}

bool g_prg_random = false;
u64 g_prg_state = 0, g_prg_calls = 0;
thread_local u64* g_prg_mine = nullptr;
bool g_prg_probing = false;
bool prg_seam_complete() {
  u64 calls = g_prg_calls, state = g_prg_state;
  g_prg_probing = true;
  bool ok = true;
  auto drawn = [&](auto f) {
    u64 before = g_prg_calls;
    f();
    if (g_prg_calls == before) ok = false;
  };
  scl::PRG prg;
  unsigned char b[8];
  std::vector<unsigned char> v(8);
  tp::Vec one(std::vector<tp::FF>(1, tp::FF(1)));
  drawn([&] { prg.Next(b, 8); });
  drawn([&] { prg.Next(v); });
  drawn([&] { prg.Next(v, 8); });
  drawn([&] { prg.Next(8); });
  drawn([&] { tp::FF::Random(prg); });
  drawn([&] { tp::Vec::Random(2, prg); });
  drawn([&] { scl::details::EvPolyFromSecretsAndDegree(one, 2, prg); });
  drawn([&] { scl::details::EvPolyFromSecretAndPointAndDegree(tp::FF(1), tp::FF(0), 2, prg); });
  g_prg_probing = false;
  g_prg_calls = calls;
  g_prg_state = state;
  return ok;
}
void draw_prg() {
  g_prg_random = sim::chance(W, 1, 2) && prg_seam_complete();
  if (g_prg_random) g_prg_state = sim::choose(W, 1ull << 62);
}
u64 gen_value() {
  switch (sim::weighted(W, {4, 3, 2, 2, 2, 2})) {
    case 5: { u64 e = 1 + sim::choose(W, 61), d = sim::choose(W, 3), x = sim::chance(W, 1, 2) ? (1ull << (e - 1)) + d - 1 : P61 - 1 - d * (1ull << (e - 1)) % P61; return x % P61; }   // next to powers of two and their negatives
    case 0: return 1 + sim::choose(W, P61 - 1);
    case 1: return sim::choose(W, 100);
    case 2: return P61 - 1;
    case 3: return 0;
    default: return 1;
  }
}
static void large_params(Spec& s, const GenOpt& o) {
  if (o.dn07) {
    s.t = 6 + (int)sim::choose(W, 9);
    s.n = 2 * s.t + 1 + (int)sim::choose(W, 3);
    s.k = 1 + (int)sim::choose(W, 12);
  } else {
    s.k = 5 + (int)sim::choose(W, 4);
    s.t = 1 + (int)sim::choose(W, 2 * s.k - 2);
    if (sim::chance(W, 1, 2)) s.t = 2 * s.k - 2;
    s.n = s.t + 2 * s.k - 1;
  }
}
void gen_params(Spec& s, const GenOpt& o) {
  if (o.large && !o.fix_n && sim::chance(W, 1, 48)) return large_params(s, o);
  if (o.fix_n) {
    s.n = o.fix_n;
    if (o.dn07) { s.t = 1 + (int)sim::choose(W, (s.n - 1) / 2); s.k = 1 + (int)sim::choose(W, 4); return; }
    std::vector<int> ks;
    for (int k = 2; 2 * k <= s.n; ++k) if (2 * (s.n - 2 * k + 1) < s.n) ks.push_back(k);
    s.k = ks[sim::choose(W, ks.size())];
    s.t = s.n - 2 * s.k + 1;
    return;
  }
  for (;;) {
    if (o.dn07) {
      s.t = 1 + (int)sim::weighted(W, {4, 5, 3, 2, 1, 1});
      if (!o.private_ && sim::chance(W, 1, 32)) s.t = 0;                          // nobody to protect against
      s.n = 2 * s.t + 1;
      if (sim::chance(W, 1, 4)) s.n += 1 + (int)sim::choose(W, 3);
      s.k = 1 + (int)sim::choose(W, 4);
    } else {
      s.k = 2 + (int)sim::weighted(W, {6, 4, 2});
      int tmax = 2 * s.k - 2;
      s.t = tmax - (int)sim::weighted(W, {6, 2, 1, 1, 1, 1}) % tmax;
      s.n = s.t + 2 * s.k - 1;
    }
    if (s.n <= o.max_n) break;
    s.t = 1; s.k = 2; s.n = o.dn07 ? 3 : 4;
    break;
  }
}
void gen_circuit(Spec& s, const GenOpt& o0) {
  GenOpt o = o0;
  int layers = 0;
  int huge = 0;                                                              // beyond what a byte counts
  if (o.large && s.n <= 13) switch (sim::weighted(W, {45, 1, 1, 1, 1})) {
    case 0: break;
    case 1: o.max_width = 200; o.max_inputs = 40; if (s.n <= 7 && sim::chance(W, 1, 3)) { huge = 256 * s.k + (int)sim::choose(W, 90); o.max_width = huge; } break;   // wide
    case 2: layers = 5 + (int)sim::choose(W, 26); if (s.n <= 7 && sim::chance(W, 1, 3)) layers = 250 + (int)sim::choose(W, 30); o.max_width = 3; break;     // deep
    case 3: o.max_inputs = o.max_outputs = s.n <= 7 && sim::chance(W, 1, 3) ? 600 : 150; break;                   // much input and output
    default: layers = 3 + (int)sim::choose(W, 6); o.max_width = 40; o.max_inputs = 30; o.max_outputs = 30; break;
  }
  s.inputs.assign(s.n, {});
  s.nodes.clear(); s.steps.clear(); s.outs.clear(); s.width.clear();
  int ni = 1 + (int)sim::choose(W, o.max_inputs);
  int style = (int)sim::weighted(W, {4, 2, 2});     // owners: any / one / ascending
  int fixed = (int)sim::choose(W, s.n);
  for (int i = 0; i < ni; ++i) {
    int owner = style == 0 ? (int)sim::choose(W, s.n) : style == 1 ? fixed : i % s.n;
    s.nodes.push_back(Node{Node::IN, owner, (int)s.inputs[owner].size(), 0, 0});
    s.inputs[owner].push_back(gen_value());
  }
  if (!layers) {
    layers = 1 + (int)sim::weighted(W, {3, 4, 3, 1});
    if (layers > o.max_layers) layers = o.max_layers;
  }
  auto pick_wire = [&](int layer) {
    // wires a multiplication of this layer may read: everything of an earlier layer
    std::vector<int> c;
    for (size_t i = 0; i < s.nodes.size(); ++i) if (s.nodes[i].layer <= layer) c.push_back((int)i);
    size_t m = c.size();
    switch (sim::weighted(W, {3, 3, 1})) {
      case 0: return c[sim::choose(W, m)];
      case 1: return c[m - 1 - sim::choose(W, std::min<size_t>(m, 4))];
      default: return c[0];
    }
  };
  auto add_some = [&](int layer, int percent) {
    while (sim::chance(W, percent, 100)) {
      int a = pick_wire(layer), b = sim::chance(W, 1, 6) ? a : pick_wire(layer);
      s.nodes.push_back(Node{Node::ADD, a, b, std::max(s.nodes[a].layer, s.nodes[b].layer), 0});
      s.steps.push_back(Step{Step::ADD, (int)s.nodes.size() - 1});
    }
  };
  for (int l = 0; l < layers; ++l) {
    if (l) s.steps.push_back(Step{Step::NEWLAYER, 0});
    int w = 0;
    switch (sim::weighted(W, {5, 3, 2, 1})) {
      case 0: w = 1 + (int)sim::choose(W, o.max_width); break;
      case 1: w = s.k; break;
      case 2: w = s.k * 2 - (int)sim::choose(W, 2); break;
      default: w = 0;
    }
    if (w > o.max_width) w = o.max_width;
    if (huge) w = huge, huge = 0, o.max_width = 9;
    add_some(l, 35);
    for (int i = 0; i < w; ++i) {
      int a = pick_wire(l), b = sim::chance(W, 1, 8) ? a : pick_wire(l);
      s.nodes.push_back(Node{Node::MUL, a, b, l + 1, i});
      s.steps.push_back(Step{Step::MUL, (int)s.nodes.size() - 1});
      if (sim::chance(W, 1, 5)) add_some(l, 30);
    }
    s.width.push_back(w);
  }
  add_some(layers, 35);
  int no = (int)sim::choose(W, o.max_outputs + 1);
  if (no == 0 && sim::chance(W, 7, 8)) no = 1;
  std::vector<int> cnt(s.n, 0);
  int ostyle = (int)sim::weighted(W, {4, 2});
  int ofix = (int)sim::choose(W, s.n);
  for (int i = 0; i < no; ++i) {
    int owner = ostyle ? ofix : (int)sim::choose(W, s.n);
    int wire = sim::chance(W, 2, 3) ? (int)s.nodes.size() - 1 - (int)sim::choose(W, std::min<size_t>(s.nodes.size(), 5)) : (int)sim::choose(W, s.nodes.size());
    s.outs.push_back(Out{owner, wire, cnt[owner]++});
  }
}

std::shared_ptr<tp::CircuitConfig> gen_synthetic(Spec& s, const GenOpt& o) {
  gen_params(s, o);
  auto c = std::make_shared<tp::CircuitConfig>();
  c->n_parties = s.n;
  c->batch_size = s.k;
  c->inp_gates.assign(s.n, 0);
  c->out_gates.assign(s.n, 0);
  int ni = 2 * (1 + (int)sim::choose(W, 3)), no = 1 + (int)sim::choose(W, 6);
  int style = (int)sim::weighted(W, {1, 1});
  int a = (int)sim::choose(W, s.n), b = (int)sim::choose(W, s.n);
  s.inputs.assign(s.n, {});
  for (int i = 0; i < ni; ++i) { int w = style ? a : (int)sim::choose(W, s.n); ++c->inp_gates[w]; s.inputs[w].push_back(gen_value()); }
  std::vector<int> cnt(s.n, 0);
  for (int i = 0; i < no; ++i) { int w = style ? b : (int)sim::choose(W, s.n); ++c->out_gates[w]; }
  for (int i = 0; i < s.n; ++i) for (size_t j = 0; j < c->out_gates[i]; ++j) s.outs.push_back(Out{i, 0, cnt[i]++});
  c->width = (size_t)ni * (1 + sim::choose(W, 12 / ni + 1));
  c->depth = 1 + sim::weighted(W, {3, 4, 3, 1});
  s.width.assign(c->depth, (int)c->width);
  tp::Circuit ref = tp::Circuit::FromConfig(*c);
  std::vector<std::vector<tp::FF>> in(s.n);
  for (int i = 0; i < s.n; ++i) for (u64 x : s.inputs[i]) in[i].push_back(ff(x));
  ref.SetClearInputs(in);
  auto out = ref.GetClearOutputs();
  s.expected.assign(s.n, {});
  for (int i = 0; i < s.n; ++i) for (auto& f : out[i]) s.expected[i].push_back(val(f));
  if (ref.GetDepth() != c->depth || ref.GetWidth() != c->width || ref.GetSize() != c->depth * c->width || (int)ref.GetNInputs() != ni || (int)ref.GetNOutputs() != no)
    sim::violation("synthetic-circuit-size", "the synthetic circuit for width " + std::to_string(c->width) + ", depth " + std::to_string(c->depth) + ", " + std::to_string(ni) + " inputs and " + std::to_string(no) + " outputs has width " + std::to_string(ref.GetWidth()) + ", depth " + std::to_string(ref.GetDepth()) + ", size " + std::to_string(ref.GetSize()) + ", " + std::to_string(ref.GetNInputs()) + " inputs and " + std::to_string(ref.GetNOutputs()) + " outputs");
  return c;
}

void build(const Spec& s, tp::Circuit& c, PartyState& st, const std::function<void()>& open) {
  st.wires.assign(s.nodes.size(), nullptr);
  for (size_t i = 0; i < s.nodes.size(); ++i) if (s.nodes[i].t == Node::IN) st.wires[i] = c.Input(s.nodes[i].a);
  c.CloseInputs();
  for (auto& p : s.steps) {
    if (p.t == Step::NEWLAYER) { c.NewLayer(); continue; }
    const Node& x = s.nodes[p.wire];
    if (p.t == Step::ADD) st.wires[p.wire] = c.Add(st.wires[x.a], st.wires[x.b]);
    else st.wires[p.wire] = c.Mult(st.wires[x.a], st.wires[x.b]);
  }
  c.LastLayer();
  for (auto& o : s.outs) st.outs.push_back(c.Output(o.owner, st.wires[o.wire]));
  if (open) open();
  c.CloseOutputs();
}

static std::vector<tp::FF> own_inputs(const Spec& s, int id) {
  std::vector<tp::FF> v;
  for (u64 x : s.inputs[id]) v.push_back(ff(x));
  return v;
}

// The library's evaluation in the clear of the same circuit, as the shipped programs use it.
static void cleartext(Exec& e, int id, tp::Circuit& c) {
  const Spec& s = e.spec;
  std::vector<std::vector<u64>> got(s.n);
  if (sim::chance(W, 1, 2)) {
    std::vector<std::vector<tp::FF>> in(s.n);
    for (int i = 0; i < s.n; ++i) in[i] = own_inputs(s, i);
    c.SetClearInputs(in);
  } else {
    std::vector<tp::FF> in;
    for (int i = 0; i < s.n; ++i) for (u64 x : s.inputs[i]) in.push_back(ff(x));
    c.SetClearInputsFlat(in);
  }
  auto out = c.GetClearOutputs();
  auto flat = c.GetClearOutputsFlat();
  bool ok = (int)out.size() == s.n && flat.size() == s.outs.size();
  for (int i = 0; ok && i < s.n; ++i) {
    ok = out[i].size() == s.expected[i].size();
    for (size_t j = 0; ok && j < out[i].size(); ++j) ok = val(out[i][j]) == s.expected[i][j];
  }
  for (size_t j = 0; ok && j < flat.size(); ++j) ok = val(flat[j]) == s.clear[s.outs[j].wire];
  if (!ok) sim::violation("cleartext-evaluation", "party " + std::to_string(id) + ": the library's evaluation in the clear disagrees with the circuit; " + s.str());
  sim::probe("cleartext_evaluations_checked");
}
static void sentinels(Exec& e, int id, scl::Network& net) {
  // whatever was sent and not received in the execution would be read instead of the sentinel
  auto mark = [](int from, int to) { return 0xABCD000000000000ull + (u64)from * 1000 + to; };
  for (int j = 0; j < e.spec.n; ++j) net.Party(j)->Send(mark(id, j));
  for (int j = 0; j < e.spec.n; ++j) {
    u64 v = 0;
    net.Party(j)->Recv(v);
    if (v != mark(j, id)) { ++e.st[id].sentinel_bad; sim::violation("message-left-over", "party " + std::to_string(id) + " received " + std::to_string(v) + " from party " + std::to_string(j) + " instead of the end marker: a message of the execution was not consumed, or consumed twice (" + e.spec.str() + ")"); }
  }
}

void phase_mark(Exec& e, const std::string& p) {
  if (e.rounds) {
    sim::barrier("phase-" + p, e.spec.n);
    if (e.rounds->empty() || e.rounds->back().first != p) e.rounds->push_back({p, sim::now()});
  }
  if (e.phases) sim::set_phase(e.tag + p);
}
static void make_circuit(Exec& e, PartyState& st, int id) {
  if (e.synthetic) { st.c = std::make_shared<tp::Circuit>(tp::Circuit::FromConfig(*e.synthetic)); return; }
  st.c = std::make_shared<tp::Circuit>(e.spec.n, e.spec.k);
  build(e.spec, *st.c, st, e.poke ? std::function<void()>([&] { e.poke(id, "open", st); }) : nullptr);
  if (e.poke) e.poke(id, "closed", st);
}
static void run_tp(Exec& e, int id, std::shared_ptr<scl::Network> net) {
  const Spec& s = e.spec;
  PartyState& st = e.st[id];
  auto ph = [&](const std::string& p) { phase_mark(e, p); if (e.poke) e.poke(id, p, st); };
  make_circuit(e, st, id);
  tp::Circuit& c = *st.c;
  c.SetNetwork(net, id);
  if (!e.dummy) {
    c.GenCorrelator();
    if (e.poke) e.poke(id, "threshold", st);
    c.SetThreshold(s.t);
    ph("fi");
    {
      std::thread t(&tp::Circuit::FIPrepSend, &c);
      c.FIPrepRecv();
      t.join();
    }
    ph("prod");
    {
      std::thread t1(&tp::Circuit::GenProdPartiesSendP1, &c);
      std::thread t2(&tp::Circuit::GenProdP1ReceivesAndSends, &c);
      c.GenProdPartiesReceive();
      t1.join();
      t2.join();
    }
    c.MapCorrToCircuit();
    if (e.capture) st.corr = std::make_shared<tp::Correlator>(c.GetCorrelator());
    if (e.stop_after_fi) { st.finished = true; return; }
  } else if (e.dummy >= 5) {
    // the real function-dependent preprocessing on top of dummy material
    c.GenCorrelator();
    if (e.dummy == 5) c.PopulateDummyCorrelator(ff(e.lambda));
    else if (e.dummy == 6) c.PopulateDummyCorrelator();
    else { c.GenIndShrsDummy(ff(e.lambda)); c.GenMultBatchDummy(); c.GenIOBatchDummy(); }
    c.MapCorrToCircuit();
  }

  if (!e.dummy || e.dummy >= 5) {
    ph("fd");
    c.PrepMultPartiesSendP1();
    c.PrepMultP1ReceivesAndSends();
    c.PrepIOPartiesSendOwner();
    c.PrepMultPartiesReceive();
    c.PrepIOOwnerReceives();
  } else if (e.dummy == 1) c._DummyPrep(ff(e.lambda));
  else if (e.dummy == 2) c._DummyPrep();
  else {
    c.SetDummyLambdas(ff(e.lambda));
    if (e.dummy == 4)
      for (size_t w = 0; w < st.wires.size(); ++w) {
        if (s.nodes[w].t == Node::IN) std::static_pointer_cast<tp::InputGate>(st.wires[w])->SetLambda(ff(e.lambdas[w]));
        if (s.nodes[w].t == Node::MUL) std::static_pointer_cast<tp::MultGate>(st.wires[w])->SetDummyLambda(ff(e.lambdas[w]));
      }
    c.PopulateDummyLambdas();
    c.PrepFromDummyLambdas();
  }
  if (e.stop_after_fd) { st.finished = true; return; }
  if (e.cleartext) cleartext(e, id, c);
  if (e.poke) e.poke(id, "inputs", st);
  c.SetInputs(own_inputs(s, id));

  ph("online-in");
  if (e.api == 2) c.RunProtocol();
  else if (e.api == 1) {
    c.RunInput();
    for (int l = 0; l < s.depth(); ++l) { ph("mult-" + std::to_string(l)); c.RunMult(l); }
    ph("out");
    c.RunOutput();
  } else {
    c.InputOwnerSendsP1();
    c.InputP1Receives();
    for (int l = 0; l < s.depth(); ++l) {
      ph("mult-" + std::to_string(l));
      c.MultP1Sends(l);
      c.MultPartiesReceive(l);
      c.MultPartiesSend(l);
      c.MultP1Receives(l);
    }
    ph("out");
    c.OutputP1SendsMu();
    c.OutputOwnerReceivesMu();
  }
  for (auto& f : c.GetOutputs()) st.outputs.push_back(val(f));
  st.have_outputs = true;
  if (id == 0) for (auto& w : st.wires) st.mus.push_back(val(w->GetMu()));
  if (id == 0) for (auto& o : st.outs) st.out_mus.push_back(val(o->GetMu()));
}

static void run_dn(Exec& e, int id, std::shared_ptr<scl::Network> net) {
  const Spec& s = e.spec;
  PartyState& st = e.st[id];
  auto ph = [&](const std::string& p) { phase_mark(e, p); if (e.poke) e.poke(id, p, st); };
  make_circuit(e, st, id);
  st.c->SetNetwork(net, id);
  st.dn = std::make_shared<tp::DN07>(s.n, s.t);
  tp::DN07& d = *st.dn;
  d.SetCircuit(*st.c);
  ph("dn-prep");
  if (e.dummy == 1) d.DummyPrep(ff(e.lambda));
  else if (e.dummy) d.DummyPrep();
  else {
    std::thread t(&tp::DN07::PrepPartiesSend, &d);
    d.PrepPartiesReceive();
    t.join();
  }
  ph("dn-fd");
  d.FDMapPrepToGates();
  d.FDMultPartiesSendP1();
  d.FDMultP1Receives();
  if (e.cleartext) cleartext(e, id, *st.c);
  if (e.poke) e.poke(id, "inputs", st);
  d.SetInputs(own_inputs(s, id));
  ph("dn-in");
  d.InputPartiesSendOwners();
  d.InputOwnersReceiveAndSendParties();
  d.InputPartiesReceive();
  for (int l = 0; l < s.depth(); ++l) {
    ph("dn-mult-" + std::to_string(l));
    if (e.api == 3) {
      d.MultPartiesSendP1(l);
      d.MultP1ReceivesAndSendsParties(l);
      d.MultPartiesReceive(l);
      continue;
    }
    {
      std::thread t(&tp::DN07::MultPartiesSendP1, &d, l);
      d.MultP1Receives(l);
      t.join();
    }
    {
      std::thread t(&tp::DN07::MultP1SendsParties, &d, l);
      d.MultPartiesReceive(l);
      t.join();
    }
  }
  ph("dn-out");
  d.OutputPartiesSendOwners();
  d.OutputOwnersReceive();
  for (size_t i = 0; i < s.expected[id].size(); ++i) st.outputs.push_back(val(d.GetOutput(id, i)));
  st.have_outputs = true;
}

void run_party(Exec& e, int id, std::shared_ptr<scl::Network> net) {
  if (e.dn07) run_dn(e, id, net); else run_tp(e, id, net);
  if (e.sentinels) { if (e.phases) sim::set_phase(e.tag + "end-markers"); sentinels(e, id, *net); }
  e.st[id].finished = true;
}

bool check_outputs(Exec& e, int id, const char* who) {
  PartyState& st = e.st[id];
  if (!st.have_outputs) return true;
  const auto& x = e.spec.expected[id];
  if (st.outputs.size() != x.size()) {
    sim::violation("wrong-number-of-outputs", std::string(who) + std::to_string(id) + " reports " + std::to_string(st.outputs.size()) + " outputs, the circuit gives it " + std::to_string(x.size()) + "; " + e.spec.str());
    return false;
  }
  for (size_t i = 0; i < x.size(); ++i) {
    sim::mix(st.outputs[i]);
    if (st.outputs[i] != x[i]) {
      sim::violation("wrong-output", std::string(who) + std::to_string(id) + " output " + std::to_string(i) + " is " + std::to_string(st.outputs[i]) + ", the circuit's value is " + std::to_string(x[i]) + "; " + e.spec.str());
      return false;
    }
  }
  sim::probe("outputs_checked", x.size());
  return true;
}

size_t fd_floor(const Spec& s, bool dn07) {
  if (dn07) return 64 + 8 * (size_t)(s.n_inputs() + s.n_mults() + s.outs.size()) * 2;
  return 64 + 32 * (size_t)s.mult_batches() + 8 * (size_t)s.io_batches();
}

// n different addresses of machines
std::vector<std::string> draw_ips(int n) {
  std::vector<std::string> r;
  int how = (int)sim::weighted(K, {3, 2, 1, 1});       // one network; anything; long ones; differing in one number only
  int at = (int)sim::choose(K, 4), o[4];
  auto octet = [&](int k) { int v = how == 2 ? 100 + (int)sim::choose(K, 156) : sim::chance(K, 1, 3) ? (int)sim::choose(K, 10) : (int)sim::choose(K, 256); if (k == 0) { v %= 224; if (how == 2 && v < 100) v += 100; if (v == 0 || v == 127) v = 10; } if (k == 3 && (v == 0 || v == 255)) v = 254; return v; };
  for (int k = 0; k < 4; ++k) o[k] = octet(k);
  for (int i = 0; (int)r.size() < n; ++i) {
    if (how == 0) r.push_back("10.0." + std::to_string(i / 7) + "." + std::to_string(1 + i % 250));
    else {
      if (how != 3) for (int k = 0; k < 4; ++k) o[k] = octet(k);
      else { do o[at] = at == 0 ? 1 + (o[0] % 223) : 1 + (o[at] % 254); while (at == 0 && o[0] == 127); }
      std::string a;
      for (int k = 0; k < 4; ++k) a += (k ? "." : "") + std::to_string(o[k]);
      if (std::find(r.begin(), r.end(), a) == r.end()) r.push_back(a);
      else if (i > 4 * n + 100) { how = 0; i = 0; r.clear(); }
    }
  }
  return r;
}
Mesh make_mesh(int n, bool draw_threaded) {
  Mesh m;
  m.n = n;
  m.threaded = draw_threaded && sim::chance(K, 1, 4);
  m.localhost = sim::chance(K, 1, 2);
  m.base_port = sim::chance(K, 1, 3) ? 9900 : 2000 + (int)sim::choose(K, 60000);
  if (sim::chance(K, 1, 8)) m.base_port = 65535 - (m.localhost ? n - 1 : 0);
  std::vector<std::string> ips;
  if (!m.localhost) ips = draw_ips(n);
  for (int i = 0; i < n; ++i) {
    std::string ip = m.localhost ? "127.0.0.1" : ips[i];
    m.ips.push_back(ip);
    m.hosts.push_back(m.localhost ? (i ? m.hosts[0] : sim::add_host(ip)) : sim::add_host(ip));
  }
  return m;
}
scl::NetworkConfig mesh_config(const Mesh& m, int id) {
  std::vector<scl::Party> p;
  for (int i = 0; i < m.n; ++i) p.push_back(scl::Party{(unsigned)i, m.ips[i], m.base_port + (m.localhost ? i : 0)});
  return scl::NetworkConfig(id, p);
}
std::shared_ptr<scl::Network> connect(const Mesh& m, int id) {
  auto cfg = mesh_config(m, id);
  return std::make_shared<scl::Network>(m.threaded ? scl::Network::CreateThreadedSenders(cfg) : scl::Network::Create(cfg));
}
u64 start_delay() {
  switch (sim::weighted(K, {4, 2, 1})) {
    case 0: return 0;
    case 1: return sim::choose(K, 1000) * 1000;            // < 1 ms
    default: return sim::choose(K, 5000) * 1000000;        // < 5 s
  }
}
u64 late_start() { return sim::chance(K, 1, 40) ? 1000000000ull * (1 + sim::logu(K, 3000)) : start_delay(); }
u64 stall_time() { return sim::chance(F, 1, 12) ? 1000000000ull << sim::choose(F, 12) : 1000000ull << sim::choose(F, 13); }
std::string outcome_name(sim::Outcome o) {
  switch (o) { case sim::DONE: return "done"; case sim::DEADLOCK: return "deadlock"; case sim::STEP_LIMIT: return "step-limit"; default: return "time-limit"; }
}
}  // namespace h

namespace h {
void plan_stalls(int n, int max_phase) {
  int m = (int)sim::weighted(sim::F, {5, 3, 2, 1});
  for (int i = 0; i < m; ++i) {
    int p = (int)sim::choose(F, n), ph = (int)sim::choose(F, max_phase + 1);
    u64 off = sim::logu(F, 400);
    u64 dur = stall_time();
    if (sim::chance(F, 1, 2)) sim::plan_fault(sim::STALL, p, ph, off, 0, dur);
    else { int q = (int)sim::choose(F, n); if (q != p) sim::plan_fault(sim::LINK_STALL, p, ph, off, q, dur); }
  }
}
TcpRun run_tcp(Exec& e, bool draw_threaded) {
  TcpRun r;
  int n = e.spec.n;
  e.st.assign(n, PartyState());
  r.mesh = make_mesh(n, draw_threaded);
  const Mesh m = r.mesh;
  Exec* ep = &e;
  for (int i = 0; i < n; ++i) {
    sim::spawn("party", m.hosts[i], [ep, m, i] {
      sim::set_phase("connect");
      auto net = connect(m, i);
      run_party(*ep, i, net);
      sim::set_phase("close");
      net->Close();
    }, start_delay());
  }
  r.out = sim::run();
  return r;
}
sim::Outcome run_mem(Exec& e) {
  int n = e.spec.n;
  e.st.assign(n, PartyState());
  e.phases = false;
  Exec* ep = &e;
  int host = sim::add_host("10.0.0.1");
  sim::spawn("process", host, [ep, n] {
    sim::set_phase("in-memory");
    auto nets = scl::Network::CreateFullInMemory(n);
    std::vector<std::thread> th;
    for (int i = 0; i < n; ++i) {
      auto net = std::make_shared<scl::Network>(nets[i]);
      th.emplace_back([ep, i, net] { run_party(*ep, i, net); });
    }
    for (auto& t : th) t.join();
  });
  return sim::run();
}
void expect_all_good(Exec& e, sim::Outcome o, int nproc, const char* what) {
  if (sim::violated()) return;
  for (int i = 0; i < nproc; ++i) {
    const auto& pi = sim::info(i);
    if (pi.status == sim::FAILED) {
      sim::violation("party-failed", std::string(what) + ": process " + std::to_string(i) + " stopped in phase " + pi.phase + " without any fault: " + pi.why + "; " + e.spec.str());
      return;
    }
  }
  for (int i = 0; i < (int)e.st.size(); ++i) if (!check_outputs(e, i, "party ")) return;
  if (o != sim::DONE) {
    sim::violation("no-progress-" + outcome_name(o), std::string(what) + ": " + sim::blocked_report() + "; " + e.spec.str());
    return;
  }
  for (int i = 0; i < (int)e.st.size(); ++i) if (!e.st[i].finished || !e.st[i].have_outputs) {
    sim::violation("party-did-not-finish", std::string(what) + ": party " + std::to_string(i) + "; " + e.spec.str());
    return;
  }
}
}  // namespace h
