// C33: calls that come too early or do not fit are refused, and a refused call changes nothing.
#include "proto.h"
using namespace h;

namespace {
struct Poker {
  Exec* e;
  std::vector<int> level;                     // per wire: 0 known after the inputs, l + 1 after layer l
  std::vector<char> has_mult, has_input;      // in the cone of additions
  std::shared_ptr<scl::Network> other;
  std::vector<char> clear;                    // the library's evaluation in the clear may have taken place
  int done = 0;

  explicit Poker(Exec* x) : e(x), clear(x->spec.n, 0) {
    for (auto& nd : e->spec.nodes) {
      bool add = nd.t == Node::ADD;
      level.push_back(nd.t == Node::ADD ? std::max(level[nd.a], level[nd.b]) : nd.t == Node::IN ? 0 : nd.layer);
      has_mult.push_back(nd.t == Node::MUL || (add && (has_mult[nd.a] || has_mult[nd.b])));
      has_input.push_back(nd.t == Node::IN || (add && (has_input[nd.a] || has_input[nd.b])));
    }
  }
  template <typename F> void refuse(int id, const std::string& at, const std::string& what, F f) {
    bool threw = false;
    try { f(); } catch (const std::exception&) { threw = true; }
    ++done;
    sim::probe(("refused_" + what.substr(0, what.find(' '))).c_str());
    if (!threw) sim::violation("not-refused", "party " + std::to_string(id) + " at " + at + ": " + what + " was accepted; " + e->spec.str());
  }
  void operator()(int id, const std::string& at, PartyState& st) {
    int c = (int)sim::weighted(W, {3, 3, 2, 1});
    if (at == "inputs" && e->cleartext) clear[id] = 1;
    for (int i = 0; i < c && !sim::violated(); ++i) one(id, at, st);
  }
  void one(int id, const std::string& at, PartyState& st) {
    const Spec& s = e->spec;
    tp::Circuit& cir = *st.c;
    bool pre = at == "open" || at == "closed";
    if (pre) {
      bool network = at == "open" && sim::chance(W, 1, 2);
      if (network) { refuse(id, at, "SetNetwork on a circuit that is not closed", [&] { cir.SetNetwork(other, id); }); return; }
      if (sim::chance(W, 1, 2)) { refuse(id, at, "GenCorrelator without a network", [&] { cir.GenCorrelator(); }); return; }
    } else if (sim::chance(W, 1, 3)) {
      size_t have = s.inputs[id].size();
      size_t n = sim::chance(W, 1, 2) ? have + 1 + sim::choose(W, 3) : have ? sim::choose(W, have) : 1;
      std::vector<tp::FF> v(n, ff(gen_value()));
      refuse(id, at, "SetInputs with " + std::to_string(n) + " values for " + std::to_string(have) + " inputs", [&] { if (st.dn) st.dn->SetInputs(v); else cir.SetInputs(v); });
      return;
    }
    if (e->dn07 && sim::chance(W, 1, 6)) {
      size_t t = (s.n + 1) / 2 + sim::choose(W, 3);
      refuse(id, at, "DN07 for n=" + std::to_string(s.n) + ", t=" + std::to_string(t), [&] { tp::DN07 d(s.n, t); });
      return;
    }
    if (!e->dn07 && !pre && sim::chance(W, 1, 3)) {
      size_t t = (size_t[]){(size_t)s.t + 1, (size_t)s.t - 1, (size_t)s.n, (size_t)s.t + 2, 0}[sim::choose(W, 5)];
      if (t != (size_t)s.t) { refuse(id, at, "SetThreshold to " + std::to_string(t) + " with n=" + std::to_string(s.n) + ", k=" + std::to_string(s.k), [&] { cir.SetThreshold(t); }); return; }
    }
    if (!clear[id] && sim::chance(W, 1, 5)) {
      std::vector<std::vector<tp::FF>> in(sim::chance(W, 1, 2) ? s.n + 1 : s.n - 1, std::vector<tp::FF>(1));
      refuse(id, at, "SetClearInputs for " + std::to_string(in.size()) + " of " + std::to_string(s.n) + " parties", [&] { cir.SetClearInputs(in); });
      return;
    }
    // values of wires that are not known yet
    size_t w = sim::choose(W, s.nodes.size());
    tp::Gate* g = st.wires[w].get();
    if (!st.outs.empty() && sim::chance(W, 1, 4)) { size_t o = sim::choose(W, st.outs.size()); g = st.outs[o].get(); w = s.outs[o].wire; }
    std::string wire = "of wire " + std::to_string(w) + (g != st.wires[w].get() ? " (output)" : "");
    bool output = g != st.wires[w].get();
    switch (sim::weighted(W, {4, 2, 1, 1})) {
      case 0: {
        int known = -1;                        // highest level known at the first party
        if (id == 0 && !e->dn07) {
          if (at.compare(0, 5, "mult-") == 0) known = std::stoi(at.substr(5));
          else if (at == "out") known = s.depth();
          else if (at == "online-in") known = -1;
        }
        if (level[w] > known) refuse(id, at, "GetMu " + wire, [&] { g->GetMu(); });
        return;
      }
      case 1:
        if (!e->dn07 || at.compare(0, 3, "dn-") != 0 || at == "dn-prep") { if (at != "inputs" || !e->dn07) refuse(id, at, "GetDn07Share " + wire, [&] { g->GetDn07Share(); }); }
        return;
      case 2: if (!clear[id]) refuse(id, at, "GetClear " + wire, [&] { g->GetClear(); }); return;
      default: if (has_mult[w] && !output) refuse(id, at, "GetDummyLambda " + wire, [&] { g->GetDummyLambda(); });
    }
  }
};
void refused(bool dn07, bool mem) {
  GenOpt o;
  o.dn07 = dn07;
  auto* e = new Exec;
  e->dn07 = dn07;
  e->spec = gen_spec(o);
  e->sentinels = true;
  e->api = dn07 ? (sim::chance(W, 1, 4) ? 3 : 0) : (int)sim::weighted(W, {3, 1});
  e->cleartext = sim::chance(W, 1, 3);
  draw_prg();
  auto* p = new Poker(e);
  p->other = std::make_shared<scl::Network>(scl::Network::CreateFullInMemory(e->spec.n)[0]);
  e->poke = [p](int id, const std::string& at, PartyState& st) { (*p)(id, at, st); };
  sim::describe(std::string(dn07 ? "dn07 " : "turbopack ") + (mem ? "in-memory " : "tcp ") + "with refused calls, " + e->spec.str());
  if (mem) {
    sim::cfg.spurious = sim::chance(K, 1, 3) ? 60 : 0;
    auto out = run_mem(*e);
    if (!sim::violated()) expect_all_good(*e, out, 1, "in-memory");
  } else {
    sim::draw_network(true, fd_floor(e->spec, dn07));
    plan_stalls(e->spec.n, 6 + e->spec.depth());
    auto r = run_tcp(*e);
    if (!sim::violated()) expect_all_good(*e, r.out, e->spec.n, "tcp");
  }
  if (!p->done) sim::trivial();
}
}  // namespace
SCENARIO(C33, turbopack_tcp, 3) { refused(false, false); }
SCENARIO(C33, turbopack_in_memory, 2) { refused(false, true); }
SCENARIO(C33, dn07_tcp, 2) { refused(true, false); }
SCENARIO(C33, dn07_in_memory, 1) { refused(true, true); }
