// C10, C11, C12: the correlated randomness that preprocessing leaves at the parties.
#include "proto.h"
#include <set>
using namespace h;

namespace {
Exec* draw(bool dn07, bool mem, bool stop_fi) {
  GenOpt o;
  o.dn07 = dn07;
  o.large = true;
  auto* e = new Exec;
  e->dn07 = dn07;
  e->capture = !dn07;
  e->stop_after_fi = stop_fi;
  e->spec = gen_spec(o);
  draw_prg();
  sim::describe(std::string(dn07 ? "dn07 " : "turbopack ") + (mem ? "in-memory " : "tcp ") + e->spec.str());
  return e;
}
// Runs it; false when it did not finish everywhere.
bool execute(Exec* e, bool mem) {
  sim::Outcome out;
  int nproc = 1;
  if (mem) {
    sim::cfg.spurious = sim::chance(K, 1, 3) ? 60 : 0;
    out = run_mem(*e);
  } else {
    sim::draw_network(true, fd_floor(e->spec, e->dn07));
    plan_stalls(e->spec.n, e->stop_after_fi ? 3 : 6 + e->spec.depth());
    out = run_tcp(*e).out;
    nproc = e->spec.n;
  }
  if (sim::violated()) return false;
  for (int i = 0; i < nproc; ++i) if (sim::info(i).status == sim::FAILED) { sim::violation("party-failed", "process " + std::to_string(i) + " in phase " + sim::info(i).phase + ": " + sim::info(i).why); return false; }
  if (out != sim::DONE) { sim::violation("no-progress-" + outcome_name(out), sim::blocked_report()); return false; }
  for (auto& s : e->st) if (!s.finished) { sim::violation("party-did-not-finish", e->spec.str()); return false; }
  return true;
}
// A sharing: party i holds the value at point i+1.
struct Sharing {
  std::vector<u64> v;
  u64 at(u64 x) const { std::vector<u64> xs; for (size_t i = 0; i < v.size(); ++i) xs.push_back(i + 1); return lagrange(xs, v, x); }
  bool degree(size_t d) const { std::vector<u64> xs; for (size_t i = 0; i < v.size(); ++i) xs.push_back(i + 1); return degree_at_most(xs, v, d); }
  u64 slot(int i) const { return at(i ? P61 - (u64)i : 0); }
};
struct Prep {
  int n, t, k;
  std::vector<Sharing> wire, out;                       // per wire, per output
  struct B3 { Sharing a, b, c, o1, o2, o3; };
  std::map<std::string, B3> mult;
  std::map<std::string, Sharing> io;
  int nameless = 0;
};
bool pick(Exec* e, Prep& p) {
  Spec& s = e->spec;
  p.n = s.n; p.t = s.t; p.k = s.k;
  p.wire.resize(s.nodes.size());
  p.out.resize(s.outs.size());
  for (int i = 0; i < s.n; ++i) {
    PartyState& st = e->st[i];
    tp::Correlator& c = *st.corr;
    std::map<tp::Gate*, std::string> ids;
    for (size_t w = 0; w < st.wires.size(); ++w) ids[st.wires[w].get()] = "w" + std::to_string(w);
    for (size_t w = 0; w < st.outs.size(); ++w) ids[st.outs[w].get()] = "o" + std::to_string(w);
    for (size_t w = 0; w < st.wires.size(); ++w) {
      auto it = c.mMapIndShrs.find(st.wires[w]);
      if (it == c.mMapIndShrs.end()) { sim::violation("wire-without-mask", "party " + std::to_string(i) + " holds no share of the mask of wire " + std::to_string(w) + "; " + s.str()); return false; }
      p.wire[w].v.push_back(val(it->second));
    }
    for (size_t w = 0; w < st.outs.size(); ++w) {
      auto it = c.mMapIndShrs.find(st.outs[w]);
      if (it == c.mMapIndShrs.end()) { sim::violation("wire-without-mask", "party " + std::to_string(i) + " holds no share of the mask of output " + std::to_string(w) + "; " + s.str()); return false; }
      p.out[w].v.push_back(val(it->second));
    }
    auto is_blank = [](const std::string& x) { return x.find_first_not_of(". ") == std::string::npos; };
    int blanks = 0;
    for (auto& kv : c.mMapMultBatch) {
      auto b = kv.first;
      std::string nm = "mult ";
      std::string g;
      for (int j = 0; j < s.k; ++j) { auto it = ids.find(b->GetMultGate(j).get()); g += (it == ids.end() ? "." : it->second) + std::string(" "); }
      if (is_blank(g)) { ++blanks; continue; }          // batches of padding only cannot be told apart between parties
      auto& x = p.mult[nm + g];
      x.a.v.push_back(val(kv.second.mShrA)); x.b.v.push_back(val(kv.second.mShrB)); x.c.v.push_back(val(kv.second.mShrC));
      x.o1.v.push_back(val(kv.second.mShrO1)); x.o2.v.push_back(val(kv.second.mShrO2)); x.o3.v.push_back(val(kv.second.mShrO3));
    }
    if (i == 0) p.nameless = blanks;
    for (auto& kv : c.mMapInputBatch) {
      auto b = kv.first;
      std::string g;
      for (int j = 0; j < s.k; ++j) { auto it = ids.find(b->GetInputGate(j).get()); g += (it == ids.end() ? "." : it->second) + std::string(" "); }
      if (!is_blank(g)) p.io["in " + g].v.push_back(val(kv.second.mShrO));
    }
    for (auto& kv : c.mMapOutputBatch) {
      auto b = kv.first;
      std::string g;
      for (int j = 0; j < s.k; ++j) { auto it = ids.find(b->GetOutputGate(j).get()); g += (it == ids.end() ? "." : it->second) + std::string(" "); }
      if (!is_blank(g)) p.io["out " + g].v.push_back(val(kv.second.mShrO));
    }
  }
  // every wire that multiplies, every input and every output must sit in exactly one batch at every party
  auto whole = [&](const std::vector<u64>& v) { return (int)v.size() == s.n; };
  std::map<std::string, int> seen;
  for (auto& kv : p.mult) {
    if (!whole(kv.second.a.v)) { sim::violation("batch-not-shared", kv.first + "is a batch of " + std::to_string(kv.second.a.v.size()) + " of " + std::to_string(s.n) + " parties; " + s.str()); return false; }
    std::string x; for (char ch : kv.first.substr(5)) { if (ch == ' ') { if (x != ".") seen[x]++; x.clear(); } else x += ch; }
  }
  for (auto& kv : p.io) {
    if (!whole(kv.second.v)) { sim::violation("batch-not-shared", kv.first + "is a batch of " + std::to_string(kv.second.v.size()) + " of " + std::to_string(s.n) + " parties; " + s.str()); return false; }
    std::string x; for (char ch : kv.first.substr(kv.first.find(' ') + 1)) { if (ch == ' ') { if (x != ".") seen[(kv.first[0] == 'i' ? "" : "") + x]++; x.clear(); } else x += ch; }
  }
  auto need = [&](const std::string& id) {
    if (seen[id] == 1) return true;
    sim::violation("gate-without-batch", id + " belongs to " + std::to_string(seen[id]) + " batches; " + s.str());
    return false;
  };
  for (size_t w = 0; w < s.nodes.size(); ++w) if (s.nodes[w].t != Node::ADD && !need("w" + std::to_string(w))) return false;
  for (size_t w = 0; w < s.outs.size(); ++w) if (!need("o" + std::to_string(w))) return false;
  return true;
}
void consistency(Exec* e, Prep& p) {
  Spec& s = e->spec;
  size_t d = (size_t)(p.n - p.k);
  auto bad = [&](const std::string& cls, const std::string& what) { sim::violation(cls, what + "; " + s.str()); };
  std::vector<u64> lam(s.nodes.size());
  for (size_t w = 0; w < s.nodes.size(); ++w) {
    if (!p.wire[w].degree(d)) return bad("mask-degree", "the shares of the mask of wire " + std::to_string(w) + " are not on a polynomial of degree n-k");
    lam[w] = p.wire[w].slot(0);
    for (int j = 1; j < p.k; ++j) if (p.wire[w].slot(j) != lam[w]) return bad("mask-slots-differ", "the mask of wire " + std::to_string(w) + " differs between slot 0 and slot " + std::to_string(j));
    sim::probe("wire_masks_checked");
  }
  for (size_t w = 0; w < s.nodes.size(); ++w) if (s.nodes[w].t == Node::ADD && lam[w] != addm(lam[s.nodes[w].a], lam[s.nodes[w].b])) return bad("add-mask", "the mask of addition wire " + std::to_string(w) + " is not the sum of its parents' masks");
  for (size_t o = 0; o < s.outs.size(); ++o) {
    if (!p.out[o].degree(d)) return bad("mask-degree", "the shares of the mask of output " + std::to_string(o) + " are not on a polynomial of degree n-k");
    for (int j = 0; j < p.k; ++j) if (p.out[o].slot(j) != lam[s.outs[o].wire]) return bad("output-mask", "the mask of output " + std::to_string(o) + " is not that of its wire");
  }
  for (auto& kv : p.mult) {
    auto& b = kv.second;
    if (!b.a.degree(d) || !b.b.degree(d)) return bad("triple-degree", kv.first + ": the random pair is not shared with degree n-k");
    for (int j = 0; j < p.k; ++j) {
      if (b.c.slot(j) != mulm(b.a.slot(j), b.b.slot(j))) return bad("triple-product", kv.first + ": the third sharing is not the product in slot " + std::to_string(j));
      if (b.o1.slot(j)) return bad("zero-not-zero", kv.first + ": first zero sharing, slot " + std::to_string(j));
      if (b.o2.slot(j)) return bad("zero-not-zero", kv.first + ": second zero sharing, slot " + std::to_string(j));
      if (b.o3.slot(j)) return bad("zero-not-zero", kv.first + ": third zero sharing, slot " + std::to_string(j));
    }
    sim::probe("triples_checked");
  }
  for (auto& kv : p.io) {
    for (int j = 0; j < p.k; ++j) if (kv.second.slot(j)) return bad("zero-not-zero", kv.first + ": zero sharing, slot " + std::to_string(j));
    sim::probe("io_zero_sharings_checked");
  }
}
void single_use(Exec* e, Prep& p) {
  Spec& s = e->spec;
  std::map<u64, std::string> values;                 // masks and the random pairs
  std::map<std::vector<u64>, std::string> zeros;
  auto value = [&](u64 v, const std::string& what) {
    if (v == 0) { sim::violation("randomness-missing", what + " is zero; " + s.str()); return false; }
    auto r = values.emplace(v, what);
    if (!r.second) { sim::violation("randomness-reused", what + " is also " + r.first->second + "; " + s.str()); return false; }
    return true;
  };
  auto zero = [&](const Sharing& z, const std::string& what) {
    bool all = true;
    for (u64 x : z.v) all = all && x == 0;
    if (all) { sim::violation("randomness-missing", what + " is all zero; " + s.str()); return false; }
    auto r = zeros.emplace(z.v, what);
    if (!r.second) { sim::violation("randomness-reused", what + " is also " + r.first->second + "; " + s.str()); return false; }
    return true;
  };
  for (size_t w = 0; w < s.nodes.size(); ++w) {
    if (s.nodes[w].t == Node::ADD) continue;
    if (!value(p.wire[w].slot(0), "the mask of wire " + std::to_string(w))) return;
  }
  for (auto& kv : p.mult) {
    for (int j = 0; j < p.k; ++j) {
      if (!value(kv.second.a.slot(j), "the first random value of " + kv.first + "in slot " + std::to_string(j))) return;
      if (!value(kv.second.b.slot(j), "the second random value of " + kv.first + "in slot " + std::to_string(j))) return;
    }
    if (!zero(kv.second.o1, "the first zero sharing of " + kv.first) || !zero(kv.second.o2, "the second zero sharing of " + kv.first) || !zero(kv.second.o3, "the third zero sharing of " + kv.first)) return;
  }
  for (auto& kv : p.io) if (!zero(kv.second, "the zero sharing of " + kv.first)) return;
  sim::probe("random_values_checked", values.size());
  sim::probe("zero_sharings_checked", zeros.size());
}
void prep(bool mem, bool whole, void (*check)(Exec*, Prep&)) {
  Exec* e = draw(false, mem, !whole);
  if (!execute(e, mem)) return;
  Prep p;
  if (pick(e, p)) check(e, p);
}
void masked_values(Exec* e, Prep& p) {
  Spec& s = e->spec;
  PartyState& st = e->st[0];
  for (size_t w = 0; w < s.nodes.size(); ++w) {
    u64 got = addm(st.mus[w], p.wire[w].slot(0));
    sim::mix(st.mus[w]);
    if (got != s.clear[w]) { sim::violation("masked-value", std::string(s.nodes[w].t == Node::IN ? "input" : s.nodes[w].t == Node::ADD ? "addition" : "multiplication") + " wire " + std::to_string(w) + ": masked value plus mask is " + std::to_string(got) + ", the value is " + std::to_string(s.clear[w]) + "; " + s.str()); return; }
  }
  for (size_t o = 0; o < s.outs.size(); ++o) {
    u64 got = addm(st.out_mus[o], p.out[o].slot(0));
    if (got != s.clear[s.outs[o].wire]) { sim::violation("masked-value", "output " + std::to_string(o) + ": masked value plus mask is " + std::to_string(got) + ", the value is " + std::to_string(s.clear[s.outs[o].wire]) + "; " + s.str()); return; }
  }
  sim::probe("wires_checked", s.nodes.size() + s.outs.size());
}
// The baseline: a party outside the first n-t keeps its share of a gate's random sharing as its share of the gate.
void dn_single_use(bool mem) {
  Exec* e = draw(true, mem, false);
  if (!execute(e, mem)) return;
  Spec& s = e->spec;
  if (s.n == 3 && !(g_prg_random && g_prg_calls)) { sim::trivial(); return; }     // there, two sharings of a block coincide because all dealers use the same seed
  for (int i = s.n - s.t; i < s.n; ++i) {
    std::map<u64, size_t> seen;
    for (size_t w = 0; w < s.nodes.size(); ++w) {
      if (s.nodes[w].t == Node::ADD) continue;
      u64 v = val(e->st[i].wires[w]->GetDn07Share());
      if (v == 0) { sim::violation("randomness-missing", "baseline: party " + std::to_string(i) + " holds 0 as its random share for wire " + std::to_string(w) + "; " + s.str()); return; }
      auto r = seen.emplace(v, w);
      if (!r.second) { sim::violation("randomness-reused", "baseline: wires " + std::to_string(r.first->second) + " and " + std::to_string(w) + " use the same random sharing; " + s.str()); return; }
      sim::probe("baseline_random_shares_checked");
    }
  }
}
}  // namespace
SCENARIO(C10, tcp, 3) { prep(false, false, consistency); }
SCENARIO(C10, in_memory, 2) { prep(true, false, consistency); }
SCENARIO(C10, tcp_whole_run, 1) { prep(false, true, consistency); }
SCENARIO(C11, tcp, 3) { prep(false, true, masked_values); }
SCENARIO(C11, in_memory, 2) { prep(true, true, masked_values); }
SCENARIO(C12, turbopack_tcp, 3) { prep(false, false, single_use); }
SCENARIO(C12, turbopack_in_memory, 2) { prep(true, false, single_use); }
SCENARIO(C12, dn07_tcp, 2) { dn_single_use(false); }
SCENARIO(C12, dn07_in_memory, 1) { dn_single_use(true); }
