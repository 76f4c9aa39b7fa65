// C20: party tables read from disk.
#include "proto.h"
#include <unistd.h>
using namespace h;

namespace {
struct Line { u64 id; std::string host; int port; };
std::string render(const std::vector<Line>& t, bool newline_at_end, bool crlf_safe = false) {
  std::string s;
  for (size_t i = 0; i < t.size(); ++i) s += std::to_string(t[i].id) + "," + t[i].host + "," + std::to_string(t[i].port) + (i + 1 < t.size() || newline_at_end ? "\n" : "");
  return s;
}
std::string host_name(bool big) {
  static const char* names[] = {"127.0.0.1", "10.1.2.3", "localhost", "node-7.example.org", "::1", "a", "256.1.1.1", "host name"};
  std::string s = names[sim::choose(W, 8)];
  if (big) s = std::string(sim::choose(W, 9000), 'h') + s;     // lines longer than a read buffer
  return s;
}
std::vector<Line> table(int n) {
  std::vector<Line> t;
  bool big = sim::chance(W, 1, 12);
  for (int i = 0; i < n; ++i) t.push_back({(u64)i, host_name(big && sim::chance(W, 1, 3)), sim::chance(W, 1, 2) ? 9900 + i : (int)sim::choose(W, 65536)});
  for (int i = n - 1; i > 0; --i) if (sim::chance(W, 3, 4)) std::swap(t[i], t[sim::choose(W, i + 1)]);
  return t;
}
std::string show(const std::vector<scl::Party>& t) {
  std::string s;
  for (size_t i = 0; i < t.size() && i < 8; ++i) s += "{" + std::to_string(t[i].id) + "," + t[i].hostname.substr(0, 30) + "," + std::to_string(t[i].port) + "}";
  return s;
}
enum Damage { INTACT, READ_ERROR, MISSING_FIELD, NOT_A_NUMBER, DUPLICATE, OUT_OF_RANGE, HUGE_ID, OWN_ID, EMPTY, LOST_LINE, OPEN_FAILS, NDAMAGE };
const char* damage_names[] = {"intact", "read error", "missing field", "not a number", "duplicate id", "id out of range", "id beyond 32 bits", "own id outside", "empty", "lost line", "no such file"};
struct Load { Damage dmg; std::string path, content; std::vector<Line> want; unsigned id; bool must_fail; };

Load draw_load(bool faults) {
  Load l;
  int n = sim::chance(W, 1, 10) ? 1 + (int)sim::logu(W, 300) : 1 + (int)sim::choose(W, 12);
  auto t = table(n);
  l.dmg = faults ? (Damage)sim::weighted(F, {1, 6, 2, 2, 2, 2, 2, 1, 1, 2, 1}) : INTACT;
  if (n < 2 && (l.dmg == DUPLICATE || l.dmg == LOST_LINE)) l.dmg = READ_ERROR;
  l.id = (unsigned)sim::choose(W, n);
  l.want = t;
  size_t at = sim::choose(F, n);
  sim::VFile f;
  bool nl = sim::chance(W, 1, 2);
  l.must_fail = l.dmg != INTACT;
  switch (l.dmg) {
    case DUPLICATE: t[at].id = t[(at + 1 + sim::choose(F, n - 1)) % n].id; break;
    case OUT_OF_RANGE: t[at].id = n + sim::logu(F, 1ull << 31); break;
    case HUGE_ID: t[at].id = ((1 + sim::choose(F, 1ull << 31)) << 32) + (sim::chance(F, 1, 2) ? t[at].id : sim::choose(F, n)); break;
    case OWN_ID: l.id = n + (unsigned)sim::logu(F, 1u << 31); break;
    case LOST_LINE: t.erase(t.begin() + at); break;          // may leave a smaller valid table
    default: break;
  }
  f.content = render(t, nl);
  if (l.dmg == LOST_LINE) {
    // valid when the last id was lost and the own id still fits
    bool valid = l.want[at].id == (u64)n - 1 && l.id < (unsigned)(n - 1);
    l.must_fail = !valid;
    if (valid) l.want = t;
  }
  if (l.dmg == MISSING_FIELD || l.dmg == NOT_A_NUMBER) {
    std::vector<std::string> lines;
    for (auto& x : t) lines.push_back(render({x}, false));
    std::string& s = lines[at];
    if (l.dmg == MISSING_FIELD) {
      switch (sim::choose(F, 6)) {
        case 4: s = s.substr(0, s.rfind(',')); break;                                               // no port and no comma before it
        case 5: s = s.substr(s.find(',') + 1); break;                                               // no id and no comma behind it
        case 0: s = std::to_string(t[at].id) + t[at].host; break;                                     // no comma
        case 1: s = s.substr(0, s.rfind(',') + 1); break;                                           // no port
        case 2: s = s.substr(s.find(',')); break;                                                   // no id
        default: s = ""; break;                                                                     // blank line
      }
    } else {
      std::string front = s.substr(0, s.rfind(',') + 1);
      switch (sim::choose(F, 9)) {
        case 3: s = std::to_string(t[at].id) + "x" + s.substr(s.find(',')); break;
        case 4: s += "0x"; break;
        case 5: s = std::to_string(t[at].id) + ".0" + s.substr(s.find(',')); break;
        case 6: s = front + std::to_string(65536 + sim::logu(F, 1 << 30)); break;
        case 7: s = front + "-" + std::to_string(1 + t[at].port); break;
        case 8: s = "-" + std::to_string(1 + t[at].id) + s.substr(s.find(',')); break;
        case 0: s = "x" + s; break;
        case 1: s = s.substr(0, s.rfind(',') + 1) + "port"; break;
        default: s = std::to_string(t[at].id) + "," + t[at].host + ",99999999999999"; break;
      }
      
    }
    f.content.clear();
    for (size_t i = 0; i < lines.size(); ++i) f.content += lines[i] + "\n";
  }
  if (l.dmg == EMPTY) f.content = "";
  if (l.dmg == READ_ERROR) { f.fail_at = (int64_t)sim::choose(F, f.content.size() + 1); f.err = sim::chance(F, 1, 2) ? 5 : 116; }
  f.short_reads = sim::chance(K, 1, 2) ? 128 + (unsigned)sim::choose(K, 128) : 0;
  l.content = f.content;
  l.path = sim::add_vfile(f);
  if (l.dmg == OPEN_FAILS) l.path += ".absent";
  return l;
}
void check_load(const Load& l) {
  bool ok = false;
  scl::NetworkConfig c;
  std::string why;
  try { c = scl::NetworkConfig::Load(l.id, l.path); ok = true; } catch (const std::exception& e) { why = e.what(); }
  std::string what = std::string(damage_names[l.dmg]) + ", table of " + std::to_string(l.want.size()) + " parties, own id " + std::to_string(l.id);
  if (!ok) {
    if (!l.must_fail) { sim::violation("intact-table-refused", what + ": " + why); return; }
    sim::probe("refused");
    return;
  }
  if (l.dmg == READ_ERROR && !sim::vfiles[l.path].fired) { /* nothing read that far */ }
  else if (l.must_fail) { sim::violation("damaged-table-accepted", what + ": " + show(c.Parties())); return; }
  if (c.Id() != l.id) { sim::violation("wrong-own-id", what + ": " + std::to_string(c.Id())); return; }
  if (c.NetworkSize() != l.want.size() || c.Parties().size() != l.want.size()) { sim::violation("wrong-table", what + ": " + std::to_string(c.NetworkSize()) + " parties loaded"); return; }
  auto ps = c.Parties();
  for (auto& x : l.want) {
    int hits = 0;
    for (auto& p : ps) if (p.id == x.id) { ++hits; if (p.hostname != x.host || p.port != x.port) { sim::violation("wrong-table", what + ": entry of id " + std::to_string(x.id) + " is " + show({p})); return; } }
    if (hits != 1) { sim::violation("wrong-table", what + ": " + std::to_string(hits) + " entries of id " + std::to_string(x.id)); return; }
    scl::Party p;
    try { p = c.GetParty((unsigned)x.id); } catch (const std::exception& e) { sim::violation("lookup-by-id", what + ": id " + std::to_string(x.id) + " not found: " + e.what()); return; }
    if (p.id != x.id || p.hostname != x.host || p.port != x.port) { sim::violation("lookup-by-id", what + ": looking up id " + std::to_string(x.id) + " gives " + show({p})); return; }
  }
  // copies share nothing
  scl::NetworkConfig d = c;
  c = scl::NetworkConfig();
  if (d.NetworkSize() != l.want.size() || d.GetParty((unsigned)l.want[0].id).hostname != l.want[0].host) { sim::violation("wrong-table", what + ": a copy differs"); return; }
  sim::probe("tables_verified");
  sim::probe("entries_verified", l.want.size());
}
void loads(bool faults) {
  sim::cfg.guard_alloc = sim::chance(K, 1, 8);
  int parties = 1 + (int)sim::choose(W, 3), per = 1 + (int)sim::choose(W, 4);
  auto* all = new std::vector<std::vector<Load>>(parties);
  std::string d;
  for (auto& v : *all) for (int i = 0; i < per; ++i) { v.push_back(draw_load(faults)); d += std::string(d.empty() ? "" : "; ") + std::to_string(v.back().want.size()) + " parties, " + damage_names[v.back().dmg]; }
  sim::describe(d);
  for (int i = 0; i < parties; ++i) sim::spawn("loader", sim::add_host("10.0.0." + std::to_string(i + 1)), [=] {
    sim::set_phase("load");
    for (auto& l : (*all)[i]) { check_load(l); if (sim::violated()) return; sim::yield(); }
  });
  auto out = sim::run();
  if (sim::violated()) return;
  for (int i = 0; i < parties; ++i) if (sim::info(i).status == sim::FAILED) { sim::violation("loader-failed", sim::info(i).why); return; }
  if (out != sim::DONE) sim::violation("hang-" + outcome_name(out), sim::blocked_report());
}
}  // namespace
SCENARIO(C20, intact, 2) { loads(false); }
SCENARIO(C20, damaged, 4) { loads(true); }

// Every party loads its own copy of the table (lines in another order); they connect by it and tell
// each other who they are. One copy may be unreadable: that party must not take part.
SCENARIO(C20, connect_by_table, 3) {
  int n = 2 + (int)sim::choose(W, 5);
  bool bad = sim::chance(F, 1, 4);
  int victim = bad ? (int)sim::choose(F, n) : -1;
  sim::draw_network(true, 4096);
  Mesh m = make_mesh(n, false);
  std::vector<Line> t;
  for (int i = 0; i < n; ++i) t.push_back({(u64)i, m.ips[i], m.base_port + (m.localhost ? i : 0)});
  auto* paths = new std::vector<std::string>;
  int64_t cut = -1;
  for (int i = 0; i < n; ++i) {
    auto own = t;
    for (int k = n - 1; k > 0; --k) std::swap(own[k], own[sim::choose(W, k + 1)]);
    sim::VFile f;
    f.content = render(own, sim::chance(W, 1, 2));
    f.short_reads = sim::chance(K, 1, 2) ? 200 : 0;
    if (i == victim) f.fail_at = cut = (int64_t)sim::choose(F, f.content.size());
    paths->push_back(sim::add_vfile(f));
  }
  sim::describe("connect by table, n=" + std::to_string(n) + (bad ? ", read error at byte " + std::to_string(cut) + " for party " + std::to_string(victim) : ""));
  auto* done = new std::vector<char>(n, 0);
  auto* refused = new bool(false);
  for (int i = 0; i < n; ++i) sim::spawn("party", m.hosts[i], [=] {
    sim::set_phase("load");
    scl::NetworkConfig c;
    try { c = scl::NetworkConfig::Load(i, (*paths)[i]); } catch (const std::exception& e) { if (i != victim) throw; *refused = true; return; }
    if (victim >= 0) { if (i == victim) sim::violation("damaged-table-accepted", "a read error gave " + show(c.Parties())); return; }
    sim::set_phase("connect");
    auto net = scl::Network::Create(c);
    sim::set_phase("talk");
    if ((int)net.Size() != n) { sim::violation("wrong-table", "network of " + std::to_string(net.Size())); return; }
    for (int p = 0; p < n; ++p) { int who[2] = {i, p}; net.Party(p)->Send(who); }
    for (int p = 0; p < n; ++p) { int who[2]; net.Party(p)->Recv(who); if (who[0] != p || who[1] != i) { sim::violation("lookup-by-id", "channel " + std::to_string(p) + " of party " + std::to_string(i) + " leads to party " + std::to_string(who[0])); return; } }
    (*done)[i] = 1;
    sim::barrier("talked", n);
    net.Close();
  }, start_delay());
  auto out = sim::run();
  if (sim::violated()) return;
  for (int i = 0; i < n; ++i) if (sim::info(i).status == sim::FAILED) { sim::violation("party-failed", "party " + std::to_string(i) + " in " + sim::info(i).phase + ": " + sim::info(i).why); return; }
  if (out != sim::DONE) { sim::violation("hang-" + outcome_name(out), sim::blocked_report()); return; }
  if (victim < 0) sim::probe("meshes_by_table");
}
