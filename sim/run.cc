// Runner: explores seeds over forked children, checks determinism, minimises and replays violations.
#include "core.h"

#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdio.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#include <algorithm>
#include <fstream>
#include <iostream>
#include <set>
#include <sstream>

namespace sim { extern void (*g_on_fatal)(); }
using namespace sim;

static const size_t kRecBytes = 48u << 20;

struct NameCount { char name[56]; uint64_t n; };
struct WorkerStats {
  Result res;
  uint64_t runs, trivial, violations, known, sim_ns, steps, switches, preempt, det_reruns, det_bad, max_steps, max_cpu, died;
  uint64_t det_bad_seed; int det_bad_scen;
  uint64_t faults[NFAULTKINDS + 9];
  uint64_t fault_runs[NFAULTKINDS + 9];
  NameCount probes[200];
  NameCount knowns[64];
  char known_detail[64][256];
};
struct RunRec { uint64_t hash, sched; uint32_t scen; uint8_t state; };   // state 1 ok, 2 trivial, 3 violation, 4 known
struct Shared {
  volatile uint64_t next;
  volatile int stop;
  volatile uint64_t first_bad;
  WorkerStats w[16];
};
static Shared* g_sh;
static char* g_recbuf;         // serialised choices of the last run of this process' children
static RunRec* g_runs;

static void* shm(size_t n) {
  void* p = mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (p == MAP_FAILED) { perror("mmap"); _exit(3); }
  return p;
}
static double wall() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
static uint64_t h64(uint64_t x) { x += 0x9E3779B97F4A7C15ull; x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9ull; x = (x ^ (x >> 27)) * 0x94D049BB133111EBull; return x ^ (x >> 31); }
static uint64_t hstr(const char* s) { uint64_t h = 1469598103934665603ull; for (; *s; ++s) h = (h ^ (uint8_t)*s) * 1099511628211ull; return h; }

static void dump_choices() {
  uint64_t* p = (uint64_t*)g_recbuf;
  uint64_t* end = (uint64_t*)(g_recbuf + kRecBytes) - 2;
  for (int s = 0; s < NSTREAMS; ++s) {
    uint64_t* cnt = p++;
    *cnt = 0;
    for (auto& e : g_rec[s]) {
      if (p + 2 + NSTREAMS > end) break;
      *p++ = e.first;
      *p++ = e.second;
      ++*cnt;
    }
  }
}
static void load_choices(std::vector<Sparse>& out) {
  out.assign(NSTREAMS, {});
  uint64_t* p = (uint64_t*)g_recbuf;
  for (int s = 0; s < NSTREAMS; ++s) {
    uint64_t n = *p++;
    for (uint64_t i = 0; i < n; ++i) { uint32_t a = (uint32_t)*p++; out[s].emplace_back(a, *p++); }
  }
}

static const unsigned kCpuSeconds = 10;       // a run that does not advance for two of these is endless
static int g_trace_fd = -1;
static uint64_t g_cpu_ms;      // of the last run

// Runs one scenario in a forked child; the result is in *r.
static void run_child(const Scenario& sc, uint64_t seed, const Sparse* replay, bool dump, Result* r) {
  memset(r, 0, sizeof *r);
  pid_t pid = fork();
  if (pid < 0) { perror("fork"); _exit(3); }
  if (pid == 0) {
    g_result = r;
    int nul = open("/dev/null", O_RDWR);
    dup2(nul, 0);
    dup2(nul, 1);
    if (g_trace_fd >= 0) { dup2(g_trace_fd, 2); g_trace = true; }
    else if (!getenv("SIM_STDERR")) dup2(nul, 2);
    if (nul > 2) close(nul);
    rlimit as{6ull << 30, 6ull << 30};
    setrlimit(RLIMIT_AS, &as);
    rlimit core{0, 0};
    setrlimit(RLIMIT_CORE, &core);
    install_signal_handlers();
    itimerval it{{kCpuSeconds, 0}, {kCpuSeconds, 0}};
    setitimer(ITIMER_VIRTUAL, &it, nullptr);
    if (dump) g_on_fatal = dump_choices;
    begin_run(seed, replay);
    sc.fn();
    finish_result();
    if (dump) dump_choices();
    _exit(0);
  }
  int st;
  rusage ru;
  while (wait4(pid, &st, 0, &ru) < 0 && errno == EINTR) {}
  g_cpu_ms = ru.ru_utime.tv_sec * 1000 + ru.ru_utime.tv_usec / 1000;
  if (r->state == 0) {
    r->violated = 1;
    r->died = WIFSIGNALED(st) ? WTERMSIG(st) : 1000 + WEXITSTATUS(st);
    snprintf(r->cls, sizeof r->cls, "simulation-process-died-%d", r->died);
    snprintf(r->detail, sizeof r->detail, "the simulated process ended without a result (%d)", r->died);
    r->hash = r->died;
  }
}

static void bump(NameCount* t, size_t n, const char* name, size_t len, uint64_t v) {
  if (len > 55) len = 55;
  for (size_t i = 0; i < n; ++i) {
    if (t[i].name[0] && strncmp(t[i].name, name, len) == 0 && t[i].name[len] == 0) { t[i].n += v; return; }
    if (!t[i].name[0]) { memcpy(t[i].name, name, len); t[i].name[len] = 0; t[i].n = v; return; }
  }
}
static void add_probes(WorkerStats& w, const char* p) {
  while (*p) {
    const char* e = strchr(p, '=');
    const char* q = e ? strchr(e, ';') : nullptr;
    if (!q) break;
    bump(w.probes, 200, p, e - p, strtoull(e + 1, nullptr, 10));
    p = q + 1;
  }
}

struct Plan { std::vector<int> scen; std::vector<unsigned> w; unsigned total = 0; std::vector<int> directed; };
static uint64_t seed_of(uint64_t base, const Scenario& sc, uint64_t idx) { return h64(h64(base ^ hstr(sc.name)) + idx); }
static void pick(const Plan& pl, uint64_t base, uint64_t idx, int& si, uint64_t& seed) {
  if (idx < pl.directed.size()) si = pl.directed[idx];
  else {
    unsigned r = h64(base * 77 + idx) % pl.total;
    size_t k = 0;
    while (r >= pl.w[k]) r -= pl.w[k++];
    si = pl.scen[k];
  }
  seed = seed_of(base, scenarios()[si], idx);
}

static void worker(int id, const Plan& pl, uint64_t base, uint64_t maxruns, double deadline, unsigned det_every) {
  WorkerStats& w = g_sh->w[id];
  for (;;) {
    if (g_sh->stop || wall() > deadline) return;
    uint64_t idx = __sync_fetch_and_add(&g_sh->next, 1);
    if (idx >= maxruns) return;
    int si; uint64_t seed;
    pick(pl, base, idx, si, seed);
    const Scenario& sc = scenarios()[si];
    Result* r = &w.res;
    run_child(sc, seed, nullptr, false, r);
    ++w.runs;
    w.sim_ns += r->sim_ns; w.steps += r->steps; w.switches += r->switches; w.preempt += r->preemptions;
    if (r->steps > w.max_steps) w.max_steps = r->steps;
    if (g_cpu_ms > w.max_cpu) w.max_cpu = g_cpu_ms;
    for (int k = 0; k < NFAULTKINDS + 9; ++k) { w.faults[k] += r->faults[k]; w.fault_runs[k] += r->faults[k] != 0; }
    add_probes(w, r->probes);
    RunRec& rr = g_runs[idx];
    rr.hash = r->hash ^ h64(si); rr.sched = r->sched_hash; rr.scen = si;
    rr.state = r->violated == 1 ? 3 : r->violated == 2 ? 4 : r->trivial ? 2 : 1;
    if (r->trivial) ++w.trivial;
    if (r->violated == 2) {
      ++w.known;
      bump(w.knowns, 64, r->key, strlen(r->key), 1);
      for (int k = 0; k < 64; ++k) if (!strncmp(w.knowns[k].name, r->key, 55) && !w.known_detail[k][0]) snprintf(w.known_detail[k], 256, "%s", r->detail);
    }
    if (r->violated == 1) {
      ++w.violations;
      for (;;) {
        uint64_t cur = g_sh->first_bad;
        if (cur <= idx || __sync_bool_compare_and_swap(&g_sh->first_bad, cur, idx)) break;
      }
      g_sh->stop = 1;
    }
    if (det_every && (idx % det_every) == 0) {
      uint64_t hash = r->hash, sh = r->sched_hash, steps = r->steps;
      int v = r->violated;
      run_child(sc, seed, nullptr, false, r);
      ++w.det_reruns;
      if (r->hash != hash || r->sched_hash != sh || r->steps != steps || r->violated != v) {
        ++w.det_bad; w.det_bad_seed = seed; w.det_bad_scen = si;
      }
    }
  }
}

// ---- replay files -------------------------------------------------------------------------------
static const char* stream_names[NSTREAMS] = {"workload", "config", "schedule", "network", "fault"};
static void write_replay(const std::string& path, const Scenario& sc, uint64_t seed, const std::vector<Sparse>& c, const Result& r) {
  std::ofstream f(path);
  f << "# deterministic simulation replay: bin/replay <this file>\n";
  f << "property " << sc.property << "\nscenario " << sc.name << "\nseed " << seed << "\nclass " << r.cls << "\n";
  f << "hash " << r.hash << "\nsteps " << r.steps << "\n";
  std::string d = r.detail; std::replace(d.begin(), d.end(), '\n', ' ');
  std::string w = r.desc; std::replace(w.begin(), w.end(), '\n', ' ');
  f << "detail " << d << "\nworkload " << w << "\n";
  for (int s = 0; s < NSTREAMS; ++s) {
    f << "choices " << stream_names[s] << " " << c[s].size();
    for (auto& e : c[s]) f << " " << e.first << ":" << e.second;
    f << "\n";
  }
}
struct Replay { std::string property, scenario, cls; uint64_t seed = 0, hash = 0; std::vector<Sparse> c; };
static bool read_replay(const std::string& path, Replay& r) {
  std::ifstream f(path);
  if (!f) return false;
  r.c.assign(NSTREAMS, {});
  std::string line;
  while (std::getline(f, line)) {
    std::istringstream is(line);
    std::string k;
    is >> k;
    if (k == "property") is >> r.property;
    else if (k == "scenario") is >> r.scenario;
    else if (k == "seed") is >> r.seed;
    else if (k == "hash") is >> r.hash;
    else if (k == "class") is >> r.cls;
    else if (k == "choices") {
      std::string n; size_t cnt;
      is >> n >> cnt;
      for (int s = 0; s < NSTREAMS; ++s) if (n == stream_names[s]) {
        for (size_t i = 0; i < cnt; ++i) { unsigned a; char c; uint64_t v; is >> a >> c >> v; r.c[s].emplace_back(a, v); }
      }
    }
  }
  return !r.scenario.empty();
}
static int find_scenario(const std::string& prop, const std::string& name) {
  for (size_t i = 0; i < scenarios().size(); ++i)
    if (name == scenarios()[i].name && (prop.empty() || prop == scenarios()[i].property)) return (int)i;
  return -1;
}

// ---- minimisation ---------------------------------------------------------------------------------
static uint64_t g_min_replays;
static std::vector<Sparse> minimise(const Scenario& sc, uint64_t seed, std::vector<Sparse> best, const std::string& cls, double budget) {
  Result* r = &g_sh->w[15].res;
  double end = wall() + budget;
  auto fails = [&](const std::vector<Sparse>& c) {
    if (wall() > end) return false;
    ++g_min_replays;
    run_child(sc, seed, c.data(), true, r);
    return r->violated == 1 && cls == r->cls;
  };
  auto accept = [&] { std::vector<Sparse> got; load_choices(got); best = got; };
  static const int order[] = {S, N, K, F, W};
  for (int s : order) {
    if (best[s].empty()) continue;
    auto c = best;
    c[s].clear();
    if (fails(c)) accept();
  }
  for (int round = 0; round < 2 && wall() < end; ++round) {
    for (int s : {W, F, K, N, S}) {
      size_t chunk = std::max<size_t>(1, best[s].size() / 2);
      while (!best[s].empty() && wall() < end) {
        bool any = false;
        for (size_t i = 0; i < best[s].size() && wall() < end;) {
          auto c = best;
          size_t e = std::min(i + chunk, c[s].size());
          c[s].erase(c[s].begin() + i, c[s].begin() + e);
          size_t before = best[s].size();
          if (fails(c)) {
            auto old = best;
            accept();
            any = true;
            if (best[s].size() >= before) { best = old; i += chunk; }      // no progress
          } else i += chunk;
        }
        if (chunk == 1) { if (!any) break; if (best[s].size() > 64) break; }
        else chunk = std::max<size_t>(1, chunk / 2);
      }
    }
    // smaller values
    for (int s : {W, F}) {
      for (size_t i = 0; i < best[s].size() && i < 80 && wall() < end; ++i) {
        while (i < best[s].size() && best[s][i].second > 1 && wall() < end) {
          auto c = best;
          c[s][i].second /= 2;
          uint64_t want = c[s][i].second; uint32_t at = c[s][i].first;
          if (!fails(c)) break;
          auto old = best;
          accept();
          if (i >= best[s].size() || best[s][i].first != at || best[s][i].second != want) { if (best[s].size() > old[s].size()) best = old; break; }
        }
      }
    }
  }
  return best;
}

static std::string jesc(const std::string& s) {
  std::string o;
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += c; }
    else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
    else o += c;
  }
  return o;
}

// known findings: lines "known: property=<id> key=<key> <text>"
static std::set<std::string> load_known(const std::string& file, const std::string& prop) {
  std::set<std::string> r;
  std::ifstream f(file);
  std::string line;
  while (std::getline(f, line)) {
    std::istringstream is(line);
    std::string a, b, c;
    is >> a >> b >> c;
    if (a == "known:" && b == "property=" + prop && c.rfind("key=", 0) == 0) r.insert(c.substr(4));
  }
  return r;
}

static std::map<std::string, std::string> args;
static std::string arg(const std::string& k, const std::string& d = "") { auto it = args.find(k); return it == args.end() ? d : it->second; }

static int cmd_replay(const std::string& file, bool trace) {
  Replay rp;
  if (!read_replay(file, rp)) { fprintf(stderr, "cannot read %s\n", file.c_str()); return 3; }
  int si = find_scenario(rp.property, rp.scenario);
  if (si < 0) { fprintf(stderr, "unknown scenario %s\n", rp.scenario.c_str()); return 3; }
  if (trace) g_trace_fd = 2;
  Result* r = &g_sh->w[0].res;
  run_child(scenarios()[si], rp.seed, rp.c.data(), false, r);
  if (r->violated == 1) {
    printf("VIOLATION property=%s replay=%s\n", rp.property.c_str(), file.c_str());
    printf("class: %s\ndetail: %s\nworkload: %s\nsteps %llu, simulated time %.3f ms, history hash %llu (%s)\n", r->cls, r->detail, r->desc,
           (unsigned long long)r->steps, r->sim_ns / 1e6, (unsigned long long)r->hash, r->hash == rp.hash && rp.cls == r->cls ? "identical to the recorded run" : "DIFFERS from the recorded run");
    return 1;
  }
  printf("replay of %s: no violation%s\n", file.c_str(), r->violated == 2 ? " (known finding)" : "");
  return 0;
}

static int cmd_one(const std::string& prop, const std::string& scen, uint64_t seed, bool trace) {
  int si = find_scenario(prop, scen);
  if (si < 0) { fprintf(stderr, "unknown scenario\n"); return 3; }
  if (trace) g_trace_fd = 2;
  Result* r = &g_sh->w[0].res;
  run_child(scenarios()[si], seed, nullptr, true, r);
  printf("%s: violated=%d class=%s detail=%s\nworkload: %s\nsteps %llu sim %.3f ms hash %llx probes %s\n", scen.c_str(), r->violated, r->cls, r->detail, r->desc, (unsigned long long)r->steps, r->sim_ns / 1e6, (unsigned long long)r->hash, r->probes);
  return r->violated == 1;
}

static int cmd_explore() {
  const std::string prop = arg("prop");
  uint64_t base = strtoull(arg("seed", "1").c_str(), nullptr, 10);
  uint64_t maxruns = strtoull(arg("runs", "10000").c_str(), nullptr, 10);
  double secs = atof(arg("seconds", "60").c_str());
  int workers = atoi(arg("workers", "8").c_str());
  if (workers > 15) workers = 15;
  unsigned det = (unsigned)atoi(arg("det", "100").c_str());
  std::string tier = arg("tier", "quick"), evidence = arg("evidence"), outdir = arg("out", "/verif/replays"), only = arg("only");
  std::set<std::string> knownset = load_known(arg("known"), prop);
  Plan pl;
  for (size_t i = 0; i < scenarios().size(); ++i) {
    const Scenario& s = scenarios()[i];
    if (prop != s.property || (!only.empty() && only != s.name)) continue;
    if (s.directed) pl.directed.push_back((int)i);
    else { pl.scen.push_back((int)i); pl.w.push_back(s.weight); pl.total += s.weight; }
  }
  if (pl.scen.empty() && pl.directed.empty()) { fprintf(stderr, "no scenario for %s\n", prop.c_str()); return 3; }
  if (pl.scen.empty()) maxruns = pl.directed.size();
  g_runs = (RunRec*)shm(maxruns * sizeof(RunRec));
  g_sh->first_bad = UINT64_MAX;
  printf("%s: VERIF_SEED=%llu tier=%s, up to %llu runs, %d workers, %.0f s\n", prop.c_str(), (unsigned long long)base, tier.c_str(), (unsigned long long)maxruns, workers, secs);
  fflush(stdout);
  double t0 = wall();
  std::vector<pid_t> pids;
  for (int i = 0; i < workers; ++i) {
    pid_t p = fork();
    if (p == 0) { worker(i, pl, base, maxruns, t0 + secs, det); _exit(0); }
    pids.push_back(p);
  }
  int werr = 0;
  for (pid_t p : pids) { int st; waitpid(p, &st, 0); if (!WIFEXITED(st) || WEXITSTATUS(st)) werr = 1; }
  double explore_s = wall() - t0;
  if (werr) { fprintf(stderr, "a worker failed\n"); return 3; }

  // aggregate
  WorkerStats tot;
  memset(&tot, 0, sizeof tot);
  std::map<std::string, uint64_t> probes;
  std::map<std::string, std::pair<uint64_t, std::string>> knowns;
  for (int i = 0; i < workers; ++i) {
    WorkerStats& w = g_sh->w[i];
    tot.runs += w.runs; tot.trivial += w.trivial; tot.violations += w.violations; tot.known += w.known; tot.sim_ns += w.sim_ns; tot.steps += w.steps;
    tot.switches += w.switches; tot.preempt += w.preempt; tot.det_reruns += w.det_reruns; tot.det_bad += w.det_bad;
    if (w.det_bad) { tot.det_bad_seed = w.det_bad_seed; tot.det_bad_scen = w.det_bad_scen; }
    tot.max_steps = std::max(tot.max_steps, w.max_steps);
    tot.max_cpu = std::max(tot.max_cpu, w.max_cpu);
    for (int k = 0; k < NFAULTKINDS + 9; ++k) { tot.faults[k] += w.faults[k]; tot.fault_runs[k] += w.fault_runs[k]; }
    for (auto& p : w.probes) if (p.name[0]) probes[p.name] += p.n;
    for (int k = 0; k < 64; ++k) if (w.knowns[k].name[0]) { auto& e = knowns[w.knowns[k].name]; e.first += w.knowns[k].n; if (e.second.empty()) e.second = w.known_detail[k]; }
  }
  std::set<uint64_t> hs, ss;
  std::map<std::string, uint64_t> per_scen;
  uint64_t done = std::min<uint64_t>((uint64_t)g_sh->next, maxruns);
  for (uint64_t i = 0; i < done; ++i) {
    if (!g_runs[i].state) continue;
    ++per_scen[scenarios()[g_runs[i].scen].name];
    if (g_runs[i].state == 1 || g_runs[i].state == 4) { hs.insert(g_runs[i].hash); ss.insert(g_runs[i].sched); }
  }
  int rc = 0;
  // unlisted known keys are violations
  uint64_t bad = g_sh->first_bad;
  bool unlisted = false;
  for (auto& k : knowns) {
    if (knownset.count(k.first)) printf("KNOWN-FINDING: property=%s %s (%llu runs): %s\n", prop.c_str(), k.first.c_str(), (unsigned long long)k.second.first, k.second.second.c_str());
    else unlisted = true;
  }
  if (tot.det_bad) {
    printf("ERROR: %llu of %llu re-executed seeds diverged (scenario %s seed %llu)\n", (unsigned long long)tot.det_bad, (unsigned long long)tot.det_reruns, scenarios()[tot.det_bad_scen].name, (unsigned long long)tot.det_bad_seed);
    rc = 2;
  }
  std::string replay_path, vtext;
  if (bad == UINT64_MAX && unlisted) {
    for (uint64_t i = 0; i < done && bad == UINT64_MAX; ++i) if (g_runs[i].state == 4) {
      int si; uint64_t seed; pick(pl, base, i, si, seed);
      run_child(scenarios()[si], seed, nullptr, true, &g_sh->w[15].res);
      if (!knownset.count(g_sh->w[15].res.key)) bad = i;
    }
  }
  uint64_t nviol = tot.violations;
  if (bad != UINT64_MAX) {
    if (!nviol) nviol = 1;
    int si; uint64_t seed;
    pick(pl, base, bad, si, seed);
    const Scenario& sc = scenarios()[si];
    Result* r = &g_sh->w[15].res;
    run_child(sc, seed, nullptr, true, r);
    std::vector<Sparse> raw;
    load_choices(raw);
    Result first = *r;
    if (!first.violated) { printf("ERROR: violation of run %llu (%s seed %llu) did not reproduce\n", (unsigned long long)bad, sc.name, (unsigned long long)seed); return 2; }
    std::string cls = first.cls;
    if (first.violated == 2) {          // an unlisted known finding: same class, no minimisation
    }
    std::vector<Sparse> best = raw;
    if (first.violated == 1) best = minimise(sc, seed, raw, cls, atof(arg("minimise", "40").c_str()));
    mkdir(outdir.c_str(), 0777);
    auto emit = [&](const std::vector<Sparse>& c, const char* tag) -> std::string {
      run_child(sc, seed, c.data(), true, r);
      char name[300];
      snprintf(name, sizeof name, "%s/%s-%s-%016llx%s.replay", outdir.c_str(), sc.property, sc.name, (unsigned long long)seed, tag);
      write_replay(name, sc, seed, c, *r);
      return name;
    };
    replay_path = emit(best, "");
    Result mini = *r;
    // confirm in a fresh process
    auto confirm = [&](const std::string& f) {
      std::string cmd = std::string("/proc/self/exe");
      char exe[4096]; ssize_t n = readlink("/proc/self/exe", exe, sizeof exe - 1); exe[n > 0 ? n : 0] = 0;
      pid_t p = fork();
      if (p == 0) { int nul = open("/dev/null", O_RDWR); dup2(nul, 1); execl(exe, exe, "replay", f.c_str(), (char*)nullptr); _exit(3); }
      int st; waitpid(p, &st, 0);
      return WIFEXITED(st) && WEXITSTATUS(st) == 1;
    };
    bool ok = first.violated == 2 || confirm(replay_path);
    if (!ok) { replay_path = emit(raw, "-raw"); mini = *r; ok = confirm(replay_path); }
    if (!ok) {
      printf("ERROR: replay file of run %llu does not reproduce in a fresh process (%s: %s)\n", (unsigned long long)bad, first.cls, first.detail);
      rc = 2;
    } else {
      // trace of the minimised run
      std::string tf = replay_path + ".trace";
      g_trace_fd = open(tf.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0666);
      Replay rp; read_replay(replay_path, rp);
      run_child(sc, seed, rp.c.data(), false, r);
      close(g_trace_fd); g_trace_fd = -1;
      printf("VIOLATION property=%s replay=%s\n", prop.c_str(), replay_path.c_str());
      printf("  scenario %s, run %llu, seed %llu\n  class: %s\n  detail: %s\n  workload: %s\n", sc.name, (unsigned long long)bad, (unsigned long long)seed, mini.cls, mini.detail, mini.desc);
      printf("  minimised with %llu replays: choices workload %zu->%zu config %zu->%zu schedule %zu->%zu network %zu->%zu fault %zu->%zu; trace in %s\n", (unsigned long long)g_min_replays,
             raw[W].size(), best[W].size(), raw[K].size(), best[K].size(), raw[S].size(), best[S].size(), raw[N].size(), best[N].size(), raw[F].size(), best[F].size(), tf.c_str());
      vtext = std::string(mini.cls) + ": " + mini.detail;
      rc = 1;
    }
  }
  // samples: a few runs written out
  std::vector<std::string> samples;
  if (!evidence.empty()) {
    std::set<int> seen;
    for (uint64_t i = 0; i < done && samples.size() < 6; ++i) {
      if (!g_runs[i].state || (seen.count(g_runs[i].scen) && i + 4 < done && samples.size() >= 1 && seen.size() < per_scen.size())) continue;
      int si; uint64_t seed;
      pick(pl, base, i, si, seed);
      seen.insert(si);
      Result* r = &g_sh->w[15].res;
      run_child(scenarios()[si], seed, nullptr, false, r);
      std::ostringstream o;
      o << scenarios()[si].name << " seed=" << seed << ": " << r->desc << " | steps=" << r->steps << " context_switches=" << r->switches << " simulated_ms=" << r->sim_ns / 1000000.0 << " history=" << std::hex << r->hash << std::dec;
      for (int k = 0; k < NFAULTKINDS; ++k) if (r->faults[k]) o << " " << fault_names[k] << "=" << r->faults[k];
      o << " outcome=" << (r->violated ? r->cls : "held");
      samples.push_back(o.str());
    }
  }
  double total = wall() - t0;
  if (!evidence.empty()) {
    static const char* xn[9] = {"short_read", "short_write", "eintr", "segmented_delivery", "spurious_wakeup", "refused_connect", "file_read_error", "delayed_delivery", "wall_clock_set"};
    std::ostringstream o;
    o << "{\n \"property\": \"" << prop << "\", \"tier\": \"" << tier << "\", \"seed\": " << base << ", \"level\": \"exploration\",\n \"coverage\": {\n";
    o << "  \"evaluations\": " << tot.runs << ", \"distinct_nontrivial\": " << hs.size() << ",\n";
    o << "  \"rule\": \"" << jesc(arg("rule", "one evaluation = one simulated execution of a generated workload under one seed (workload, configuration, schedule, network and fault choices all drawn from it); distinct = distinct hash of the run's history (every context switch, system-call result, fault and observed output); a run is trivial, and not counted, when the scenario says the generated workload exercised nothing (e.g. no planned fault fired before the end)")) << "\",\n";
    o << "  \"samples\": [";
    for (size_t i = 0; i < samples.size(); ++i) o << (i ? ",\n   " : "\n   ") << "\"" << jesc(samples[i]) << "\"";
    o << "],\n  \"runs_per_hour\": " << (uint64_t)(explore_s > 0 ? tot.runs / explore_s * 3600 : 0) << ", \"seeds_per_hour\": " << (uint64_t)(explore_s > 0 ? tot.runs / explore_s * 3600 : 0)
      << ", \"simulated_time_s\": " << tot.sim_ns / 1e9 << ",\n  \"trivial_runs\": " << tot.trivial << ", \"scheduling_points\": " << tot.steps << ", \"context_switches\": " << tot.switches << ", \"preemptions\": " << tot.preempt << ", \"longest_run_steps\": " << tot.max_steps << ", \"longest_run_cpu_ms\": " << tot.max_cpu
      << ",\n  \"distinct_schedules\": " << ss.size() << ", \"distinct_schedules_measure\": \"hash of the sequence of fibers switched to\",\n  \"determinism_reruns\": " << tot.det_reruns << ", \"determinism_divergences\": " << tot.det_bad << ",\n";
    o << "  \"runs_per_scenario\": {";
    bool first = true;
    for (auto& k : per_scen) { o << (first ? "" : ", ") << "\"" << k.first << "\": " << k.second; first = false; }
    o << "},\n  \"faults_fired\": {";
    first = true;
    for (int k = 0; k < NFAULTKINDS + 9; ++k) {
      o << (first ? "" : ", ") << "\"" << (k < NFAULTKINDS ? fault_names[k] : xn[k - NFAULTKINDS]) << "\": " << tot.faults[k];
      first = false;
    }
    o << "},\n  \"runs_with_fault\": {";
    first = true;
    for (int k = 0; k < NFAULTKINDS + 9; ++k) {
      o << (first ? "" : ", ") << "\"" << (k < NFAULTKINDS ? fault_names[k] : xn[k - NFAULTKINDS]) << "\": " << tot.fault_runs[k];
      first = false;
    }
    o << "},\n  \"probes\": {";
    first = true;
    for (auto& k : probes) { o << (first ? "" : ", ") << "\"" << jesc(k.first) << "\": " << k.second; first = false; }
    o << "},\n  \"known_findings_seen\": {";
    first = true;
    for (auto& k : knowns) { o << (first ? "" : ", ") << "\"" << jesc(k.first) << "\": " << k.second.first; first = false; }
    o << "},\n  \"real_components\": \"" << jesc(arg("real", "all of src/tp and secure-computation-library/src (compiled from the working tree), libstdc++, glibc allocator and stdio")) << "\",\n";
    o << "  \"stub_components\": \"kernel TCP sockets, pthread scheduler/mutex/condition/futex, clocks and sleeps, entropy, failing allocations and file reads: simulated\"\n },\n";
    o << " \"assumptions\": [\"the TCP, thread and clock models of sim/sim.cc represent Linux for the calls the code makes\", \"sequentially consistent memory; one simulated thread runs at a time and is preempted at intercepted calls (in the C22 and C28 build also at instrumented memory accesses)\"],\n";
    o << " \"wall_s\": " << total << ", \"violations\": " << nviol << "\n}\n";
    std::ofstream f(evidence);
    f << o.str();
    if (!f) { fprintf(stderr, "cannot write %s\n", evidence.c_str()); return 3; }
  }
  printf("%s: %llu runs (%zu distinct non-trivial, %zu distinct schedules) in %.1f s, %.1f simulated s, %llu determinism re-runs, %s\n", prop.c_str(), (unsigned long long)tot.runs, hs.size(), ss.size(), explore_s, tot.sim_ns / 1e9, (unsigned long long)tot.det_reruns, rc == 0 ? "held" : rc == 1 ? "VIOLATED" : "ERROR");
  if (rc == 0 && tot.runs == 0) { printf("ERROR: no run finished\n"); return 2; }
  return rc;
}

int main(int argc, char** argv) {
  int p = personality(0xffffffff);
  if (p >= 0 && !(p & ADDR_NO_RANDOMIZE) && !getenv("SIM_REEXEC")) {
    personality(p | ADDR_NO_RANDOMIZE);
    setenv("SIM_REEXEC", "1", 1);
    execv("/proc/self/exe", argv);
  }
  g_sh = (Shared*)shm(sizeof(Shared));
  g_recbuf = (char*)shm(kRecBytes);
  std::string cmd = argc > 1 ? argv[1] : "";
  bool trace = false;
  std::vector<std::string> pos;
  for (int i = 2; i < argc; ++i) {
    std::string a = argv[i];
    if (a == "--trace") trace = true;
    else if (a.rfind("--", 0) == 0 && i + 1 < argc) args[a.substr(2)] = argv[++i];
    else pos.push_back(a);
  }
  if (cmd == "replay" && pos.size() == 1) return cmd_replay(pos[0], trace);
  if (cmd == "one" && pos.size() == 3) return cmd_one(pos[0], pos[1], strtoull(pos[2].c_str(), nullptr, 10), trace);
  if (cmd == "explore") return cmd_explore();
  if (cmd == "list") { for (auto& s : scenarios()) printf("%s %s %u%s\n", s.property, s.name, s.weight, s.directed ? " directed" : ""); return 0; }
  fprintf(stderr, "usage: %s explore --prop ID ... | replay FILE [--trace] | one PROP SCENARIO SEED [--trace] | list\n", argv[0]);
  return 3;
}
