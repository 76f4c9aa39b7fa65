// C28: the queue that threads share, used from any number of threads; built with watched memory accesses.
#include "proto.h"
#include "scl/net/shared_deque.h"
#include <new>
#include <set>
#include <thread>
#include <unordered_set>
using namespace h;

#ifdef RACE_BUILD
namespace sim { extern bool race_preempt; extern uint64_t race_accesses; }
namespace {
// An element that owns memory, so that copying it can fail, and that shows when it is torn.
struct Item {
  int v = -1;
  std::vector<unsigned char> pad;
  Item() = default;
  explicit Item(int x) : v(x), pad(1 + (size_t)(x * 7) % 40) { for (size_t i = 0; i < pad.size(); ++i) pad[i] = (unsigned char)(x + 3 * i); }
  int get() const {
    if (v < 0 || pad.size() != 1 + (size_t)(v * 7) % 40) return -2;
    for (size_t i = 0; i < pad.size(); ++i) if (pad[i] != (unsigned char)(v + 3 * i)) return -2;
    return v;
  }
};
int get(int x) { return x; }
int get(const Item& x) { return x.get(); }
int get(const std::shared_ptr<int>& x) { return x ? *x : -2; }
void make(int x, int& o) { o = x; }
void make(int x, Item& o) { o = Item(x); }
void make(int x, std::shared_ptr<int>& o) { o = std::make_shared<int>(x); }

enum Kind { PUSH, PUSH_MOVE, POP, POP_FRONT, PEEK, PEEK_POP, SIZE };
const char* const kName[] = {"push", "push", "pop", "pop-front", "peek", "peek-and-pop-front", "size"};
struct Op { int kind; int value; u64 pause; u64 from = 0, to = 0; };      // value: pushed, taken, read or the size
struct Plan { std::vector<std::vector<Op>> threads; unsigned failures = 0; };

template <typename T> void act(scl::details::SharedDeque<T>& q, std::vector<Op>& ops, bool retry) {
  for (auto& o : ops) {
    if (o.pause == 1) sim::yield(); else if (o.pause) sim::sleep_ns(o.pause);
    for (;;) {
      try {
        o.from = sim::stamp();
        switch (o.kind) {
          case PUSH: { T x; make(o.value, x); o.from = sim::stamp(); q.PushBack(x); break; }
          case PUSH_MOVE: { T x; make(o.value, x); o.from = sim::stamp(); q.PushBack(std::move(x)); break; }
          case POP: o.value = get(q.Pop()); break;
          case POP_FRONT: q.PopFront(); break;
          case PEEK: o.value = get(q.Peek()); break;
          case PEEK_POP: o.value = get(q.Peek()); q.PopFront(); break;
          default: o.value = (int)q.Size();
        }
        o.to = sim::stamp();
        break;
      } catch (const std::bad_alloc&) {
        if (!retry) throw;
        sim::probe("operations_without_memory");
      }
    }
  }
}
std::string show(const std::vector<Op>& h) {
  std::string s;
  for (auto& o : h) s += std::string(s.empty() ? "" : ", ") + kName[o.kind] + (o.kind == POP_FRONT ? "" : " " + std::to_string(o.value)) + " [" + std::to_string(o.from) + "," + std::to_string(o.to) + "]";
  return s;
}
// Is there an order of the operations, respecting real time, in which a queue gives these results?
struct Search {
  const std::vector<Op>& h;
  std::unordered_set<std::string> seen;
  bool go(u64 done, std::vector<int>& q, size_t head) {
    if (done == (1ull << h.size()) - 1) return true;
    std::string key((const char*)&done, 8);
    for (size_t i = head; i < q.size(); ++i) key.append((const char*)&q[i], 4);
    if (!seen.insert(key).second) return false;
    u64 first_end = ~0ull;
    for (size_t i = 0; i < h.size(); ++i) if (!(done >> i & 1)) first_end = std::min(first_end, h[i].to);
    for (size_t i = 0; i < h.size(); ++i) {
      if (done >> i & 1 || h[i].from > first_end) continue;
      const Op& o = h[i];
      bool empty = head == q.size();
      bool ok = true;
      switch (o.kind) {
        case PUSH: case PUSH_MOVE: q.push_back(o.value); ok = go(done | 1ull << i, q, head); q.pop_back(); break;
        case POP: case PEEK_POP: ok = !empty && q[head] == o.value && go(done | 1ull << i, q, head + 1); break;
        case POP_FRONT: ok = !empty && go(done | 1ull << i, q, head + 1); break;
        case PEEK: ok = !empty && q[head] == o.value && go(done | 1ull << i, q, head); break;
        default: ok = (int)(q.size() - head) == o.value && go(done | 1ull << i, q, head);
      }
      if (ok) return true;
    }
    return false;
  }
};
u64 pause() { switch (sim::weighted(W, {5, 3, 2, 1})) { case 0: return 0; case 1: return 1; case 2: return 100 + sim::choose(W, 3000); default: return 1000000; } }

template <typename T> void run_plan(Plan* p, bool exact, int fails) {
  int k = (int)p->threads.size();
  auto* rest = new std::vector<int>;
  sim::spawn("process", sim::add_host("10.0.0.1"), [=] {
    auto* q = new scl::details::SharedDeque<T>;
    std::vector<std::thread> th;
    for (int i = 0; i < k; ++i) th.emplace_back([=] { act(*q, p->threads[i], fails > 0); });
    sim::set_phase("running");
    for (auto& t : th) t.join();
    for (size_t n = q->Size(); n-- > 0;) rest->push_back(get(q->Pop()));
    delete q;
  });
  for (int i = 0; i < fails; ++i) sim::plan_fault(sim::FAIL_ALLOC, 0, 1, sim::logu(F, 60), 0, 0);
  auto out = sim::run();
  sim::probe("memory_accesses_watched", sim::race_accesses);
  if (sim::violated()) return;
  std::string all;
  std::vector<Op> hist;
  std::set<int> pushed, taken;
  for (int i = 0; i < k; ++i) {
    if (all.size() < 1500) all += "; thread " + std::to_string(i) + ": " + show(p->threads[i]);
    for (auto& o : p->threads[i]) hist.push_back(o);
  }
  if (sim::info(0).status == sim::FAILED) { if (sim::info(0).why.find("bad_alloc") != std::string::npos && fails) return sim::trivial(); sim::violation("queue-failed", sim::info(0).why + all); return; }
  if (out != sim::DONE) { sim::violation("taker-waits-for-ever-" + outcome_name(out), sim::blocked_report() + all); return; }
  bool front = false;
  for (auto& o : hist) {
    if (o.kind == PUSH || o.kind == PUSH_MOVE) pushed.insert(o.value);
    if (o.kind == POP_FRONT) front = true;
    if (o.kind == POP || o.kind == PEEK_POP) if (!taken.insert(o.value).second) { sim::violation("element-taken-twice", std::to_string(o.value) + all); return; }
  }
  for (int v : *rest) if (!taken.insert(v).second) { sim::violation("element-taken-twice", std::to_string(v) + " (left at the end)" + all); return; }
  for (int v : taken) if (!pushed.count(v)) { sim::violation("element-from-nowhere", std::to_string(v) + all); return; }
  if (!front && taken.size() != pushed.size()) { sim::violation("element-lost", std::to_string(pushed.size()) + " added, " + std::to_string(taken.size()) + " taken or left" + all); return; }
  if (exact) {
    std::vector<int> q;                   // what is left was taken at the end
    u64 at = 1ull << 60;
    for (int v : *rest) { Op o{POP, v, 0}; o.from = o.to = at += 2; hist.push_back(o); }
    Search s{hist, {}};
    if (!s.go(0, q, 0)) { sim::violation("no-order-explains-the-results", show(hist)); return; }
    sim::probe("histories_explained");
  } else {
    // every taker sees the elements of one adder in the order added
    std::map<int, int> adder, place;
    for (int i = 0; i < k; ++i) { int n = 0; for (auto& o : p->threads[i]) if (o.kind == PUSH || o.kind == PUSH_MOVE) { adder[o.value] = i; place[o.value] = n++; } }
    for (int i = 0; i < k; ++i) {
      std::map<int, int> last;
      for (auto& o : p->threads[i]) {
        if (o.kind != POP && o.kind != PEEK_POP) continue;
        auto it = last.find(adder[o.value]);
        if (it != last.end() && it->second >= place[o.value]) { sim::violation("order-changed", "thread " + std::to_string(i) + " took element " + std::to_string(place[o.value]) + " of thread " + std::to_string(adder[o.value]) + " after element " + std::to_string(it->second)); return; }
        last[adder[o.value]] = place[o.value];
      }
    }
    sim::probe("elements_handed_over", taken.size());
  }
}
void any_type(Plan* p, bool exact, int fails, int type) {
  if (type == 0) run_plan<int>(p, exact, fails);
  else if (type == 1) run_plan<Item>(p, exact, fails);
  else run_plan<std::shared_ptr<int>>(p, exact, fails);
}
void setup() {
  sim::race_preempt = sim::chance(K, 2, 3);
  sim::cfg.spurious = sim::chance(K, 1, 3) ? 80 : 0;
}
}  // namespace

// Few operations of several threads, every result explained.
SCENARIO(C28, history, 6) {
  setup();
  int type = (int)sim::choose(W, 3);
  int adders = 1 + (int)sim::weighted(W, {3, 3, 1}), takers = 1 + (int)sim::weighted(W, {3, 4, 3}), watchers = (int)sim::weighted(W, {3, 2});
  auto* p = new Plan;
  p->threads.resize(adders + takers + watchers);
  int pushes = 1 + (int)sim::choose(W, 7), takes = (int)sim::choose(W, pushes + 1);
  for (int i = 0; i < pushes; ++i) p->threads[sim::choose(W, adders)].push_back(Op{sim::chance(W, 1, 2) ? PUSH : PUSH_MOVE, i, pause()});
  for (int i = 0; i < takes; ++i) p->threads[adders + sim::choose(W, takers)].push_back(Op{takers == 1 ? (int[]){POP, POP_FRONT, PEEK_POP}[sim::weighted(W, {3, 1, 3})] : sim::chance(W, 1, 6) ? POP_FRONT : POP, -1, pause()});
  // an element that is looked at must stay: only a lone taker looks, and only while something is left for it
  if (takers == 1 && takes < pushes && sim::chance(W, 1, 2)) { auto& t = p->threads[adders]; t.insert(t.begin() + sim::choose(W, t.size() + 1), Op{PEEK, -1, pause()}); }
  for (int i = 0; i < watchers * 3; ++i) p->threads[sim::chance(W, 1, 2) ? adders + takers : sim::choose(W, p->threads.size())].push_back(Op{SIZE, -1, pause()});
  int fails = type == 0 ? (sim::chance(F, 1, 8) ? 1 : 0) : (int)sim::weighted(F, {4, 2, 1});
  sim::describe(std::to_string(adders) + " adders, " + std::to_string(takers) + " takers, " + std::to_string(watchers) + " watchers, " + std::to_string(pushes) + " elements, " + std::to_string(takes) + " taken, type " + std::to_string(type) + (fails ? ", memory runs out" : ""));
  any_type(p, true, fails, type);
}
// Many elements through a queue with several threads at both ends.
SCENARIO(C28, volume, 2) {
  setup();
  int type = (int)sim::choose(W, 3);
  int adders = 1 + (int)sim::choose(W, 4), takers = 1 + (int)sim::choose(W, 4);
  auto* p = new Plan;
  p->threads.resize(adders + takers);
  int pushes = 1 + (int)sim::logu(W, sim::chance(W, 1, 40) ? 4000 : 200);
  bool all = sim::chance(W, 3, 4);
  int takes = all ? pushes : (int)sim::choose(W, pushes + 1);
  bool fast = sim::chance(W, 1, 2);
  for (int i = 0; i < pushes; ++i) p->threads[sim::choose(W, adders)].push_back(Op{sim::chance(W, 1, 2) ? PUSH : PUSH_MOVE, i, fast ? 0 : pause()});
  for (int i = 0; i < takes; ++i) p->threads[adders + sim::choose(W, takers)].push_back(Op{takers == 1 && sim::chance(W, 1, 2) ? PEEK_POP : POP, -1, fast ? 0 : pause()});
  int fails = sim::chance(F, 1, 4) ? 1 : 0;
  sim::describe(std::to_string(adders) + " adders, " + std::to_string(takers) + " takers, " + std::to_string(pushes) + " elements, " + std::to_string(takes) + " taken, type " + std::to_string(type));
  any_type(p, false, fails, type);
}
#endif
