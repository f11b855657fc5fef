// Concurrent use of LruCache. Two monitors:
//   -mode lin     small histories with recorded invocation and response order,
//                 decided by a search for a sequential explanation (Wing-Gong)
//   -mode stress  long runs for ThreadSanitizer, with self-describing values
// Delays injected through the key's hash and equality and the value's copies
// widen the windows inside of the cache's operations.
#include <algorithm>
#include <array>
#include <atomic>
#include <optional>
#include <set>
#include <string>
#include <thread>

#include <sched.h>
#include <time.h>

#include "common/lru_cache.h"
#include "report.h"

using tosca::LruCache;

thread_local uint64_t delay_rng = 1;
thread_local bool delays = false;
int delay_level = 0;
void Delay() {
  if (!delays || delay_level == 0) return;
  delay_rng ^= delay_rng << 13; delay_rng ^= delay_rng >> 7; delay_rng ^= delay_rng << 17;
  unsigned x = unsigned(delay_rng % 64);
  if (delay_level == 1 && x < 4) sched_yield();
  if (delay_level == 2) {
    if (x < 16) for (volatile unsigned i = 0; i < x * 20; i = i + 1) {}
    if (x == 20) sched_yield();
  }
  if (delay_level == 3 && x < 3) { timespec t{0, 1000 * long(1 + x)}; nanosleep(&t, nullptr); }
}

struct DHash { size_t operator()(int k) const { Delay(); return std::hash<int>{}(k); } };
struct DEq { bool operator()(int a, int b) const { Delay(); return a == b; } };

// A value that knows which key it belongs to and shows torn copies.
struct Val {
  int64_t id = 0;
  std::array<int64_t, 7> rest{};
  Val() = default;
  explicit Val(int64_t v) : id(v) { rest.fill(v); }
  Val(const Val& o) : id(o.id) { Delay(); rest = o.rest; }
  Val& operator=(const Val& o) { id = o.id; Delay(); rest = o.rest; return *this; }
  bool Whole() const { return std::all_of(rest.begin(), rest.end(), [&](int64_t x) { return x == id; }); }
};

Report* R;

enum Kind { kGet, kPut, kGoi, kClear };
struct Event {
  int kind, key;
  int64_t val;     // stored (put, goi)
  int64_t ret;     // returned, -1 for none
  bool made;       // goi called its maker
  uint64_t inv, res;
  int thread;
};

int64_t ValOf(int key, int64_t n) { return int64_t(key) * 1000000 + n; }

std::string Text(const std::vector<Event>& h) {
  std::string s;
  for (auto& e : h)
    s += "t" + std::to_string(e.thread) + " [" + std::to_string(e.inv) + "," + std::to_string(e.res) + "] " +
         (e.kind == kGet ? "get(" + std::to_string(e.key) + ")" : e.kind == kPut ? "put(" + std::to_string(e.key) + "," + std::to_string(e.val) + ")"
          : e.kind == kGoi ? "get_or_insert(" + std::to_string(e.key) + "," + std::to_string(e.val) + (e.made ? " made" : "") + ")" : "clear()") +
         (e.kind == kClear ? "" : " -> " + (e.ret < 0 ? std::string("none") : std::to_string(e.ret))) + "\n";
  return s;
}

// ------------------------------------------------------- linearizability
// A get-or-insert is a lookup followed, on a miss, by an insert: two atomic
// operations of one thread. Every operation is thus split into atomic steps.
struct Step { int kind, key; int64_t val, ret; uint64_t inv, res; int after; };  // after: index of the step that precedes it in the same call, or -1

struct Lin {
  std::vector<Step> steps;
  size_t cap;
  std::set<std::pair<uint64_t, std::vector<int64_t>>> seen;
  int64_t nodes = 0;

  // state: keys and values, most recent first
  bool Apply(const Step& s, std::vector<int64_t>& st) {
    size_t n = st.size() / 2, at = n;
    for (size_t i = 0; i < n; i++) if (st[2 * i] == s.key) at = i;
    if (s.kind == kClear) { st.clear(); return true; }
    if (s.kind == kGet) {
      if (at == n) return s.ret == -1;
      if (s.ret != st[2 * at + 1]) return false;
      int64_t v = st[2 * at + 1];
      st.erase(st.begin() + long(2 * at), st.begin() + long(2 * at + 2));
      st.insert(st.begin(), {s.key, v});
      return true;
    }
    if (s.ret != s.val) return false;
    if (at < n) { st[2 * at + 1] = s.val; return true; }
    if (n == cap) st.resize(2 * (cap - 1));
    st.insert(st.begin(), {s.key, s.val});
    return true;
  }
  bool Search(uint64_t done, const std::vector<int64_t>& st) {
    if (done == (uint64_t(1) << steps.size()) - 1) return true;
    if (++nodes > 3000000) return true;  // not decided; counted by the caller
    if (!seen.insert({done, st}).second) return false;
    uint64_t horizon = ~uint64_t(0);  // earliest response among open operations
    for (size_t i = 0; i < steps.size(); i++) if (!(done >> i & 1)) horizon = std::min(horizon, steps[i].res);
    for (size_t i = 0; i < steps.size(); i++) {
      if (done >> i & 1 || steps[i].inv > horizon) continue;
      if (steps[i].after >= 0 && !(done >> steps[i].after & 1)) continue;
      auto next = st;
      if (Apply(steps[i], next) && Search(done | uint64_t(1) << i, next)) return true;
    }
    return false;
  }
};

bool Linearizable(const std::vector<Event>& h, size_t cap, int64_t* nodes) {
  Lin l{{}, cap, {}, 0};
  for (auto& e : h) {
    if (e.kind == kGoi && e.made) {
      l.steps.push_back({kGet, e.key, 0, -1, e.inv, e.res, -1});
      l.steps.push_back({kPut, e.key, e.val, e.ret, e.inv, e.res, int(l.steps.size()) - 1});
    } else if (e.kind == kGoi) {
      l.steps.push_back({kGet, e.key, 0, e.ret, e.inv, e.res, -1});
    } else {
      l.steps.push_back({e.kind, e.key, e.val, e.ret, e.inv, e.res, -1});
    }
  }
  bool ok = l.Search(0, {});
  *nodes = l.nodes;
  return ok;
}

template <size_t Cap>
using Cache = LruCache<int, Val, Cap, DHash, DEq>;

template <size_t Cap>
Event Do(Cache<Cap>& c, std::atomic<uint64_t>* clock, std::mt19937_64& rng, int keys, int t, int64_t n, bool clear) {
  Event e{};
  e.thread = t;
  unsigned x = unsigned(rng() % 100);
  e.kind = x < 40 ? kGet : x < 65 ? kPut : x < (clear ? 94 : 100) ? kGoi : kClear;
  e.key = int(rng() % uint64_t(keys));
  e.val = e.kind == kPut || e.kind == kGoi ? ValOf(e.key, n) : -1;
  e.ret = -1;
  auto take = [&](const Val& v) {
    if (!v.Whole()) R->Violation("lru:torn-value", "a returned value mixes several stored values");
    e.ret = v.id;
  };
  e.inv = clock ? clock->fetch_add(1) : 0;
  if (e.kind == kGet) { if (auto v = c.Get(e.key)) take(*v); }
  else if (e.kind == kPut) take(c.InsertOrAssign(e.key, Val(e.val)));
  else if (e.kind == kGoi) take(c.GetOrInsert(e.key, [&] { e.made = true; Delay(); return Val(e.val); }));
  else c.Clear();
  e.res = clock ? clock->fetch_add(1) : 0;
  if (e.ret >= 0 && e.ret / 1000000 != e.key) R->Violation("lru:value-of-other-key", "key " + std::to_string(e.key) + " returned a value stored for key " + std::to_string(e.ret / 1000000));
  return e;
}

template <size_t Cap>
void LinRounds(uint64_t seed, int rounds, int threads, int per, int keys, bool clear) {
  std::mt19937_64 top(seed * 31 + Cap * 7 + uint64_t(threads));
  // the threads live for all rounds and meet at a barrier before each
  std::atomic<int> arrived{0}, round{-1}, left{0};
  std::unique_ptr<Cache<Cap>> cache;
  std::atomic<uint64_t> clock{0};
  std::vector<std::vector<Event>> logs{size_t(threads)};
  std::vector<std::thread> ts;
  for (int t = 0; t < threads; t++)
    ts.emplace_back([&, t] {
      delays = true;
      for (int r = 0; r < rounds; r++) {
        arrived++;
        while (round.load() < r) std::this_thread::yield();
        std::mt19937_64 rng(seed * 1000003 + uint64_t(r) * 101 + uint64_t(t) * 7 + Cap);
        delay_rng = rng() | 1;
        logs[size_t(t)].clear();
        for (int i = 0; i < per; i++) logs[size_t(t)].push_back(Do<Cap>(*cache, &clock, rng, keys, t, r % 1000 * 100 + t * 20 + i, clear));
        left++;
      }
    });
  for (int r = 0; r < rounds; r++) {
    while (arrived.load() < threads * (r + 1)) std::this_thread::yield();
    cache = std::make_unique<Cache<Cap>>();
    clock = 0;
    delay_level = r % 4;
    left = 0;
    round = r;
    while (left.load() < threads) std::this_thread::yield();
    std::vector<Event> h;
    for (auto& l : logs) h.insert(h.end(), l.begin(), l.end());
    std::sort(h.begin(), h.end(), [](auto& a, auto& b) { return a.inv < b.inv; });
    int64_t overlap = 0, nodes = 0;
    uint64_t shape = 0xcbf29ce484222325, mx = 0;
    for (auto& e : h) {
      overlap += e.inv > 0 && e.inv < mx;
      mx = std::max(mx, e.res);
      uint64_t w[4] = {uint64_t(e.thread) << 8 | uint64_t(e.kind) << 4 | uint64_t(e.key), e.inv, e.res, uint64_t(e.made)};
      shape = Fnv(w, sizeof w, shape);
    }
    R->evals++;
    R->stats["operations"] += int64_t(h.size());
    R->stats["overlapping_operations"] += overlap;
    if (overlap) R->stats["histories_with_overlap"]++, R->distinct.insert(shape);
    bool ok = Linearizable(h, Cap, &nodes);
    R->stats["search_nodes"] += nodes;
    if (nodes > 3000000) R->stats["undecided_histories"]++;
    else if (!ok) R->Violation("lru:not-linearizable", "capacity " + std::to_string(Cap) + ": no sequential order explains\n" + Text(h));
    if (overlap > 3) R->Sample(Text(h));
  }
  for (auto& t : ts) t.join();
}

template <size_t Cap>
void Stress(uint64_t seed, int threads, int per, int keys, bool clear) {
  Cache<Cap> cache;
  std::vector<std::thread> ts;
  std::vector<int64_t> hits{std::vector<int64_t>(size_t(threads))};
  delay_level = 1;
  for (int t = 0; t < threads; t++)
    ts.emplace_back([&, t] {
      std::mt19937_64 rng(seed * 91 + uint64_t(t));
      delay_rng = rng() | 1;
      delays = t % 2;
      // once in a while a thread stops, so that what it did last stays unordered
      for (int i = 0; i < per; i++) {
        hits[size_t(t)] += Do<Cap>(cache, nullptr, rng, keys, t, i, clear).ret >= 0;
        if (rng() % 500 == 0) { timespec s{0, 200000}; nanosleep(&s, nullptr); }
      }
    });
  for (auto& t : ts) t.join();
  R->evals++;
  R->stats["stress_operations"] += int64_t(threads) * per;
  for (auto h : hits) R->stats["stress_hits"] += h;
  R->distinct.insert(seed * 1000 + Cap);
}

int main(int argc, char** argv) {
  Args a(argc, argv);
  Report r;
  R = &r;
  if (a.mode == "lin") {
    int n = a.thorough ? 60000 : 4000;
    LinRounds<1>(a.seed, n, 3, 4, 2, true);
    LinRounds<2>(a.seed, n, 3, 5, 3, false);
    LinRounds<2>(a.seed + 1, n, 4, 4, 3, true);
    LinRounds<3>(a.seed, n, 4, 5, 4, false);
    LinRounds<3>(a.seed + 1, n, 3, 6, 5, true);
    LinRounds<8>(a.seed, n / 2, 5, 4, 3, false);
  } else {
    int n = a.thorough ? 30 : 2;
    for (int i = 0; i < n; i++) {
      uint64_t s = a.seed * 100 + uint64_t(i);
      Stress<1>(s, 4, 4000, 2, i % 2);
      Stress<2>(s, 4, 6000, 3, i % 2);
      Stress<3>(s, 8, 4000, 6, !(i % 2));
      Stress<64>(s, 8, 6000, 100, false);
      Stress<1000>(s, 6, 8000, 2000, i % 2);
    }
    r.Sample("threads on one cache: capacities 1, 2, 3, 64, 1000 with 2 to 2000 keys, 4 to 8 threads");
  }
  r.Write(a.out);
}
