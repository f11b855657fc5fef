// Drives LruCache through histories in lock step with a model: a list ordered
// by recency. Runs under AddressSanitizer, UndefinedBehaviorSanitizer and the
// assertions of the standard library.
#include <array>
#include <list>
#include <memory>
#include <optional>
#include <string>

#include "common/hash_utils.h"
#include "common/lru_cache.h"
#include "report.h"

using tosca::HashBytes;
using tosca::LruCache;

template <typename K, typename V>
struct Model {
  size_t cap;
  std::list<std::pair<K, V>> l;  // most recent first
  std::optional<V> Get(const K& k) {
    for (auto it = l.begin(); it != l.end(); ++it)
      if (it->first == k) {
        l.splice(l.begin(), l, it);
        return l.front().second;
      }
    return std::nullopt;
  }
  V InsertOrAssign(const K& k, V v) {
    for (auto& e : l)
      if (e.first == k) return e.second = v;  // an update is not a use
    if (l.size() == cap) l.pop_back();
    l.emplace_front(k, v);
    return v;
  }
};

struct BadHash { size_t operator()(int k) const { return size_t(k) & 1; } };  // many collisions
struct IntKey { static int Make(int i) { return i * 7 - 3; } };
struct StrKey { static std::string Make(int i) { return std::string(size_t(i % 40), 'k') + std::to_string(i); } };
template <size_t N>
struct ByteKey {
  static std::array<uint8_t, N> Make(int i) {
    std::array<uint8_t, N> a{};
    a[size_t(i * 5) % N] = uint8_t(i + 1);
    a[N - 1] ^= uint8_t(i >> 3);
    return a;
  }
};
struct LongVal { static int64_t Make(int i) { return i; } };
struct StrVal { static std::string Make(int i) { return "value-long-enough-for-the-heap-" + std::to_string(i); } };
struct PtrVal { static std::shared_ptr<int> Make(int i) { return std::make_shared<int>(i); } };

template <typename T> std::string Show(const T& v) {
  if constexpr (std::is_same_v<T, std::string>) return v;
  else if constexpr (std::is_same_v<T, std::shared_ptr<int>>) return v ? std::to_string(*v) : "null";
  else return std::to_string(v);
}
template <typename T> bool Same(const T& a, const T& b) {
  if constexpr (std::is_same_v<T, std::shared_ptr<int>>) return a && b && *a == *b;
  else return a == b;
}

Report* R;

struct Op { int kind, key, val; };  // 0 get, 1 put, 2 get-or-insert, 3 clear

std::string Text(const std::vector<Op>& h) {
  std::string s;
  for (auto& o : h) s += std::string(1, "gpic"[o.kind]) + (o.kind == 3 ? "" : std::to_string(o.key)) + (o.kind == 1 || o.kind == 2 ? "=" + std::to_string(o.val) : "") + " ";
  return s;
}

// The history reached so far, for reports of sanitizers.
std::vector<Op>* current;
extern "C" void __asan_on_error() { if (current) std::fprintf(stderr, "history: %s\n", Text(*current).c_str()); }

template <size_t Cap, typename KM, typename VM, typename Cache>
bool History(const char* name, const std::vector<Op>& ops, int keys, bool probe) {
  using K = decltype(KM::Make(0));
  using V = decltype(VM::Make(0));
  auto cache = std::make_unique<Cache>();
  Model<K, V> m{Cap, {}};
  std::vector<Op> done;
  current = &done;
  std::weak_ptr<int> last;
  auto fail = [&](const char* cat, const std::string& what) { return R->Violation(std::string("lru:") + cat, std::string(name) + ": " + what + "\nhistory " + Text(done)); };
  for (auto& o : ops) {
    done.push_back(o);
    K k = KM::Make(o.key);
    if (o.kind == 0) {
      auto a = cache->Get(k);
      auto b = m.Get(k);
      R->stats[b ? "lookup_hits" : "lookup_misses"]++;
      if (a.has_value() != b.has_value()) return fail(b ? "lost-entry" : "unexpected-entry", "lookup of " + std::to_string(o.key) + (a ? " found " + Show(*a) : " missed"));
      if (a && !Same(*a, *b)) return fail("wrong-value", "lookup of " + std::to_string(o.key) + " gave " + Show(*a) + ", last stored " + Show(*b));
    } else if (o.kind == 1) {
      size_t before = m.l.size();
      auto v = VM::Make(o.val);
      auto want = m.InsertOrAssign(k, v);
      auto a = cache->InsertOrAssign(k, v);
      R->stats[m.l.size() > before ? "inserts" : before == Cap ? "inserts_or_updates_when_full" : "updates"]++;
      if (!Same(a, want)) return fail("insert-result", "insert returned " + Show(a) + " for " + Show(want));
    } else if (o.kind == 2) {
      auto b = m.Get(k);
      int made = 0;
      auto a = cache->GetOrInsert(k, [&] { made++; return VM::Make(o.val); });
      V want = b ? *b : m.InsertOrAssign(k, VM::Make(o.val));
      R->stats["get_or_inserts"]++;
      if (made != (b ? 0 : 1)) return fail("maker-calls", "value made " + std::to_string(made) + " times although the key was " + (b ? "present" : "absent"));
      if (!Same(a, want)) return fail("wrong-value", "get-or-insert gave " + Show(a) + " not " + Show(want));
    } else {
      cache->Clear();
      m.l.clear();
      R->stats["clears"]++;
    }
  }
  if (probe) {  // which keys are there now, all of them
    size_t held = 0;
    for (int i = 0; i < keys; i++) {
      auto a = cache->Get(KM::Make(i));
      auto b = m.Get(KM::Make(i));
      held += a.has_value();
      R->stats["probes"]++;
      if (a.has_value() != b.has_value()) return fail(b ? "lost-entry" : "unexpected-entry", "final lookup of " + std::to_string(i));
      if (a && !Same(*a, *b)) return fail("wrong-value", "final lookup of " + std::to_string(i) + " gave " + Show(*a) + " not " + Show(*b));
    }
    if (held > Cap) return fail("too-many-entries", std::to_string(held));
  }
  current = nullptr;
  return true;
}

template <size_t Cap, typename KM, typename VM, typename Cache>
void Random(const char* name, uint64_t seed, int rounds) {
  std::mt19937_64 rng(seed * 1000003 + Cap * 31 + Fnv(name, std::strlen(name)));
  for (int r = 0; r < rounds && !R->Enough(); r++) {
    int keys = 1 + int(rng() % (Cap + 2 + rng() % (2 * Cap + 3)));
    int n = 1 + int(rng() % (rng() % 8 == 0 ? 12 * Cap + 60 : 40 + 3 * Cap));
    int wget = int(rng() % 6), wput = 1 + int(rng() % 6), wgoi = int(rng() % 4), wclr = rng() % 3 ? 0 : 1;
    bool skew = rng() % 2;
    std::vector<Op> ops;
    for (int i = 0; i < n; i++) {
      int x = int(rng() % uint64_t(20 * (wget + wput + wgoi) + wclr));
      int kind = x < 20 * wget ? 0 : x < 20 * (wget + wput) ? 1 : x < 20 * (wget + wput + wgoi) ? 2 : 3;
      int key = int(rng() % uint64_t(keys));
      if (skew && rng() % 2) key %= 1 + keys / 3;
      ops.push_back({kind, key, int(rng() % 100000)});
    }
    History<Cap, KM, VM, Cache>(name, ops, keys, true);
    R->evals++;
    R->stats["operations"] += n;
    if (n >= 4) R->distinct.insert(Fnv(Text(ops)) ^ Cap);
    if (r == 0) R->Sample(std::string(name) + " capacity " + std::to_string(Cap) + ": " + Text(ops));
  }
}

// All histories of a length over a few keys.
template <size_t Cap>
void All(int keys, int len) {
  int kinds = keys * 3 + 1;
  std::vector<int> d(size_t(len), 0);
  for (;;) {
    std::vector<Op> ops;
    for (int i = 0; i < len; i++) {
      int x = d[size_t(i)];
      ops.push_back(x == kinds - 1 ? Op{3, 0, 0} : Op{x / keys, x % keys, i + 1});
    }
    bool ok = History<Cap, IntKey, LongVal, LruCache<int, int64_t, Cap>>("all", ops, keys, true);
    R->evals++;
    R->stats["enumerated_histories"]++;
    if (!ok && R->Enough()) return;
    int i = 0;
    while (i < len && ++d[size_t(i)] == kinds) d[size_t(i++)] = 0;
    if (i == len) return;
  }
}

template <size_t Cap>
void Types(uint64_t seed, int rounds) {
  Random<Cap, IntKey, LongVal, LruCache<int, int64_t, Cap>>("int", seed, rounds);
  Random<Cap, IntKey, StrVal, LruCache<int, std::string, Cap, BadHash>>("colliding", seed, rounds / 2);
  Random<Cap, StrKey, StrVal, LruCache<std::string, std::string, Cap>>("string", seed, rounds / 2);
  Random<Cap, ByteKey<32>, PtrVal, LruCache<std::array<uint8_t, 32>, std::shared_ptr<int>, Cap, HashBytes<32>>>("bytes32", seed, rounds / 2);
  Random<Cap, ByteKey<5>, LongVal, LruCache<std::array<uint8_t, 5>, int64_t, Cap, HashBytes<5>>>("bytes5", seed, rounds / 4);
  LruCache<int, int, Cap> c;
  if (c.GetMaxSize() != Cap) R->Violation("lru:max-size", std::to_string(c.GetMaxSize()));
}

int main(int argc, char** argv) {
  Args a(argc, argv);
  Report r;
  R = &r;
  int n = a.thorough ? 40 : 1;
#if PART == 0
  Types<1>(a.seed, 400 * n);
  Types<2>(a.seed, 600 * n);
#elif PART == 1
  Types<3>(a.seed, 600 * n);
  Types<4>(a.seed, 400 * n);
#elif PART == 2
  Types<5>(a.seed, 400 * n);
  Types<8>(a.seed, 300 * n);
#elif PART == 3
  Types<17>(a.seed, 200 * n);
  Types<64>(a.seed, 60 * n);
#elif PART == 4
  Types<1000>(a.seed, 4 * n);
  All<3>(4, a.thorough ? 5 : 4);
#else
  All<1>(2, 5);
  All<1>(3, a.thorough ? 5 : 4);
  All<2>(3, a.thorough ? 6 : 4);
  All<2>(2, 5);
#endif
  r.Write(a.out);
}
