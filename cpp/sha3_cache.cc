// Sha3Cache against an independent Keccak-256, alone and by several threads.
#include <array>
#include <deque>
#include <memory>
#include <thread>

#include <time.h>

#include "report.h"
#include "vm/evmzero/sha3_cache.h"

using tosca::evmzero::Sha3Cache;

Report* R;

// Inputs that are alike: they share prefixes, suffixes and padded forms.
std::vector<uint8_t> Input(std::mt19937_64& rng, unsigned pool) {
  unsigned id = unsigned(rng() % pool);
  std::mt19937_64 g(id / 8 * 977 + 5);
  static const size_t sizes[] = {32, 64, 0, 1, 31, 33, 63, 65, 135, 136, 137, 200, 272, 1000};
  size_t n = rng() % 5 ? sizes[rng() % 2] : sizes[rng() % 14];
  std::vector<uint8_t> v(n);
  for (auto& b : v) b = id % 3 == 0 ? 0 : uint8_t(g());
  if (n) {
    unsigned where = id % 8;  // neighbours differ in a single place
    size_t at = where == 0 ? 0 : where == 1 ? n - 1 : where == 2 ? n / 2 : where == 3 ? n / 2 - (n > 1) : where * n / 9;
    v[at] = uint8_t(v[at] + 1 + id / 8 % 5);
  }
  return v;
}

std::string Hash(Sha3Cache& c, const std::vector<uint8_t>& in) {
  std::unique_ptr<uint8_t[]> exact(new uint8_t[in.size()]);
  std::copy(in.begin(), in.end(), exact.get());
  auto h = intx::be::store<ethash::hash256>(c.Hash({exact.get(), in.size()}));
  return HexOf(h.bytes, 32);
}

std::string Want(const std::vector<uint8_t>& in) {
  uint8_t o[32];
  Keccak256Oracle(in.data(), in.size(), o);
  return HexOf(o, 32);
}

void Sequential(uint64_t seed, int rounds, int ops) {
  std::mt19937_64 rng(seed);
  for (int r = 0; r < rounds && !R->Enough(); r++) {
    auto c = std::make_unique<Sha3Cache>();
    unsigned pool = unsigned(r % 3 == 0 ? 40 : r % 3 == 1 ? 3000 : 12000);  // below, around and above the capacity
    std::deque<std::vector<uint8_t>> recent;
    for (int i = 0; i < ops; i++) {
      auto in = recent.size() > 3 && rng() % 3 == 0 ? recent[rng() % recent.size()] : Input(rng, pool);
      recent.push_back(in);
      if (recent.size() > 1500) recent.pop_front();
      R->distinct.insert(Fnv(in.data(), in.size()));
      R->evals++;
      auto got = Hash(*c, in), want = Want(in);
      R->stats["hashes"]++;
      R->stats[in.size() == 32 ? "inputs_of_32" : in.size() == 64 ? "inputs_of_64" : "inputs_of_other_lengths"]++;
      if (got != want) { R->Violation("sha3:wrong-hash", "input of " + std::to_string(in.size()) + " bytes " + HexOf(in.data(), in.size()) + ": got " + got + " not " + want); break; }
      if (i < 3 && r < 2) R->Sample("input " + HexOf(in.data(), std::min<size_t>(in.size(), 64)) + " -> " + got);
    }
  }
}

void Concurrent(uint64_t seed, int rounds, int ops) {
  for (int r = 0; r < rounds; r++) {
    auto c = std::make_unique<Sha3Cache>();
    int n = 3 + r % 5;
    std::vector<std::thread> ts;
    std::vector<std::string> bad{std::vector<std::string>(size_t(n))};
    for (int t = 0; t < n; t++)
      ts.emplace_back([&, t] {
        std::mt19937_64 rng(seed * 131 + uint64_t(r) * 17 + uint64_t(t % 2 ? 0 : t));
        unsigned pool = unsigned(r % 2 ? 4000 : 60);
        for (int i = 0; i < ops; i++) {
          auto in = Input(rng, pool);
          auto got = Hash(*c, in);
          if (got != Want(in) && bad[size_t(t)].empty()) bad[size_t(t)] = "input " + HexOf(in.data(), in.size()) + ": got " + got;
          if (i % 400 == 399) { timespec s{0, 100000}; nanosleep(&s, nullptr); }
        }
      });
    for (auto& t : ts) t.join();
    for (auto& b : bad) if (!b.empty()) R->Violation("sha3:wrong-hash-concurrently", b);
    R->stats["concurrent_hashes"] += int64_t(n) * ops;
    R->evals++;
    R->distinct.insert(seed * 10000 + uint64_t(r));
  }
}

int main(int argc, char** argv) {
  Args a(argc, argv);
  Report r;
  R = &r;
  int n = a.thorough ? 30 : 1;
  if (a.mode == "seq") Sequential(a.seed, 9 * n, 12000);
  else Concurrent(a.seed, 6 * n, 2500);
  r.Write(a.out);
}
