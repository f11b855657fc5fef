// HashBytes over all lengths, contents and alignments, on allocations that end
// exactly at the last byte.
#include <array>
#include <memory>
#include <span>
#include <utility>

#include "common/hash_utils.h"
#include "report.h"

Report* R;
size_t current_n, current_off;
extern "C" void __asan_on_error() { std::fprintf(stderr, "length %zu at offset %zu\n", current_n, current_off); }

template <size_t N>
void Length(uint64_t seed, int rounds) {
  std::mt19937_64 rng(seed * 7919 + N);
  tosca::HashBytes<N> hash;
  std::array<uint8_t, N> a;
  int64_t collisions = 0, changed = 0;
  current_n = N;
  for (int r = 0; r < rounds; r++) {
    for (auto& x : a) x = uint8_t(rng() >> 13);
    if (rng() % 4 == 0) for (auto& x : a) x = uint8_t(rng() % 3 ? 0 : rng());
    if (rng() % 8 == 0) a.fill(uint8_t(rng() % 2 ? 0 : 255));
    size_t want = 0;
    for (size_t off = 0; off < 8; off++) {  // every alignment, nothing readable behind
      current_off = off;
      std::unique_ptr<uint8_t[]> buf(new uint8_t[N + off]);
      for (size_t i = 0; i < off; i++) buf[i] = uint8_t(rng());
      std::copy(a.begin(), a.end(), buf.get() + off);
      size_t h = hash(std::span<const uint8_t, N>(buf.get() + off, N));
      size_t again = hash(std::span<const uint8_t, N>(buf.get() + off, N));
      R->evals++;
      if (h != again) R->Violation("hash:not-a-function", "length " + std::to_string(N) + ": two evaluations differ");
      if (off == 0) want = h;
      else if (h != want) R->Violation("hash:depends-on-position", "length " + std::to_string(N) + ": equal contents at offset " + std::to_string(off) + " hash differently: " + HexOf(a.data(), N));
      if (!std::equal(a.begin(), a.end(), buf.get() + off)) R->Violation("hash:modifies-input", "length " + std::to_string(N));
    }
    if (hash(a) != want) R->Violation("hash:depends-on-position", "length " + std::to_string(N) + ": the hash of an array differs from that of a span");
    R->distinct.insert(Fnv(a.data(), N) ^ N);
    R->stats["inputs"]++;
    for (size_t i = 0; i < N; i++) {  // every byte counts
      auto b = a;
      uint8_t d = uint8_t(rng() % 2 ? 1u << (rng() % 8) : 1 + rng() % 255);
      b[i] = uint8_t(b[i] ^ d);
      changed++;
      if (hash(b) == want) {
        collisions++;
        R->stats["ignored_byte_at_" + std::to_string(N) + "_" + std::to_string(i)]++;
      }
    }
  }
  R->stats["single_byte_changes"] += changed;
  R->stats["single_byte_collisions"] += collisions;
  // per position, so that one ignored byte of a long string stands out
  for (size_t i = 0; i < N; i++) {
    int64_t& n = R->stats["ignored_byte_at_" + std::to_string(N) + "_" + std::to_string(i)];
    if (n > 2 + rounds / 1000) R->Violation("hash:ignores-byte", "length " + std::to_string(N) + ": changing byte " + std::to_string(i) + " left the hash as it was in " + std::to_string(n) + " of " + std::to_string(rounds) + " inputs");
    R->stats.erase("ignored_byte_at_" + std::to_string(N) + "_" + std::to_string(i));
  }
}

template <size_t... N>
void AllLengths(uint64_t seed, int rounds, std::index_sequence<N...>) { (Length<N + 1 + 24 * PART>(seed, rounds), ...); }

int main(int argc, char** argv) {
  Args a(argc, argv);
  Report r;
  R = &r;
  AllLengths(a.seed, a.thorough ? 8000 : 200, std::make_index_sequence<24>());
#if PART == 2
  Length<100>(a.seed, 100);
  Length<127>(a.seed, 100);
  Length<128>(a.seed, 100);
  Length<1000>(a.seed, 20);
#endif
  if (tosca::HashBytes<0>{}(std::span<const uint8_t, 0>{}) != tosca::HashBytes<0>{}(std::array<uint8_t, 0>{})) r.Violation("hash:empty", "the empty string has two hashes");
  r.Sample("lengths 0 to 72, 100, 127, 128 and 1000, each at 8 alignments, each byte changed");
  r.Write(a.out);
}
