// Offline stand-in for ethash's Keccak (original Keccak padding), written for
// this verification framework.
#pragma once
#include <cstddef>
#include <cstdint>
#include <cstring>

namespace ethash {
union hash256 {
  uint64_t word64s[4];
  uint32_t word32s[8];
  uint8_t bytes[32];
  char str[32];
};
union hash512 {
  uint64_t word64s[8];
  uint8_t bytes[64];
  char str[64];
};
inline bool operator==(const hash256& a, const hash256& b) noexcept { return std::memcmp(a.bytes, b.bytes, 32) == 0; }
inline bool operator!=(const hash256& a, const hash256& b) noexcept { return !(a == b); }

namespace detail {
[[gnu::noinline]] inline void keccakf1600(uint64_t s[25]) noexcept {
  static constexpr uint64_t RC[24] = {
      0x0000000000000001, 0x0000000000008082, 0x800000000000808a, 0x8000000080008000, 0x000000000000808b,
      0x0000000080000001, 0x8000000080008081, 0x8000000000008009, 0x000000000000008a, 0x0000000000000088,
      0x0000000080008009, 0x000000008000000a, 0x000000008000808b, 0x800000000000008b, 0x8000000000008089,
      0x8000000000008003, 0x8000000000008002, 0x8000000000000080, 0x000000000000800a, 0x800000008000000a,
      0x8000000080008081, 0x8000000000008080, 0x0000000080000001, 0x8000000080008008};
  static constexpr int R[24] = {1, 3, 6, 10, 15, 21, 28, 36, 45, 55, 2, 14, 27, 41, 56, 8, 25, 43, 62, 18, 39, 61, 20, 44};
  static constexpr int P[24] = {10, 7, 11, 17, 18, 3, 5, 16, 8, 21, 24, 4, 15, 23, 19, 13, 12, 2, 20, 14, 22, 9, 6, 1};
  auto rotl = [](uint64_t x, int n) { return (x << n) | (x >> (64 - n)); };
  for (int r = 0; r < 24; ++r) {
    uint64_t bc[5];
    for (int i = 0; i < 5; ++i) bc[i] = s[i] ^ s[i + 5] ^ s[i + 10] ^ s[i + 15] ^ s[i + 20];
    for (int i = 0; i < 5; ++i) {
      uint64_t t = bc[(i + 4) % 5] ^ rotl(bc[(i + 1) % 5], 1);
      for (int j = 0; j < 25; j += 5) s[j + i] ^= t;
    }
    uint64_t t = s[1];
    for (int i = 0; i < 24; ++i) {
      uint64_t b = s[P[i]];
      s[P[i]] = rotl(t, R[i]);
      t = b;
    }
    for (int j = 0; j < 25; j += 5) {
      uint64_t c[5];
      for (int i = 0; i < 5; ++i) c[i] = s[j + i];
      for (int i = 0; i < 5; ++i) s[j + i] = c[i] ^ ((~c[(i + 1) % 5]) & c[(i + 2) % 5]);
    }
    s[0] ^= RC[r];
  }
}
template <size_t OUT>
[[gnu::noinline]] inline void keccak(uint8_t* out, const uint8_t* data, size_t size) noexcept {
  constexpr size_t rate = 200 - 2 * OUT;
  uint64_t s[25] = {};
  auto absorb = [&](const uint8_t* p) {
    for (size_t i = 0; i < rate / 8; ++i) {
      uint64_t w = 0;
      for (int b = 7; b >= 0; --b) w = (w << 8) | p[i * 8 + size_t(b)];
      s[i] ^= w;
    }
    keccakf1600(s);
  };
  while (size >= rate) {
    absorb(data);
    data += rate;
    size -= rate;
  }
  uint8_t last[rate] = {};
  for (size_t i = 0; i < size; ++i) last[i] = data[i];
  last[size] ^= 0x01;
  last[rate - 1] ^= 0x80;
  absorb(last);
  for (size_t i = 0; i < OUT; ++i) out[i] = uint8_t(s[i / 8] >> (8 * (i % 8)));
}
}  // namespace detail

inline hash256 keccak256(const uint8_t* data, size_t size) noexcept {
  hash256 h;
  detail::keccak<32>(h.bytes, data, size);
  return h;
}
inline hash256 keccak256(const hash256& in) noexcept { return keccak256(in.bytes, 32); }
inline hash512 keccak512(const uint8_t* data, size_t size) noexcept {
  hash512 h;
  detail::keccak<64>(h.bytes, data, size);
  return h;
}
}  // namespace ethash

extern "C" {
inline ethash::hash256 ethash_keccak256(const uint8_t* data, size_t size) noexcept { return ethash::keccak256(data, size); }
inline ethash::hash256 ethash_keccak256_32(const uint8_t data[32]) noexcept { return ethash::keccak256(data, 32); }
}
