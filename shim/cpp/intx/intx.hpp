// Offline stand-in for intx (https://github.com/chfast/intx), written for this
// verification framework: same public interface for the parts a 256-bit VM
// uses, straightforward algorithms, no undefined behaviour of its own.
#pragma once
#include <algorithm>
#include <array>
#include <cassert>
#include <climits>
#include <cstddef>
#include <cstdint>
#include <cstring>
#include <limits>
#include <span>
#include <stdexcept>
#include <string>
#include <string_view>
#include <tuple>
#include <type_traits>

#if defined(__clang__)
#define INTX_OUTLINE [[gnu::noinline]] __attribute__((no_sanitize("undefined")))
#else
#define INTX_OUTLINE [[gnu::noinline]]
#endif

namespace intx {

template <typename T>
struct result_with_carry {
  T value;
  bool carry;
  constexpr operator std::tuple<T&, bool&>() noexcept { return {value, carry}; }
};

template <typename QuotT, typename RemT = QuotT>
struct div_result {
  QuotT quot;
  RemT rem;
  constexpr bool operator==(const div_result&) const = default;
  constexpr operator std::tuple<QuotT&, RemT&>() noexcept { return {quot, rem}; }
};

inline constexpr uint64_t bswap(uint64_t x) noexcept { return __builtin_bswap64(x); }
inline constexpr uint32_t bswap(uint32_t x) noexcept { return __builtin_bswap32(x); }
inline constexpr uint16_t bswap(uint16_t x) noexcept { return __builtin_bswap16(x); }
inline constexpr uint8_t bswap(uint8_t x) noexcept { return x; }

inline constexpr unsigned clz(uint64_t x) noexcept { return x == 0 ? 64u : unsigned(__builtin_clzll(x)); }
inline constexpr unsigned clz(uint32_t x) noexcept { return x == 0 ? 32u : unsigned(__builtin_clz(x)); }

inline constexpr result_with_carry<uint64_t> addc(uint64_t x, uint64_t y, bool carry = false) noexcept {
  unsigned __int128 s = (unsigned __int128)x + y + (carry ? 1u : 0u);
  return {uint64_t(s), (s >> 64) != 0};
}
inline constexpr result_with_carry<uint64_t> subc(uint64_t x, uint64_t y, bool carry = false) noexcept {
  unsigned __int128 s = (unsigned __int128)x - y - (carry ? 1u : 0u);
  return {uint64_t(s), (s >> 64) != 0};
}

template <unsigned N>
struct uint {
  using word_type = uint64_t;
  static constexpr unsigned word_num_bits = 64;
  static constexpr unsigned num_bits = N;
  static constexpr unsigned num_words = N / 64;
  static_assert(N % 64 == 0 && N >= 128);

 private:
  uint64_t words_[num_words]{};

 public:
  constexpr uint() noexcept = default;

  template <unsigned M, typename = std::enable_if_t<(M < N)>>
  constexpr uint(const uint<M>& x) noexcept {
    for (unsigned i = 0; i < uint<M>::num_words; ++i) words_[i] = x[i];
  }

  template <typename... T, typename = std::enable_if_t<(sizeof...(T) >= 1) && (sizeof...(T) <= num_words) &&
                                                       std::conjunction_v<std::is_convertible<T, uint64_t>...> &&
                                                       !std::disjunction_v<std::is_class<std::decay_t<T>>...>>>
  constexpr uint(T... v) noexcept : words_{static_cast<uint64_t>(v)...} {}

  constexpr uint64_t& operator[](size_t i) noexcept { return words_[i]; }
  constexpr const uint64_t& operator[](size_t i) const noexcept { return words_[i]; }

  constexpr explicit operator bool() const noexcept {
    uint64_t r = 0;
    for (auto w : words_) r |= w;
    return r != 0;
  }
  template <unsigned M, typename = std::enable_if_t<(M < N)>>
  explicit constexpr operator uint<M>() const noexcept {
    uint<M> r;
    for (unsigned i = 0; i < uint<M>::num_words; ++i) r[i] = words_[i];
    return r;
  }
  template <typename Int, typename = std::enable_if_t<std::is_integral_v<Int> && !std::is_same_v<Int, bool>>>
  explicit constexpr operator Int() const noexcept {
    return static_cast<Int>(words_[0]);
  }

  INTX_OUTLINE friend constexpr uint operator~(const uint& x) noexcept {
    uint r;
    for (unsigned i = 0; i < num_words; ++i) r[i] = ~x[i];
    return r;
  }
  friend constexpr uint operator-(const uint& x) noexcept { return uint{0} - x; }
  friend constexpr uint operator+(const uint& x) noexcept { return x; }

  INTX_OUTLINE friend constexpr uint operator+(const uint& x, const uint& y) noexcept {
    uint r;
    bool c = false;
    for (unsigned i = 0; i < num_words; ++i) {
      auto t = intx::addc(x[i], y[i], c);
      r[i] = t.value;
      c = t.carry;
    }
    return r;
  }
  INTX_OUTLINE friend constexpr uint operator-(const uint& x, const uint& y) noexcept {
    uint r;
    bool c = false;
    for (unsigned i = 0; i < num_words; ++i) {
      auto t = intx::subc(x[i], y[i], c);
      r[i] = t.value;
      c = t.carry;
    }
    return r;
  }
  INTX_OUTLINE friend constexpr uint operator*(const uint& x, const uint& y) noexcept {
    uint r;
    for (unsigned j = 0; j < num_words; ++j) {
      uint64_t k = 0;
      for (unsigned i = 0; i + j < num_words; ++i) {
        unsigned __int128 t = (unsigned __int128)x[i] * y[j] + r[i + j] + k;
        r[i + j] = uint64_t(t);
        k = uint64_t(t >> 64);
      }
    }
    return r;
  }
  INTX_OUTLINE friend constexpr uint operator&(const uint& x, const uint& y) noexcept {
    uint r;
    for (unsigned i = 0; i < num_words; ++i) r[i] = x[i] & y[i];
    return r;
  }
  INTX_OUTLINE friend constexpr uint operator|(const uint& x, const uint& y) noexcept {
    uint r;
    for (unsigned i = 0; i < num_words; ++i) r[i] = x[i] | y[i];
    return r;
  }
  INTX_OUTLINE friend constexpr uint operator^(const uint& x, const uint& y) noexcept {
    uint r;
    for (unsigned i = 0; i < num_words; ++i) r[i] = x[i] ^ y[i];
    return r;
  }
  INTX_OUTLINE friend constexpr bool operator==(const uint& x, const uint& y) noexcept {
    uint64_t d = 0;
    for (unsigned i = 0; i < num_words; ++i) d |= x[i] ^ y[i];
    return d == 0;
  }
  friend constexpr bool operator!=(const uint& x, const uint& y) noexcept { return !(x == y); }
  INTX_OUTLINE friend constexpr bool operator<(const uint& x, const uint& y) noexcept {
    for (unsigned i = num_words; i-- > 0;)
      if (x[i] != y[i]) return x[i] < y[i];
    return false;
  }
  friend constexpr bool operator>(const uint& x, const uint& y) noexcept { return y < x; }
  friend constexpr bool operator<=(const uint& x, const uint& y) noexcept { return !(y < x); }
  friend constexpr bool operator>=(const uint& x, const uint& y) noexcept { return !(x < y); }

  INTX_OUTLINE friend constexpr uint operator<<(const uint& x, uint64_t s) noexcept {
    uint r;
    if (s >= N) return r;
    const unsigned w = unsigned(s / 64), b = unsigned(s % 64);
    for (unsigned i = num_words; i-- > w;) {
      uint64_t v = x[i - w] << b;
      if (b != 0 && i - w >= 1) v |= x[i - w - 1] >> (64 - b);
      r[i] = v;
    }
    return r;
  }
  INTX_OUTLINE friend constexpr uint operator>>(const uint& x, uint64_t s) noexcept {
    uint r;
    if (s >= N) return r;
    const unsigned w = unsigned(s / 64), b = unsigned(s % 64);
    for (unsigned i = 0; i + w < num_words; ++i) {
      uint64_t v = x[i + w] >> b;
      if (b != 0 && i + w + 1 < num_words) v |= x[i + w + 1] << (64 - b);
      r[i] = v;
    }
    return r;
  }
  INTX_OUTLINE friend constexpr uint operator<<(const uint& x, const uint& s) noexcept {
    for (unsigned i = 1; i < num_words; ++i)
      if (s[i] != 0) return uint{};
    return x << s[0];
  }
  INTX_OUTLINE friend constexpr uint operator>>(const uint& x, const uint& s) noexcept {
    for (unsigned i = 1; i < num_words; ++i)
      if (s[i] != 0) return uint{};
    return x >> s[0];
  }
  template <typename T, typename = std::enable_if_t<std::is_integral_v<T> && !std::is_same_v<T, uint64_t>>>
  friend constexpr uint operator<<(const uint& x, T s) noexcept {
    return x << static_cast<uint64_t>(s);
  }
  template <typename T, typename = std::enable_if_t<std::is_integral_v<T> && !std::is_same_v<T, uint64_t>>>
  friend constexpr uint operator>>(const uint& x, T s) noexcept {
    return x >> static_cast<uint64_t>(s);
  }

  friend constexpr uint operator/(const uint& x, const uint& y) noexcept { return udivrem(x, y).quot; }
  friend constexpr uint operator%(const uint& x, const uint& y) noexcept { return udivrem(x, y).rem; }

  constexpr uint& operator+=(const uint& y) noexcept { return *this = *this + y; }
  constexpr uint& operator-=(const uint& y) noexcept { return *this = *this - y; }
  constexpr uint& operator*=(const uint& y) noexcept { return *this = *this * y; }
  constexpr uint& operator/=(const uint& y) noexcept { return *this = *this / y; }
  constexpr uint& operator%=(const uint& y) noexcept { return *this = *this % y; }
  constexpr uint& operator&=(const uint& y) noexcept { return *this = *this & y; }
  constexpr uint& operator|=(const uint& y) noexcept { return *this = *this | y; }
  constexpr uint& operator^=(const uint& y) noexcept { return *this = *this ^ y; }
  template <typename T>
  constexpr uint& operator<<=(const T& s) noexcept { return *this = *this << s; }
  template <typename T>
  constexpr uint& operator>>=(const T& s) noexcept { return *this = *this >> s; }
  constexpr uint& operator++() noexcept { return *this += uint{1}; }
  constexpr uint& operator--() noexcept { return *this -= uint{1}; }
  constexpr const uint operator++(int) noexcept { auto r = *this; ++*this; return r; }
  constexpr const uint operator--(int) noexcept { auto r = *this; --*this; return r; }
};

using uint128 = uint<128>;
using uint192 = uint<192>;
using uint256 = uint<256>;
using uint320 = uint<320>;
using uint384 = uint<384>;
using uint512 = uint<512>;

template <unsigned N>
INTX_OUTLINE constexpr unsigned clz(const uint<N>& x) noexcept {
  unsigned r = 0;
  for (unsigned i = uint<N>::num_words; i-- > 0;) {
    if (x[i] != 0) return r + unsigned(__builtin_clzll(x[i]));
    r += 64;
  }
  return r;
}
template <unsigned N>
constexpr unsigned count_significant_words(const uint<N>& x) noexcept {
  for (unsigned i = uint<N>::num_words; i-- > 0;)
    if (x[i] != 0) return i + 1;
  return 0;
}
template <unsigned N>
constexpr unsigned count_significant_bytes(const uint<N>& x) noexcept {
  return (N - clz(x) + 7) / 8;
}
constexpr unsigned count_significant_bytes(uint64_t x) noexcept { return (64 - clz(x) + 7) / 8; }

template <unsigned N>
constexpr result_with_carry<uint<N>> addc(const uint<N>& x, const uint<N>& y, bool carry = false) noexcept {
  uint<N> r;
  bool c = carry;
  for (unsigned i = 0; i < uint<N>::num_words; ++i) {
    auto t = addc(x[i], y[i], c);
    r[i] = t.value;
    c = t.carry;
  }
  return {r, c};
}
template <unsigned N>
constexpr result_with_carry<uint<N>> subc(const uint<N>& x, const uint<N>& y, bool carry = false) noexcept {
  uint<N> r;
  bool c = carry;
  for (unsigned i = 0; i < uint<N>::num_words; ++i) {
    auto t = subc(x[i], y[i], c);
    r[i] = t.value;
    c = t.carry;
  }
  return {r, c};
}

// Knuth's algorithm D on 32-bit digits.
template <unsigned M, unsigned N>
INTX_OUTLINE constexpr div_result<uint<M>, uint<N>> udivrem(const uint<M>& u, const uint<N>& v) noexcept {
  constexpr int UD = M / 32, VD = N / 32;
  uint32_t un[UD + 1]{}, vn[VD]{}, q[UD]{};
  for (int i = 0; i < UD; ++i) un[i] = uint32_t(u[size_t(i) / 2] >> (32 * (i % 2)));
  for (int i = 0; i < VD; ++i) vn[i] = uint32_t(v[size_t(i) / 2] >> (32 * (i % 2)));
  int m = UD, n = VD;
  while (m > 0 && un[m - 1] == 0) --m;
  while (n > 0 && vn[n - 1] == 0) --n;
  uint<M> quot;
  uint<N> rem;
  if (n == 0) return {quot, rem};  // division by zero: callers must exclude it
  if (m < n) {
    for (int i = 0; i < m && i < VD; ++i) rem[size_t(i) / 2] |= uint64_t(un[i]) << (32 * (i % 2));
    return {quot, rem};
  }
  if (n == 1) {
    uint64_t r = 0;
    for (int i = m - 1; i >= 0; --i) {
      uint64_t c = (r << 32) | un[i];
      q[i] = uint32_t(c / vn[0]);
      r = c % vn[0];
    }
    rem[0] = r;
  } else {
    const int s = __builtin_clz(vn[n - 1]);
    if (s) {
      for (int i = n - 1; i > 0; --i) vn[i] = (vn[i] << s) | (vn[i - 1] >> (32 - s));
      vn[0] <<= s;
      un[m] = un[m - 1] >> (32 - s);
      for (int i = m - 1; i > 0; --i) un[i] = (un[i] << s) | (un[i - 1] >> (32 - s));
      un[0] <<= s;
    } else {
      un[m] = 0;
    }
    for (int j = m - n; j >= 0; --j) {
      uint64_t num = (uint64_t(un[j + n]) << 32) | un[j + n - 1];
      uint64_t qhat = num / vn[n - 1], rhat = num % vn[n - 1];
      while ((qhat >> 32) != 0 || qhat * vn[n - 2] > ((rhat << 32) | un[j + n - 2])) {
        --qhat;
        rhat += vn[n - 1];
        if ((rhat >> 32) != 0) break;
      }
      uint64_t borrow = 0, carry = 0;
      for (int i = 0; i < n; ++i) {
        uint64_t p = qhat * vn[i] + carry;
        carry = p >> 32;
        uint64_t t = uint64_t(un[i + j]) - uint32_t(p) - borrow;
        un[i + j] = uint32_t(t);
        borrow = (t >> 32) != 0;
      }
      uint64_t t = uint64_t(un[j + n]) - carry - borrow;
      un[j + n] = uint32_t(t);
      if ((t >> 32) != 0) {
        --qhat;
        uint64_t c = 0;
        for (int i = 0; i < n; ++i) {
          c += uint64_t(un[i + j]) + vn[i];
          un[i + j] = uint32_t(c);
          c >>= 32;
        }
        un[j + n] = uint32_t(un[j + n] + c);
      }
      q[j] = uint32_t(qhat);
    }
    for (int i = 0; i < n; ++i) {
      uint32_t d = s ? (un[i] >> s) | uint32_t(uint64_t(un[i + 1]) << (32 - s)) : un[i];
      rem[size_t(i) / 2] |= uint64_t(d) << (32 * (i % 2));
    }
  }
  for (int i = 0; i < UD; ++i) quot[size_t(i) / 2] |= uint64_t(q[i]) << (32 * (i % 2));
  return {quot, rem};
}

template <unsigned N>
INTX_OUTLINE constexpr div_result<uint<N>> sdivrem(const uint<N>& u, const uint<N>& v) noexcept {
  const bool un = (u[uint<N>::num_words - 1] >> 63) != 0, vn = (v[uint<N>::num_words - 1] >> 63) != 0;
  auto r = udivrem(un ? -u : u, vn ? -v : v);
  return {un != vn ? -r.quot : r.quot, un ? -r.rem : r.rem};
}

template <unsigned N>
INTX_OUTLINE constexpr bool slt(const uint<N>& x, const uint<N>& y) noexcept {
  const bool xn = (x[uint<N>::num_words - 1] >> 63) != 0, yn = (y[uint<N>::num_words - 1] >> 63) != 0;
  return xn != yn ? xn : x < y;
}

template <unsigned N>
INTX_OUTLINE constexpr uint<2 * N> umul(const uint<N>& x, const uint<N>& y) noexcept {
  return uint<2 * N>{x} * uint<2 * N>{y};
}

INTX_OUTLINE constexpr uint256 addmod(const uint256& x, const uint256& y, const uint256& m) noexcept {
  auto s = addc(x, y);
  uint320 n{s.value};
  n[4] = s.carry;
  return udivrem(n, m).rem;
}
INTX_OUTLINE constexpr uint256 mulmod(const uint256& x, const uint256& y, const uint256& m) noexcept {
  return udivrem(umul(x, y), m).rem;
}

template <unsigned N>
INTX_OUTLINE constexpr uint<N> exp(uint<N> base, uint<N> e) noexcept {
  uint<N> r{1};
  for (unsigned i = 0; i < N; ++i) {
    if ((e[i / 64] >> (i % 64)) & 1) r *= base;
    base *= base;
  }
  return r;
}

template <unsigned N>
INTX_OUTLINE constexpr uint<N> bswap(const uint<N>& x) noexcept {
  uint<N> r;
  for (unsigned i = 0; i < uint<N>::num_words; ++i) r[uint<N>::num_words - 1 - i] = bswap(x[i]);
  return r;
}

template <unsigned N>
inline uint8_t* as_bytes(uint<N>& x) noexcept { return reinterpret_cast<uint8_t*>(&x); }
template <unsigned N>
inline const uint8_t* as_bytes(const uint<N>& x) noexcept { return reinterpret_cast<const uint8_t*>(&x); }
template <unsigned N>
inline uint64_t* as_words(uint<N>& x) noexcept { return &x[0]; }
template <unsigned N>
inline const uint64_t* as_words(const uint<N>& x) noexcept { return &x[0]; }

template <unsigned N>
INTX_OUTLINE inline std::string to_string(uint<N> x, int base = 10) {
  if (base < 2 || base > 36) throw std::invalid_argument("invalid base");
  if (!x) return "0";
  std::string s;
  while (x) {
    auto r = udivrem(x, uint<N>{uint64_t(base)});
    auto c = int(uint64_t(r.rem[0]));
    s.push_back(char(c < 10 ? '0' + c : 'a' + c - 10));
    x = r.quot;
  }
  std::reverse(s.begin(), s.end());
  return s;
}
template <unsigned N>
inline std::string hex(const uint<N>& x) { return to_string(x, 16); }

template <typename Int>
constexpr Int from_string(std::string_view s) {
  Int r{};
  uint64_t base = 10;
  if (s.size() > 2 && s[0] == '0' && s[1] == 'x') {
    base = 16;
    s.remove_prefix(2);
  }
  for (char c : s) {
    uint64_t d = c >= '0' && c <= '9' ? uint64_t(c - '0') : c >= 'a' && c <= 'f' ? uint64_t(c - 'a' + 10)
                 : c >= 'A' && c <= 'F' ? uint64_t(c - 'A' + 10) : 99;
    if (d >= base) throw std::invalid_argument("invalid digit");
    r = r * Int{base} + Int{d};
  }
  return r;
}

inline namespace literals {
consteval uint256 operator""_u256(const char* s) { return from_string<uint256>(s); }
consteval uint512 operator""_u512(const char* s) { return from_string<uint512>(s); }
consteval uint128 operator""_u128(const char* s) { return from_string<uint128>(s); }
}  // namespace literals

namespace detail {
template <typename T>
struct word_of { static constexpr bool big = false; };
template <typename T>
inline constexpr T be_swap(const T& x) noexcept { return bswap(x); }
}  // namespace detail

namespace le {
template <typename IntT, unsigned M>
inline IntT load(const uint8_t (&src)[M]) noexcept {
  static_assert(M <= sizeof(IntT));
  IntT x{};
  std::memcpy(&x, src, M);
  return x;
}
template <typename T>
inline void store(uint8_t (&dst)[sizeof(T)], const T& x) noexcept { std::memcpy(dst, &x, sizeof(T)); }
namespace unsafe {
template <typename T>
inline T load(const uint8_t* src) noexcept { T x{}; std::memcpy(&x, src, sizeof(x)); return x; }
template <typename T>
inline void store(uint8_t* dst, const T& x) noexcept { std::memcpy(dst, &x, sizeof(x)); }
}  // namespace unsafe
}  // namespace le

namespace be {
template <typename IntT, unsigned M>
inline IntT load(const uint8_t (&src)[M]) noexcept {
  static_assert(M <= sizeof(IntT), "the size of source bytes must not exceed the size of the destination uint");
  IntT x{};
  std::memcpy(reinterpret_cast<uint8_t*>(&x) + sizeof(IntT) - M, src, M);
  return bswap(x);
}
template <typename IntT, typename T>
  requires requires(const T& t) { t.bytes; }
inline IntT load(const T& t) noexcept { return load<IntT>(t.bytes); }

template <typename T>
inline void store(uint8_t (&dst)[sizeof(T)], const T& x) noexcept {
  const auto d = bswap(x);
  std::memcpy(dst, &d, sizeof(d));
}
template <typename SrcT, typename DstT>
inline SrcT store(const DstT& x) noexcept {
  SrcT r{};
  store(r.bytes, x);
  return r;
}
template <unsigned M, unsigned N>
inline void trunc(uint8_t (&dst)[M], const uint<N>& x) noexcept {
  static_assert(M < N / 8, "destination must be smaller than the source value");
  const auto d = bswap(x);
  std::memcpy(dst, as_bytes(d) + (N / 8) - M, M);
}
template <typename T, unsigned N>
inline T trunc(const uint<N>& x) noexcept {
  T r{};
  trunc(r.bytes, x);
  return r;
}
namespace unsafe {
template <typename IntT>
inline IntT load(const uint8_t* src) noexcept { IntT x{}; std::memcpy(&x, src, sizeof(x)); return bswap(x); }
template <typename T>
inline void store(uint8_t* dst, const T& x) noexcept { const auto d = bswap(x); std::memcpy(dst, &d, sizeof(d)); }
}  // namespace unsafe
}  // namespace be

}  // namespace intx

template <unsigned N>
struct std::numeric_limits<intx::uint<N>> {
  using type = intx::uint<N>;
  static constexpr bool is_specialized = true;
  static constexpr bool is_integer = true;
  static constexpr bool is_signed = false;
  static constexpr bool is_exact = true;
  static constexpr bool is_bounded = true;
  static constexpr bool is_modulo = true;
  static constexpr int digits = int(N);
  static constexpr int radix = 2;
  static constexpr type min() noexcept { return 0; }
  static constexpr type lowest() noexcept { return min(); }
  static constexpr type max() noexcept { return ~type{0}; }
};
