// Offline stand-in for the EVMC C++ API.
#pragma once
#include <cstring>
#include <functional>
#include <initializer_list>
#include <ostream>
#include <string>
#include <string_view>
#include <utility>

#include <evmc/evmc.h>
#include <evmc/utils.h>

namespace evmc {
using bytes = std::basic_string<uint8_t>;

struct address : evmc_address {
  constexpr address(evmc_address init = {}) noexcept : evmc_address{init} {}
  constexpr explicit address(uint64_t v) noexcept : evmc_address{} {
    for (int i = 0; i < 8; ++i) bytes[19 - i] = uint8_t(v >> (8 * i));
  }
  inline constexpr explicit operator bool() const noexcept;
};
struct bytes32 : evmc_bytes32 {
  constexpr bytes32(evmc_bytes32 init = {}) noexcept : evmc_bytes32{init} {}
  constexpr explicit bytes32(uint64_t v) noexcept : evmc_bytes32{} {
    for (int i = 0; i < 8; ++i) bytes[31 - i] = uint8_t(v >> (8 * i));
  }
  inline constexpr explicit operator bool() const noexcept;
};
using uint256be = bytes32;

constexpr bool is_zero(const evmc_address& a) noexcept { for (auto b : a.bytes) if (b) return false; return true; }
constexpr bool is_zero(const evmc_bytes32& a) noexcept { for (auto b : a.bytes) if (b) return false; return true; }
inline constexpr address::operator bool() const noexcept { return !is_zero(static_cast<const evmc_address&>(*this)); }
inline constexpr bytes32::operator bool() const noexcept { return !is_zero(static_cast<const evmc_bytes32&>(*this)); }

constexpr int compare_bytes(const uint8_t* a, const uint8_t* b, int n) noexcept {
  for (int i = 0; i < n; ++i) if (a[i] != b[i]) return a[i] < b[i] ? -1 : 1;
  return 0;
}
constexpr bool operator==(const address& a, const address& b) noexcept { return compare_bytes(a.bytes, b.bytes, 20) == 0; }
constexpr bool operator!=(const address& a, const address& b) noexcept { return !(a == b); }
constexpr bool operator<(const address& a, const address& b) noexcept { return compare_bytes(a.bytes, b.bytes, 20) < 0; }
constexpr bool operator>(const address& a, const address& b) noexcept { return b < a; }
constexpr bool operator<=(const address& a, const address& b) noexcept { return !(b < a); }
constexpr bool operator>=(const address& a, const address& b) noexcept { return !(a < b); }
constexpr bool operator==(const bytes32& a, const bytes32& b) noexcept { return compare_bytes(a.bytes, b.bytes, 32) == 0; }
constexpr bool operator!=(const bytes32& a, const bytes32& b) noexcept { return !(a == b); }
constexpr bool operator<(const bytes32& a, const bytes32& b) noexcept { return compare_bytes(a.bytes, b.bytes, 32) < 0; }
constexpr bool operator>(const bytes32& a, const bytes32& b) noexcept { return b < a; }
constexpr bool operator<=(const bytes32& a, const bytes32& b) noexcept { return !(b < a); }
constexpr bool operator>=(const bytes32& a, const bytes32& b) noexcept { return !(a < b); }

template <typename T>
inline std::string hex_of(const T& x) {
  static const char* d = "0123456789abcdef";
  std::string s = "0x";
  for (auto b : x.bytes) { s += d[b >> 4]; s += d[b & 15]; }
  return s;
}
inline std::string hex(const address& a) { return hex_of(a); }
inline std::string hex(const bytes32& a) { return hex_of(a); }
inline std::ostream& operator<<(std::ostream& o, const address& a) { return o << hex_of(a); }
inline std::ostream& operator<<(std::ostream& o, const bytes32& a) { return o << hex_of(a); }

namespace literals {
template <typename T>
consteval T parse_literal(const char* s) {
  T r{};
  if (s[0] == '0' && s[1] == 'x') s += 2;
  size_t n = 0;
  while (s[n]) ++n;
  if (n == 1 && s[0] == '0') return r;
  size_t N = sizeof(r.bytes);
  if (n != 2 * N) throw "literal must have the full length";
  auto v = [](char c) { return uint8_t(c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c - 'A' + 10); };
  for (size_t i = 0; i < N; ++i) r.bytes[i] = uint8_t(v(s[2 * i]) << 4 | v(s[2 * i + 1]));
  return r;
}
consteval address operator""_address(const char* s) { return parse_literal<address>(s); }
consteval bytes32 operator""_bytes32(const char* s) { return parse_literal<bytes32>(s); }
}  // namespace literals
using namespace literals;

class Result : private evmc_result {
 public:
  using evmc_result::create_address;
  using evmc_result::gas_left;
  using evmc_result::gas_refund;
  using evmc_result::output_data;
  using evmc_result::output_size;
  using evmc_result::status_code;

  explicit Result(evmc_status_code sc = EVMC_INTERNAL_ERROR, int64_t gas = 0, int64_t refund = 0,
                  const uint8_t* out = nullptr, size_t out_size = 0) noexcept : evmc_result{} {
    status_code = sc;
    gas_left = gas;
    gas_refund = refund;
    if (out_size) {
      auto* b = new uint8_t[out_size];
      std::memcpy(b, out, out_size);
      output_data = b;
      output_size = out_size;
      release = [](const evmc_result* r) { delete[] r->output_data; };
    }
  }
  explicit Result(evmc_status_code sc, int64_t gas, int64_t refund, const evmc_address& created) noexcept : evmc_result{} {
    status_code = sc;
    gas_left = gas;
    gas_refund = refund;
    create_address = created;
  }
  explicit Result(const evmc_result& r) noexcept : evmc_result{r} {}
  ~Result() noexcept { if (release) release(this); }
  Result(Result&& o) noexcept : evmc_result{o} { o.release = nullptr; }
  Result(const Result&) = delete;
  Result& operator=(const Result&) = delete;
  Result& operator=(Result&& o) noexcept {
    if (this != &o) {
      if (release) release(this);
      static_cast<evmc_result&>(*this) = o;
      o.release = nullptr;
    }
    return *this;
  }
  evmc_result release_raw() noexcept {
    const auto r = evmc_result{*this};
    this->release = nullptr;
    return r;
  }
  const evmc_result& raw() const noexcept { return *this; }
};

class HostInterface {
 public:
  virtual ~HostInterface() noexcept = default;
  virtual bool account_exists(const address& addr) const noexcept = 0;
  virtual bytes32 get_storage(const address& addr, const bytes32& key) const noexcept = 0;
  virtual evmc_storage_status set_storage(const address& addr, const bytes32& key, const bytes32& value) noexcept = 0;
  virtual uint256be get_balance(const address& addr) const noexcept = 0;
  virtual size_t get_code_size(const address& addr) const noexcept = 0;
  virtual bytes32 get_code_hash(const address& addr) const noexcept = 0;
  virtual size_t copy_code(const address& addr, size_t code_offset, uint8_t* buffer_data, size_t buffer_size) const noexcept = 0;
  virtual bool selfdestruct(const address& addr, const address& beneficiary) noexcept = 0;
  virtual Result call(const evmc_message& msg) noexcept = 0;
  virtual evmc_tx_context get_tx_context() const noexcept = 0;
  virtual bytes32 get_block_hash(int64_t block_number) const noexcept = 0;
  virtual void emit_log(const address& addr, const uint8_t* data, size_t data_size, const bytes32 topics[], size_t num_topics) noexcept = 0;
  virtual evmc_access_status access_account(const address& addr) noexcept = 0;
  virtual evmc_access_status access_storage(const address& addr, const bytes32& key) noexcept = 0;
  virtual bytes32 get_transient_storage(const address& addr, const bytes32& key) const noexcept = 0;
  virtual void set_transient_storage(const address& addr, const bytes32& key, const bytes32& value) noexcept = 0;
};

class HostContext : public HostInterface {
  const evmc_host_interface* host = nullptr;
  evmc_host_context* context = nullptr;

 public:
  HostContext() = default;
  HostContext(const evmc_host_interface& i, evmc_host_context* c) noexcept : host{&i}, context{c} {}
  bool account_exists(const address& a) const noexcept final { return host->account_exists(context, &a); }
  bytes32 get_storage(const address& a, const bytes32& k) const noexcept final { return host->get_storage(context, &a, &k); }
  evmc_storage_status set_storage(const address& a, const bytes32& k, const bytes32& v) noexcept final { return host->set_storage(context, &a, &k, &v); }
  uint256be get_balance(const address& a) const noexcept final { return host->get_balance(context, &a); }
  size_t get_code_size(const address& a) const noexcept final { return host->get_code_size(context, &a); }
  bytes32 get_code_hash(const address& a) const noexcept final { return host->get_code_hash(context, &a); }
  size_t copy_code(const address& a, size_t o, uint8_t* d, size_t n) const noexcept final { return host->copy_code(context, &a, o, d, n); }
  bool selfdestruct(const address& a, const address& b) noexcept final { return host->selfdestruct(context, &a, &b); }
  Result call(const evmc_message& m) noexcept final { return Result{host->call(context, &m)}; }
  evmc_tx_context get_tx_context() const noexcept final { return host->get_tx_context(context); }
  bytes32 get_block_hash(int64_t n) const noexcept final { return host->get_block_hash(context, n); }
  void emit_log(const address& a, const uint8_t* d, size_t n, const bytes32 t[], size_t k) noexcept final { host->emit_log(context, &a, d, n, t, k); }
  evmc_access_status access_account(const address& a) noexcept final { return host->access_account(context, &a); }
  evmc_access_status access_storage(const address& a, const bytes32& k) noexcept final { return host->access_storage(context, &a, &k); }
  bytes32 get_transient_storage(const address& a, const bytes32& k) const noexcept final { return host->get_transient_storage(context, &a, &k); }
  void set_transient_storage(const address& a, const bytes32& k, const bytes32& v) noexcept final { host->set_transient_storage(context, &a, &k, &v); }
};

class Host : public HostInterface {
 public:
  static const evmc_host_interface& get_interface() noexcept;
  evmc_host_context* to_context() noexcept { return reinterpret_cast<evmc_host_context*>(this); }
  template <typename D = Host>
  static D* from_context(evmc_host_context* c) noexcept { return static_cast<D*>(reinterpret_cast<Host*>(c)); }
};

namespace internal {
inline Host* H(evmc_host_context* c) noexcept { return Host::from_context(c); }
}  // namespace internal
inline const evmc_host_interface& Host::get_interface() noexcept {
  using internal::H;
  using C = evmc_host_context;
  static constexpr evmc_host_interface i{
      [](C* c, const evmc_address* a) { return H(c)->account_exists(address{*a}); },
      [](C* c, const evmc_address* a, const evmc_bytes32* k) -> evmc_bytes32 { return H(c)->get_storage(*a, *k); },
      [](C* c, const evmc_address* a, const evmc_bytes32* k, const evmc_bytes32* v) { return H(c)->set_storage(*a, *k, *v); },
      [](C* c, const evmc_address* a) -> evmc_uint256be { return H(c)->get_balance(*a); },
      [](C* c, const evmc_address* a) { return H(c)->get_code_size(*a); },
      [](C* c, const evmc_address* a) -> evmc_bytes32 { return H(c)->get_code_hash(*a); },
      [](C* c, const evmc_address* a, size_t o, uint8_t* d, size_t n) { return H(c)->copy_code(*a, o, d, n); },
      [](C* c, const evmc_address* a, const evmc_address* b) { return H(c)->selfdestruct(*a, *b); },
      [](C* c, const evmc_message* m) -> evmc_result { return H(c)->call(*m).release_raw(); },
      [](C* c) { return H(c)->get_tx_context(); },
      [](C* c, int64_t n) -> evmc_bytes32 { return H(c)->get_block_hash(n); },
      [](C* c, const evmc_address* a, const uint8_t* d, size_t n, const evmc_bytes32* t, size_t k) {
        H(c)->emit_log(*a, d, n, static_cast<const bytes32*>(t), k);
      },
      [](C* c, const evmc_address* a) { return H(c)->access_account(*a); },
      [](C* c, const evmc_address* a, const evmc_bytes32* k) { return H(c)->access_storage(*a, *k); },
      [](C* c, const evmc_address* a, const evmc_bytes32* k) -> evmc_bytes32 { return H(c)->get_transient_storage(*a, *k); },
      [](C* c, const evmc_address* a, const evmc_bytes32* k, const evmc_bytes32* v) { H(c)->set_transient_storage(*a, *k, *v); },
  };
  return i;
}
}  // namespace evmc

template <>
struct std::hash<evmc::address> {
  constexpr size_t operator()(const evmc::address& s) const noexcept {
    uint64_t h = 0xcbf29ce484222325;
    for (auto b : s.bytes) h = (h ^ b) * 0x100000001b3;
    return h;
  }
};
template <>
struct std::hash<evmc::bytes32> {
  constexpr size_t operator()(const evmc::bytes32& s) const noexcept {
    uint64_t h = 0xcbf29ce484222325;
    for (auto b : s.bytes) h = (h ^ b) * 0x100000001b3;
    return h;
  }
};
