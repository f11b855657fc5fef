// Runs recorded cases through evmzero's public C interface with a scripted
// host and writes every observable outcome to a log for offline checking.
//
//   evmzero_runner CASES OUT plain|fresh
//   evmzero_runner CASES OUT step SEED
//   evmzero_runner CASES OUT threads N ROUNDS SEED
//   evmzero_runner CASES OUT leak BATCHES
//   evmzero_runner CASES OUT profile SEED DUMPDIR full|external
//
// EVMZ_NEST=1   the host runs another case on the same instance inside nested
//               calls and checks that it ends as it does on its own
// EVMZ_CAPTURE=FILE   redirect stdout there and log how much each case printed
#include <fcntl.h>
#include <sys/stat.h>
#include <unistd.h>

#include <functional>
#include <iostream>
#include <mutex>
#include <unordered_map>

#include <algorithm>
#include <atomic>
#include <cinttypes>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <map>
#include <memory>
#include <random>
#include <set>
#include <sstream>
#include <string>
#include <thread>
#include <vector>

#include <evmc/evmc.h>
#include <evmc/evmc.hpp>

// the same for evmrs, the interpreter in Rust, which has no profiler
#ifdef EVMRS
#define evmc_create_evmzero evmc_create_evmrs
#define evmc_create_steppable_evmzero evmc_create_steppable_evmrs
#endif
extern "C" {
evmc_vm* evmc_create_evmzero() noexcept;
evmc_vm_steppable* evmc_create_steppable_evmzero() noexcept;
#ifdef EVMRS
void evmzero_dump_profile(evmc_vm*) noexcept {}
void evmzero_reset_profiler(evmc_vm*) noexcept {}
#else
void evmzero_dump_profile(evmc_vm* vm) noexcept;
void evmzero_reset_profiler(evmc_vm* vm) noexcept;
#endif
}

namespace {
using Bytes = std::vector<uint8_t>;
using evmc::address;
using evmc::bytes32;

int Nib(char c) { return c >= 'a' ? c - 'a' + 10 : c - '0'; }
Bytes Unhex(const std::string& s) {
  Bytes b;
  if (s == "-") return b;
  for (size_t i = 0; i + 1 < s.size(); i += 2) b.push_back(uint8_t(Nib(s[i]) << 4 | Nib(s[i + 1])));
  return b;
}
std::string Hex(const uint8_t* p, size_t n) {
  static const char* d = "0123456789abcdef";
  if (n == 0) return "-";
  std::string s(2 * n, '0');
  for (size_t i = 0; i < n; ++i) s[2 * i] = d[p[i] >> 4], s[2 * i + 1] = d[p[i] & 15];
  return s;
}
template <typename T>
std::string Hex(const T& x) {
  return Hex(x.bytes, sizeof(x.bytes));
}
template <typename T>
T Parse(const std::string& s) {
  T t{};
  Bytes b = Unhex(s);
  if (b.size() != sizeof(t.bytes)) {
    std::fprintf(stderr, "bad field %s\n", s.c_str());
    std::exit(9);
  }
  std::copy(b.begin(), b.end(), t.bytes);
  return t;
}
address A(const std::string& s) { return Parse<address>(s); }
bytes32 W(const std::string& s) { return Parse<bytes32>(s); }

struct Account {
  bytes32 balance;
  uint64_t nonce = 0;
  Bytes code;
  bytes32 hash;
};
using Slot = std::pair<address, bytes32>;
struct Val {
  bytes32 cur, orig;
};
struct Effect {
  char kind;
  address a;
  bytes32 k, v;
};
struct Reply {
  int status = 0;
  int64_t frac = 0, refund = 0;
  address created;
  Bytes output;
  std::vector<Effect> effects;
};
struct Case {
  long id = 0;
  int rev = 0, depth = 0;
  bool is_static = false, has_hash = false, create = false;
  int64_t gas = 0;
  address to, from;
  Bytes input, code;
  bytes32 value, code_hash, empty_hash;
  std::map<address, Account> accounts;
  std::map<Slot, Val> storage;
  std::map<Slot, bytes32> transient;
  std::set<address> warma, destroyed;
  std::set<Slot> warms;
  evmc_tx_context tx{};
  std::vector<bytes32> blobs;
  int seed = 0;
  std::vector<Reply> replies;
  std::vector<std::pair<std::string, std::string>> opts;
};

std::vector<Case> ReadCases(const char* path) {
  std::ifstream in(path);
  std::vector<Case> res;
  Case c;
  std::string line;
  while (std::getline(in, line)) {
    std::istringstream ss(line);
    std::vector<std::string> f;
    for (std::string t; ss >> t;) f.push_back(t);
    if (f.empty()) continue;
    const std::string& k = f[0];
    if (k == "case") {
      c = Case{};
      c.id = std::stol(f[1]);
    } else if (k == "rev") c.rev = std::stoi(f[1]);
    else if (k == "static") c.is_static = f[1] == "1";
    else if (k == "depth") c.depth = std::stoi(f[1]);
    else if (k == "gas") c.gas = std::stoll(f[1]);
    else if (k == "to") c.to = A(f[1]);
    else if (k == "from") c.from = A(f[1]);
    else if (k == "input") c.input = Unhex(f[1]);
    else if (k == "value") c.value = W(f[1]);
    else if (k == "code") c.code = Unhex(f[1]);
    else if (k == "codehash") { c.has_hash = true; c.code_hash = W(f[1]); }
    else if (k == "create") c.create = f[1] == "1";
    else if (k == "emptyhash") c.empty_hash = W(f[1]);
    else if (k == "acct") c.accounts[A(f[1])] = Account{W(f[2]), std::stoull(f[3]), Unhex(f[4]), W(f[5])};
    else if (k == "slot") c.storage[{A(f[1]), W(f[2])}] = Val{W(f[3]), W(f[4])};
    else if (k == "trans") c.transient[{A(f[1]), W(f[2])}] = W(f[3]);
    else if (k == "warma") c.warma.insert(A(f[1]));
    else if (k == "warms") c.warms.insert({A(f[1]), W(f[2])});
    else if (k == "destroyed") c.destroyed.insert(A(f[1]));
    else if (k == "ctx") {
      c.tx.block_number = std::stoll(f[1]);
      c.tx.block_timestamp = std::stoll(f[2]);
      c.tx.block_gas_limit = std::stoll(f[3]);
      c.tx.block_coinbase = A(f[4]);
      c.tx.tx_origin = A(f[5]);
      c.tx.block_prev_randao = W(f[6]);
      c.tx.chain_id = W(f[7]);
      c.tx.block_base_fee = W(f[8]);
      c.tx.blob_base_fee = W(f[9]);
      c.tx.tx_gas_price = W(f[10]);
      c.seed = std::stoi(f[11]);
    } else if (k == "blob") c.blobs.push_back(W(f[1]));
    else if (k == "reply") {
      Reply r;
      r.status = std::stoi(f[1]);
      r.frac = std::stoll(f[2]);
      r.refund = std::stoll(f[3]);
      r.created = A(f[4]);
      r.output = Unhex(f[5]);
      c.replies.push_back(r);
    } else if (k == "reff") c.replies.back().effects.push_back({f[1][0], A(f[2]), W(f[3]), W(f[4])});
    else if (k == "opt") c.opts.emplace_back(f[1], f[2]);
    else if (k == "end") res.push_back(c);
  }
  return res;
}

class World final : public evmc::Host {
 public:
  explicit World(const Case& c)
      : c_(c), storage_(c.storage), transient_(c.transient), warma_(c.warma), destroyed_(c.destroyed), warms_(c.warms) {
    for (auto& [a, x] : c.accounts) balances_[a] = x.balance;
  }
  std::vector<std::string> events;
  std::set<address> warma() const { return warma_; }
  std::set<Slot> warms() const { return warms_; }
  std::function<void(size_t)> nested;

  bool account_exists(const address& a) const noexcept override {
    if (bal(a)) return true;
    auto it = c_.accounts.find(a);
    return it != c_.accounts.end() && (it->second.nonce != 0 || !it->second.code.empty());
  }
  bytes32 get_storage(const address& a, const bytes32& k) const noexcept override {
    auto it = storage_.find({a, k});
    return it == storage_.end() ? bytes32{} : it->second.cur;
  }
  evmc_storage_status set_storage(const address& a, const bytes32& k, const bytes32& v) noexcept override {
    auto& s = storage_[{a, k}];
    const bytes32 z{};
    const bytes32 o = s.orig, c = s.cur;
    s.cur = v;
    events.push_back("S " + Hex(a) + " " + Hex(k) + " " + Hex(v));
    if (c == v) return EVMC_STORAGE_ASSIGNED;
    if (o == c) {
      if (o == z) return EVMC_STORAGE_ADDED;
      return v == z ? EVMC_STORAGE_DELETED : EVMC_STORAGE_MODIFIED;
    }
    if (o == z) return v == z ? EVMC_STORAGE_ADDED_DELETED : EVMC_STORAGE_ASSIGNED;
    if (c == z) return v == o ? EVMC_STORAGE_DELETED_RESTORED : EVMC_STORAGE_DELETED_ADDED;
    if (v == z) return EVMC_STORAGE_MODIFIED_DELETED;
    return v == o ? EVMC_STORAGE_MODIFIED_RESTORED : EVMC_STORAGE_ASSIGNED;
  }
  bytes32 get_balance(const address& a) const noexcept override { return bal(a); }
  size_t get_code_size(const address& a) const noexcept override {
    auto it = c_.accounts.find(a);
    return it == c_.accounts.end() ? 0 : it->second.code.size();
  }
  bytes32 get_code_hash(const address& a) const noexcept override {
    if (!account_exists(a)) return {};
    auto it = c_.accounts.find(a);
    return it == c_.accounts.end() ? c_.empty_hash : it->second.code.empty() ? c_.empty_hash : it->second.hash;
  }
  size_t copy_code(const address& a, size_t off, uint8_t* buf, size_t n) const noexcept override {
    auto it = c_.accounts.find(a);
    if (it == c_.accounts.end() || off >= it->second.code.size()) return 0;
    n = std::min(n, it->second.code.size() - off);
    if (n) std::copy_n(it->second.code.data() + off, n, buf);
    return n;
  }
  bool selfdestruct(const address& a, const address& b) noexcept override {
    events.push_back("D " + Hex(a) + " " + Hex(b));
    return destroyed_.insert(a).second;
  }
  evmc::Result call(const evmc_message& m) noexcept override {
    const bool create = m.kind == EVMC_CREATE || m.kind == EVMC_CREATE2;
    const bool st = !create && (m.flags & EVMC_STATIC);
    if (m.depth > 1024) return evmc::Result{EVMC_CALL_DEPTH_EXCEEDED, m.gas};
    const char* kind = "?";
    switch (m.kind) {
      case EVMC_CALL: kind = st ? "staticcall" : "call"; break;
      case EVMC_DELEGATECALL: kind = "delegatecall"; break;
      case EVMC_CALLCODE: kind = "callcode"; break;
      case EVMC_CREATE: kind = "create"; break;
      case EVMC_CREATE2: kind = "create2"; break;
      default: break;
    }
    std::string e = std::string("C ") + kind + (st ? " 1 " : " 0 ") + std::to_string(m.depth) + " " + std::to_string(m.gas) + " ";
    e += (create ? "-" : Hex(m.recipient)) + " " + Hex(m.sender) + " " + (create ? "-" : Hex(m.code_address)) + " " +
         Hex(m.value) + " " + Hex(m.input_data, m.input_size) + " " + (m.kind == EVMC_CREATE2 ? Hex(m.create2_salt) : "-");
    events.push_back(e);
    if (nested) nested(calls_);
    if (c_.replies.empty()) return evmc::Result{EVMC_SUCCESS, m.gas};
    const Reply& r = c_.replies[calls_++ % c_.replies.size()];
    const int64_t left = int64_t(__int128(m.gas) * r.frac / 255);
    if (r.status == 0) {
      for (auto& f : r.effects) {
        if (st && (f.kind == 'S' || f.kind == 'T' || f.kind == 'B')) continue;
        switch (f.kind) {
          case 'S': storage_[{f.a, f.k}].cur = f.v; warms_.insert({f.a, f.k}); break;
          case 'T': transient_[{f.a, f.k}] = f.v; break;
          case 'W': warma_.insert(f.a); break;
          case 'K': warms_.insert({f.a, f.k}); break;
          case 'B': balances_[f.a] = f.v; break;
        }
      }
    }
    // a creation hands out the deployed code, which is no return data, and
    // the address also where the creation failed
    evmc::Result res = r.status == 0   ? evmc::Result{EVMC_SUCCESS, left, r.refund, r.output.data(), r.output.size()}
                       : r.status == 1 ? evmc::Result{EVMC_REVERT, left, 0, r.output.data(), r.output.size()}
                                       : evmc::Result{EVMC_FAILURE, 0};
    if (create) res.create_address = r.created;
    return res;
  }
  evmc_tx_context get_tx_context() const noexcept override {
    auto t = c_.tx;
    t.blob_hashes = c_.blobs.data();
    t.blob_hashes_count = c_.blobs.size();
    return t;
  }
  bytes32 get_block_hash(int64_t n) const noexcept override {
    bytes32 h{};
    for (int i = 0; i < 32; ++i) h.bytes[i] = uint8_t(c_.seed + i * 7);
    for (int i = 0; i < 8; ++i) h.bytes[31 - i] = uint8_t(uint64_t(n) >> (8 * i));
    return h;
  }
  void emit_log(const address& a, const uint8_t* d, size_t n, const bytes32* t, size_t k) noexcept override {
    std::string e = "L " + Hex(a) + " " + Hex(d, n);
    for (size_t i = 0; i < k; ++i) e += " " + Hex(t[i]);
    events.push_back(e);
  }
  evmc_access_status access_account(const address& a) noexcept override {
    return warma_.insert(a).second ? EVMC_ACCESS_COLD : EVMC_ACCESS_WARM;
  }
  evmc_access_status access_storage(const address& a, const bytes32& k) noexcept override {
    return warms_.insert({a, k}).second ? EVMC_ACCESS_COLD : EVMC_ACCESS_WARM;
  }
  bytes32 get_transient_storage(const address& a, const bytes32& k) const noexcept override {
    auto it = transient_.find({a, k});
    return it == transient_.end() ? bytes32{} : it->second;
  }
  void set_transient_storage(const address& a, const bytes32& k, const bytes32& v) noexcept override {
    transient_[{a, k}] = v;
    events.push_back("T " + Hex(a) + " " + Hex(k) + " " + Hex(v));
  }

 private:
  bytes32 bal(const address& a) const noexcept {
    auto it = balances_.find(a);
    return it == balances_.end() ? bytes32{} : it->second;
  }
  const Case& c_;
  std::map<address, bytes32> balances_;
  std::map<Slot, Val> storage_;
  std::map<Slot, bytes32> transient_;
  std::set<address> warma_, destroyed_;
  std::set<Slot> warms_;
  size_t calls_ = 0;
};

evmc_message Message(const Case& c) {
  evmc_message m{};
  m.kind = c.create ? EVMC_CREATE : EVMC_CALL;
  m.flags = c.is_static ? uint32_t{EVMC_STATIC} : 0;
  m.depth = c.depth;
  m.gas = c.gas;
  m.recipient = c.to;
  m.sender = c.from;
  m.input_data = c.input.data();
  m.input_size = c.input.size();
  m.value = c.value;
  m.code_address = c.to;
  if (c.has_hash) m.code_hash = &c.code_hash;
  return m;
}

evmc_revision Rev(const Case& c) {
  static const evmc_revision revs[] = {EVMC_ISTANBUL, EVMC_BERLIN, EVMC_LONDON, EVMC_PARIS, EVMC_SHANGHAI, EVMC_CANCUN};
  return revs[c.rev];
}

const char* StatusClass(evmc_status_code s) {
  return s == EVMC_SUCCESS ? "success" : s == EVMC_REVERT ? "revert" : "fail";
}

std::string Report(const Case& c, const World& w, evmc_status_code status, int64_t gas, int64_t refund,
                   const uint8_t* out, size_t out_size) {
  std::string s = "result " + std::to_string(c.id) + "\nstatus " + StatusClass(status) + " " + std::to_string(int(status)) +
                  "\ngas " + std::to_string(gas) + "\nrefund " + std::to_string(refund) + "\noutput " + Hex(out, out_size) + "\n";
  for (auto& e : w.events) s += "ev " + e + "\n";
  for (auto& a : w.warma()) s += "wa " + Hex(a) + "\n";
  for (auto& k : w.warms()) s += "ws " + Hex(k.first) + ":" + Hex(k.second) + "\n";
  return s + "endresult\n";
}

// Every execution works on exactly sized heap copies of the inputs, so that
// reads beyond them hit a red zone.
struct Exact {
  std::unique_ptr<uint8_t[]> p;
  size_t n;
  explicit Exact(const Bytes& b) : p(new uint8_t[b.size()]), n(b.size()) { std::copy(b.begin(), b.end(), p.get()); }
};

// Re-entrant use of an instance, as real hosts do it.
struct Nesting {
  const std::vector<Case>* cases = nullptr;
  std::mutex mu;
  std::unordered_map<long, std::string> want;  // outcome of a case on its own
  std::string problems;
  std::atomic<long> runs{0}, compared{0};
} nesting;
thread_local int nesting_depth = 0;

std::string RunPlain(evmc_vm* vm, const Case& c);

void RunNested(evmc_vm* vm, const Case& outer, size_t call) {
  if (nesting_depth >= 3) return;
  const Case& c = (*nesting.cases)[(static_cast<size_t>(outer.id) * 31 + call * 7 + 3) % nesting.cases->size()];
  ++nesting_depth;
  auto got = RunPlain(vm, c);
  --nesting_depth;
  nesting.runs++;
  std::lock_guard lock(nesting.mu);
  auto it = nesting.want.find(c.id);
  if (it == nesting.want.end()) return;
  nesting.compared++;
  if (it->second != got && nesting.problems.size() < 20000)
    nesting.problems += "nested-mismatch " + std::to_string(c.id) + "\n--- alone\n" + it->second + "--- nested\n" + got;
}

std::string RunPlain(evmc_vm* vm, const Case& c) {
  World w(c);
  if (nesting.cases) w.nested = [&](size_t i) { RunNested(vm, c, i); };
  Exact code(c.code), input(c.input);
  auto m = Message(c);
  m.input_data = input.p.get();
  evmc_result r = vm->execute(vm, &evmc::Host::get_interface(), w.to_context(), Rev(c), &m, code.p.get(), code.n);
  auto s = Report(c, w, r.status_code, r.gas_left, r.gas_refund, r.output_data, r.output_size);
  if (r.release) r.release(&r);
  return s;
}

uint64_t Fnv(uint64_t h, const uint8_t* p, size_t n) {
  for (size_t i = 0; i < n; ++i) h = (h ^ p[i]) * 0x100000001b3;
  return h;
}

std::string RunSteps(evmc_vm_steppable* vm, const Case& c, std::mt19937_64& rng, std::string& trace) {
  World w(c);
  Exact code(c.code), input(c.input);
  auto m = Message(c);
  m.input_data = input.p.get();
  evmc_step_status_code status = EVMC_STEP_RUNNING;
  uint64_t pc = 0;
  int64_t refund = 0;
  std::vector<evmc_uint256be> stack;
  Bytes memory, last;
  const int policy = int(rng() % 4);
  long total = 0;
  for (;;) {
    int32_t steps = 1;
    if (policy == 1) steps = 1 + int32_t(rng() % 3);
    if (policy == 2) steps = 1 + int32_t(rng() % 20);
    if (policy == 3) steps = (rng() % 8 == 0) ? 0 : 1 + int32_t(rng() % 200);
    std::unique_ptr<evmc_uint256be[]> st(new evmc_uint256be[stack.size()]);
    std::copy(stack.begin(), stack.end(), st.get());
    Exact mem(memory), ret(last);
    evmc_step_result r = vm->step_n(vm, &evmc::Host::get_interface(), w.to_context(), Rev(c), &m, code.p.get(), code.n, status, pc,
                                    refund, st.get(), stack.size(), mem.p.get(), mem.n, ret.p.get(), ret.n, steps);
    total += steps;
    status = r.step_status_code;
    pc = r.pc;
    refund = r.gas_refund;
    m.gas = r.gas_left;
    stack.assign(r.stack, r.stack + r.stack_size);
    memory.assign(r.memory, r.memory + r.memory_size);
    last.assign(r.last_call_return_data, r.last_call_return_data + r.last_call_return_data_size);
    if (status == EVMC_STEP_RUNNING) {
      uint64_t hs = 0xcbf29ce484222325, hm = hs, hr = hs;
      for (auto& x : stack) hs = Fnv(hs, x.bytes, 32);
      hm = Fnv(hm, memory.data(), memory.size());
      hr = Fnv(hr, last.data(), last.size());
      char buf[256];
      std::snprintf(buf, sizeof buf, "st %ld %" PRIu64 " %" PRId64 " %" PRId64 " %zu %" PRIx64 " %zu %" PRIx64 " %zu %" PRIx64 "\n", total, pc,
                    m.gas, refund, stack.size(), hs, memory.size(), hm, last.size(), hr);
      trace += buf;
      r.release(&r);
      continue;
    }
    const char* want = status == EVMC_STEP_STOPPED ? "stopped" : status == EVMC_STEP_RETURNED ? "returned" : status == EVMC_STEP_REVERTED ? "reverted" : "failed";
    trace += std::string("final ") + want + "\n";
    auto s = Report(c, w, r.status_code, r.gas_left, r.gas_refund, r.output_data, r.output_size);
    r.release(&r);
    {
      // an execution that ended stays as it is
      const size_t before = w.events.size();
      std::unique_ptr<evmc_uint256be[]> st2(new evmc_uint256be[stack.size()]);
      std::copy(stack.begin(), stack.end(), st2.get());
      Exact mem2(memory), ret2(last);
      evmc_step_result q = vm->step_n(vm, &evmc::Host::get_interface(), w.to_context(), Rev(c), &m, code.p.get(), code.n, status, pc,
                                      refund, st2.get(), stack.size(), mem2.p.get(), mem2.n, ret2.p.get(), ret2.n, 1 + int32_t(rng() % 3));
      std::string diff;
      if (q.step_status_code != status) diff += " status";
      if (q.pc != pc) diff += " pc";
      if (q.gas_left != m.gas) diff += " gas";
      if (q.gas_refund != refund) diff += " refund";
      if (q.stack_size != stack.size() || (q.stack_size && std::memcmp(q.stack, stack.data(), 32 * q.stack_size))) diff += " stack";
      if (q.memory_size != memory.size() || (q.memory_size && std::memcmp(q.memory, memory.data(), q.memory_size))) diff += " memory";
      if (q.last_call_return_data_size != last.size() || (!last.empty() && std::memcmp(q.last_call_return_data, last.data(), last.size())))
        diff += " returndata";
      if (w.events.size() != before) diff += " effects";
      q.release(&q);
      trace += "idle" + diff + "\n";
    }
    return s;
  }
}

#if defined(__SANITIZE_ADDRESS__) || __has_feature(address_sanitizer)
extern "C" size_t __sanitizer_get_current_allocated_bytes();
size_t HeapInUse() { return __sanitizer_get_current_allocated_bytes(); }
#else
size_t HeapInUse() { return 0; }
#endif

void Out(FILE* f, const std::string& s) {
  std::fwrite(s.data(), 1, s.size(), f);
  std::fflush(f);
}
}  // namespace

int main(int argc, char** argv) {
  if (argc < 4) return 9;
  auto cases = ReadCases(argv[1]);
  FILE* out = std::fopen(argv[2], "w");
  if (std::getenv("EVMZ_NEST")) nesting.cases = &cases;
  int cap = -1;
  off_t cap_pos = 0;
  const bool trace_lines = std::getenv("EVMZ_TRACE") != nullptr;
  if (const char* p = std::getenv("EVMZ_CAPTURE")) {
    cap = open(p, O_RDWR | O_CREAT | O_TRUNC | O_APPEND, 0600);
    dup2(cap, 1);
  }
  auto captured = [&] {
    if (cap < 0) return;
    std::cout << std::flush;
    struct stat st {};
    fstat(cap, &st);
    long lines = 0;
    std::string buf(size_t(st.st_size - cap_pos), ' ');
    if (!buf.empty() && pread(cap, buf.data(), buf.size(), cap_pos) == ssize_t(buf.size())) lines = std::count(buf.begin(), buf.end(), '\n');
    Out(out, "stdout " + std::to_string(buf.size()) + " " + std::to_string(lines) + "\n");
    if (trace_lines) {
      std::istringstream in(buf);
      std::string all;
      for (std::string l; std::getline(in, l);) all += "log " + l + "\n";
      Out(out, all);
    }
    cap_pos = st.st_size;
    if (cap_pos > (64 << 20)) {
      if (ftruncate(cap, 0) == 0) cap_pos = 0;
    }
  };
  const std::string mode = argv[3];
  auto set_opts = [&](evmc_vm* vm, const Case& c) {
    for (auto& [k, v] : c.opts) {
      const auto r = vm->set_option(vm, k.c_str(), v.c_str());
      Out(out, "optresult " + std::to_string(c.id) + " " + k + " " + v + " " + std::to_string(int(r)) + "\n");
    }
  };
  if (mode == "plain" || mode == "fresh") {
    evmc_vm* vm = evmc_create_evmzero();
    for (auto& c : cases) {
      Out(out, "begin " + std::to_string(c.id) + "\n");
      if (mode == "fresh") {
        vm->destroy(vm);
        vm = evmc_create_evmzero();
      }
      set_opts(vm, c);
      auto s = RunPlain(vm, c);
      if (nesting.cases) nesting.want[c.id] = s;
      captured();
      Out(out, s);
    }
    vm->destroy(vm);
    if (nesting.cases) Out(out, nesting.problems + "nested runs " + std::to_string(nesting.runs) + " compared " + std::to_string(nesting.compared) + "\n");
  } else if (mode == "leak") {
    // Heap in use after each repetition of the same batch on one instance with
    // warm caches must settle.
    const int batches = std::atoi(argv[4]);
    evmc_vm* vm = evmc_create_evmzero();
    auto* stepper = evmc_create_steppable_evmzero();
    std::vector<size_t> use(size_t(batches), 0);
    for (int b = 0; b < batches; ++b) {
      for (auto& c : cases) {
        if (b == 0) Out(out, "begin " + std::to_string(c.id) + "\n");
        RunPlain(vm, c);
        std::mt19937_64 rng(uint64_t(c.id));
        std::string trace;
        RunSteps(stepper, c, rng, trace);
      }
      use[size_t(b)] = HeapInUse();
    }
    std::string s = "leak";
    for (auto u : use) s += " " + std::to_string(u);
    Out(out, s + "\n");
    stepper->destroy(stepper);
    vm->destroy(vm);
    // instances themselves: create, use, destroy
    std::string t = "leakvm";
    for (int b = 0; b < 4; ++b) {
      for (int i = 0; i < 3; ++i) {
        evmc_vm* v = evmc_create_evmzero();
        RunPlain(v, cases[0]);
        v->destroy(v);
        auto* p = evmc_create_steppable_evmzero();
        p->destroy(p);
      }
      t += " " + std::to_string(HeapInUse());
    }
    Out(out, t + "\n");
  } else if (mode == "profile") {
    std::mt19937_64 rng(std::strtoull(argv[4], nullptr, 10));
    const std::string dir = argv[5];
    const std::string opt = std::string(argv[6]) == "full" ? "profiling" : "profiling_external";
    evmc_vm* vm = evmc_create_evmzero();
    vm->set_option(vm, opt.c_str(), "true");
    int dump = 0;
    for (size_t i = 0; i < cases.size(); ++i) {
      Out(out, "begin " + std::to_string(cases[i].id) + "\n");
      Out(out, RunPlain(vm, cases[i]));
      const auto r = rng() % 20;
      if (r < 2 || i + 1 == cases.size()) {
        const std::string f = dir + "/dump" + std::to_string(dump++);
        setenv("EVMZERO_PROFILE_FILE", f.c_str(), 1);
        evmzero_dump_profile(vm);
        Out(out, "dump " + f + "\n");
        if (r == 1) {
          evmzero_reset_profiler(vm);
          Out(out, "reset\n");
        }
      }
    }
    vm->destroy(vm);
  } else if (mode == "step") {
    std::mt19937_64 rng(std::strtoull(argv[4], nullptr, 10));
    auto* vm = evmc_create_steppable_evmzero();
    for (auto& c : cases) {
      Out(out, "begin " + std::to_string(c.id) + "\n");
      set_opts(vm->vm, c);
      std::string trace;
      auto s = RunSteps(vm, c, rng, trace);
      Out(out, "trace " + std::to_string(c.id) + "\n" + trace + s);
    }
    vm->destroy(vm);
  } else if (mode == "threads") {
    const int n = std::atoi(argv[4]), rounds = std::atoi(argv[5]);
    const uint64_t seed = std::strtoull(argv[6], nullptr, 10);
    std::vector<std::string> want(cases.size());
    for (size_t i = 0; i < cases.size(); ++i) {
      Out(out, "begin " + std::to_string(cases[i].id) + "\n");
      evmc_vm* vm = evmc_create_evmzero();
      want[i] = RunPlain(vm, cases[i]);
      vm->destroy(vm);
    }
    std::atomic<long> runs{0}, bad{0}, overlap{0};
    std::atomic<int> active{0};
    std::vector<std::string> msgs{std::vector<std::string>(static_cast<size_t>(n))};
    for (int r = 0; r < rounds; ++r) {
      evmc_vm* vm = evmc_create_evmzero();
      std::atomic<int> ready{0};
      std::vector<std::thread> ts;
      for (int t = 0; t < n; ++t) {
        ts.emplace_back([&, t, r] {
          std::mt19937_64 rng(seed * 7919 + uint64_t(r) * 101 + uint64_t(t));
          std::vector<size_t> order(cases.size());
          for (size_t i = 0; i < order.size(); ++i) order[i] = i;
          // half of the threads share one order, so that the same code and
          // hash inputs are first seen by several threads at the same time
          std::mt19937_64 common(seed + uint64_t(r));
          std::shuffle(order.begin(), order.end(), t % 2 ? common : rng);
          ready++;
          while (ready < n) std::this_thread::yield();
          for (size_t i : order) {
            if (active.fetch_add(1, std::memory_order_relaxed) > 0) overlap.fetch_add(1, std::memory_order_relaxed);
            auto got = RunPlain(vm, cases[i]);
            active.fetch_sub(1, std::memory_order_relaxed);
            runs.fetch_add(1, std::memory_order_relaxed);
            if (got != want[i]) {
              bad++;
              if (msgs[size_t(t)].size() < 20000) msgs[size_t(t)] += "mismatch " + std::to_string(cases[i].id) + "\n--- alone\n" + want[i] + "--- concurrent\n" + got;
            }
          }
        });
      }
      for (auto& t : ts) t.join();
      vm->destroy(vm);
    }
    for (auto& m : msgs) Out(out, m);
    Out(out, "threads runs " + std::to_string(runs) + " overlapping " + std::to_string(overlap) + " bad " + std::to_string(bad) + "\n");
  } else {
    return 9;
  }
  std::fclose(out);
  return 0;
}
