// EVM memory, stack and word conversions in lock step with simple models.
#include <algorithm>
#include <array>
#include <deque>
#include <memory>
#include <sstream>
#include <vector>

#include "report.h"
#include "vm/evmzero/memory.h"
#include "vm/evmzero/stack.h"
#include "vm/evmzero/uint256.h"

using namespace tosca::evmzero;

Report* R;
std::string trail;  // operations of the current history
extern "C" void __asan_on_error() { std::fprintf(stderr, "history: %s\n", trail.c_str()); }

using Word = std::array<uint8_t, 32>;  // big endian
uint256_t Of(const Word& w) {
  uint64_t l[4] = {};
  for (int i = 0; i < 32; i++) l[3 - i / 8] = l[3 - i / 8] << 8 | w[size_t(i)];
  return uint256_t{l[0], l[1], l[2], l[3]};
}
Word To(const uint256_t& x) {
  Word w;
  for (int i = 0; i < 32; i++) w[size_t(i)] = uint8_t(x[size_t(3 - i / 8)] >> (8 * (7 - i % 8)));
  return w;
}
Word RandWord(std::mt19937_64& rng) {
  Word w{};
  unsigned m = unsigned(rng() % 5);
  if (m == 0) return w;
  if (m == 1) { w.fill(0xff); return w; }
  for (auto& b : w) b = uint8_t(rng() >> 9);
  if (m == 2) std::fill(w.begin(), w.begin() + long(rng() % 32), 0);
  return w;
}

// ---------------------------------------------------------------- memory
struct MemModel {
  std::vector<uint8_t> b;
  void Grow(uint64_t off, uint64_t n) {
    if (n == 0) return;
    uint64_t need = (off + n + 31) / 32 * 32;
    if (need > b.size()) b.resize(need, 0);
  }
};

struct Region { uint64_t off, n; };

void MemoryHistories(uint64_t seed, int rounds) {
  std::mt19937_64 rng(seed * 17 + 3);
  for (int r = 0; r < rounds && !R->Enough(); r++) {
    trail.clear();
    uint64_t span = rng() % 4 == 0 ? 70 : rng() % 3 == 0 ? 5000 : 300;
    Memory m;
    MemModel w;
    if (rng() % 3 == 0) {
      std::vector<uint8_t> init(rng() % 80);
      for (auto& x : init) x = uint8_t(rng());
      m = Memory(std::span<const uint8_t>(init));
      w.b = init;
      w.b.resize((init.size() + 31) / 32 * 32, 0);
      trail += "init(" + std::to_string(init.size()) + ") ";
    }
    uint64_t h = 0;
    auto region = [&] {
      Region g{rng() % span, rng() % (rng() % 2 ? 40 : span)};
      if (rng() % 5 == 0) g.n = 0;
      if (rng() % 4 == 0) g.off = g.off / 32 * 32;
      if (rng() % 4 == 0) g.n = g.n / 32 * 32;
      if (rng() % 6 == 0 && !w.b.empty()) g.off = w.b.size() - rng() % std::min<uint64_t>(w.b.size(), 33);  // across the end
      return g;
    };
    int n = 1 + int(rng() % 25);
    uint64_t last_size = m.GetSize();
    for (int i = 0; i < n; i++) {
      Region g = region();
      unsigned op = unsigned(rng() % 8);
      std::string t;
      switch (op) {
        case 0: {
          std::unique_ptr<uint8_t[]> src(new uint8_t[g.n]);
          for (uint64_t j = 0; j < g.n; j++) src[j] = uint8_t(rng());
          t = "read_from(" + std::to_string(g.n) + " at " + std::to_string(g.off) + ")";
          trail += t + " ";
          m.ReadFrom({src.get(), g.n}, g.off);
          w.Grow(g.off, g.n);
          std::copy_n(src.get(), g.n, w.b.data() + (g.n ? g.off : 0));
          break;
        }
        case 1: {
          uint64_t have = rng() % 3 == 0 ? g.n : rng() % 2 ? rng() % (g.n + 1) : g.n + rng() % 50;
          std::unique_ptr<uint8_t[]> src(new uint8_t[have]);
          for (uint64_t j = 0; j < have; j++) src[j] = uint8_t(1 + rng() % 255);
          t = "read_from_with_size(" + std::to_string(have) + " at " + std::to_string(g.off) + " as " + std::to_string(g.n) + ")";
          trail += t + " ";
          m.ReadFromWithSize({src.get(), have}, g.off, g.n);
          w.Grow(g.off, g.n);
          for (uint64_t j = 0; j < g.n; j++) w.b[g.off + j] = j < have ? src[j] : 0;
          break;
        }
        case 2: {
          std::unique_ptr<uint8_t[]> dst(new uint8_t[g.n]);
          std::fill_n(dst.get(), g.n, 0xcc);
          t = "write_to(" + std::to_string(g.n) + " from " + std::to_string(g.off) + ")";
          trail += t + " ";
          m.WriteTo({dst.get(), g.n}, g.off);
          w.Grow(g.off, g.n);
          for (uint64_t j = 0; j < g.n; j++)
            if (dst[j] != w.b[g.off + j]) { R->Violation("memory:write-to", "byte " + std::to_string(g.off + j) + "\n" + trail); break; }
          break;
        }
        case 3: case 4: {
          Region s = region();
          if (rng() % 2) s.off = g.off + rng() % (g.n + 1) - rng() % (std::min(g.off, g.n) + 1);  // overlaps
          t = "copy(" + std::to_string(g.n) + " from " + std::to_string(s.off) + " to " + std::to_string(g.off) + ")";
          trail += t + " ";
          m.MemCopy(g.off, s.off, g.n);
          w.Grow(s.off, g.n);
          w.Grow(g.off, g.n);
          if (g.n) {
            std::vector<uint8_t> tmp(w.b.begin() + long(s.off), w.b.begin() + long(s.off + g.n));
            std::copy(tmp.begin(), tmp.end(), w.b.begin() + long(g.off));
            if (s.off < g.off + g.n && g.off < s.off + g.n && s.off != g.off) R->stats["overlapping_copies"]++;
          }
          break;
        }
        case 5: {
          t = "grow(" + std::to_string(g.off) + "," + std::to_string(g.n) + ")";
          trail += t + " ";
          m.Grow(g.off, g.n);
          w.Grow(g.off, g.n);
          break;
        }
        case 6: {
          t = "span(" + std::to_string(g.off) + "," + std::to_string(g.n) + ")";
          trail += t + " ";
          auto sp = m.GetSpan(g.off, g.n);
          w.Grow(g.off, g.n);
          if (sp.size() != g.n) R->Violation("memory:span", "size " + std::to_string(sp.size()) + "\n" + trail);
          for (uint64_t j = 0; j < g.n; j++) {
            if (sp[j] != w.b[g.off + j]) { R->Violation("memory:span", "byte " + std::to_string(g.off + j) + "\n" + trail); break; }
            if (rng() % 2) sp[j] = w.b[g.off + j] = uint8_t(rng());
          }
          break;
        }
        case 7: {  // copies are independent
          Memory c = m;
          trail += "copy-object ";
          if (!(c == m)) R->Violation("memory:copy", "a copy differs\n" + trail);
          c.ReadFrom(std::array<uint8_t, 3>{1, 2, 3}, g.off);
          if (!w.b.empty()) {
            size_t at = rng() % w.b.size();
            c = m;
            c[at] = uint8_t(c[at] + 1);
            if (c == m) R->Violation("memory:equality", "two memories that differ in one byte are equal\n" + trail);
            c[at] = uint8_t(c[at] - 1);
            if (!(c == m)) R->Violation("memory:equality", "equal memories differ\n" + trail);
          }
          break;
        }
      }
      h = h * 31 + op + g.off * 7 + g.n;
      R->stats["memory_operations"]++;
      if (m.GetSize() % 32 != 0) R->Violation("memory:size-not-in-words", std::to_string(m.GetSize()) + "\n" + trail);
      if (m.GetSize() < last_size) R->Violation("memory:shrinks", trail);
      last_size = m.GetSize();
      bool same = m.GetSize() == w.b.size();
      for (size_t j = 0; same && j < w.b.size(); j++) same = std::as_const(m)[j] == w.b[j];
      if (!same) { R->Violation("memory:content", "after " + t + ": size " + std::to_string(m.GetSize()) + " for " + std::to_string(w.b.size()) + "\n" + trail); break; }
    }
    std::ostringstream o;
    o << m;
    R->evals++;
    R->distinct.insert(h);
    if (r % (rounds / 3 + 1) == 1) R->Sample("memory: " + trail);
  }
}

// ---------------------------------------------------------------- stack
void StackHistories(uint64_t seed, int rounds) {
  std::mt19937_64 rng(seed * 19 + 5);
  for (int r = 0; r < rounds && !R->Enough(); r++) {
    trail.clear();
    // several stacks at a time, created and released in any order
    struct Pair { std::unique_ptr<Stack> s; std::vector<Word> m; };
    std::deque<Pair> all;
    uint64_t h = 1;
    auto same = [&](Pair& p, const char* what) {
      bool ok = p.s->GetSize() == p.m.size();
      for (size_t i = 0; ok && i < p.m.size(); i++) ok = To((*p.s)[i]) == p.m[p.m.size() - 1 - i];
      if (!ok) R->Violation(std::string("stack:") + what, "size " + std::to_string(p.s->GetSize()) + " for " + std::to_string(p.m.size()) + "\n" + trail);
    };
    int n = 5 + int(rng() % 60);
    bool deep = rng() % 6 == 0;
    for (int i = 0; i < n; i++) {
      unsigned op = unsigned(rng() % 12);
      if (all.empty() || (op == 0 && all.size() < 5)) {
        Pair p;
        if (rng() % 3 == 0) {
          Word a = RandWord(rng), b = RandWord(rng);
          p.s = std::make_unique<Stack>(std::initializer_list<uint256_t>{Of(a), Of(b)});
          p.m = {a, b};
        } else {
          p.s = std::make_unique<Stack>();
        }
        if (p.s->GetMaxSize() != 1024) R->Violation("stack:max-size", std::to_string(p.s->GetMaxSize()));
        all.push_back(std::move(p));
        trail += "new ";
        same(all.back(), "new");
        continue;
      }
      size_t at = rng() % all.size();
      Pair& p = all[at];
      trail += std::to_string(at) + ":";
      h = h * 131 + op * 7 + at;
      R->stats["stack_operations"]++;
      switch (op) {
        case 1: {
          int k = deep ? int(rng() % 600) : int(rng() % 20);
          for (; k > 0 && p.m.size() < 1024; k--) {
            Word w = RandWord(rng);
            p.s->Push(Of(w));
            p.m.push_back(w);
          }
          if (p.m.size() == 1024) R->stats["full_stacks"]++;
          trail += "push ";
          break;
        }
        case 2: case 3: {
          int k = deep ? int(rng() % 300) : int(rng() % 8);
          for (; k > 0 && !p.m.empty(); k--) {
            if (To(p.s->Pop()) != p.m.back()) R->Violation("stack:pop", trail);
            p.m.pop_back();
          }
          trail += "pop ";
          break;
        }
        case 4: if (!p.m.empty()) {
          size_t k = rng() % p.m.size();
          Word w = RandWord(rng);
          (*p.s)[k] = Of(w);
          p.m[p.m.size() - 1 - k] = w;
          trail += "set" + std::to_string(k) + " ";
          break;
        } break;
        case 5: if (!p.m.empty()) {
          if (To(*p.s->Top()) != p.m.back()) R->Violation("stack:top", trail);
          trail += "top ";
        } break;
        case 6: {  // moving the top marker
          size_t k = p.m.empty() ? 0 : rng() % p.m.size();
          p.s->SetTop(p.s->Top() + k);
          p.m.resize(p.m.size() - k);
          trail += "settop" + std::to_string(k) + " ";
          break;
        }
        case 7: if (all.size() < 5) {
          Pair c{std::make_unique<Stack>(*p.s), p.m};
          trail += "clone ";
          if (!(*c.s == *p.s) || *c.s != *p.s) R->Violation("stack:copy", "a copy differs\n" + trail);
          all.push_back(std::move(c));
          same(all.back(), "copy");
        } break;
        case 8: {
          size_t from = rng() % all.size();
          *p.s = *all[from].s;
          p.m = all[from].m;
          trail += "assign" + std::to_string(from) + " ";
          break;
        }
        case 9: {
          all.erase(all.begin() + long(at));
          trail += "drop ";
          break;
        }
        case 10: {
          size_t o = rng() % all.size();
          if ((*p.s == *all[o].s) != (p.m == all[o].m) || (*p.s != *all[o].s) == (p.m == all[o].m)) R->Violation("stack:equality", trail);
          trail += "eq ";
          break;
        }
        case 11: if (!p.m.empty()) {
          size_t k = rng() % p.m.size();
          Stack c(*p.s);
          c[k] = c[k] + uint256_t{1};
          if (c == *p.s) R->Violation("stack:equality", "stacks that differ in one word are equal\n" + trail);
        } break;
      }
      // no operation on one stack changes another
      for (auto& q : all) same(q, "content");
    }
    R->evals++;
    R->distinct.insert(h);
    if (r % (rounds / 3 + 1) == 1) R->Sample("stack: " + trail);
  }
}

// ---------------------------------------------------------------- conversions
void Conversions(uint64_t seed, int rounds) {
  std::mt19937_64 rng(seed * 23 + 7);
  for (int r = 0; r < rounds && !R->Enough(); r++) {
    Word w = RandWord(rng);
    trail = HexOf(w.data(), 32);
    uint256_t x = Of(w);
    auto bad = [&](const char* n) { R->Violation(std::string("convert:") + n, trail); };
    auto b = ToEvmcBytes(x);
    if (!std::equal(w.begin(), w.end(), b.bytes)) bad("to-bytes32");
    if (ToUint256(b) != x) bad("from-bytes32");
    auto e = ToEthash(x);
    if (!std::equal(w.begin(), w.end(), e.bytes)) bad("to-hash256");
    if (ToUint256(e) != x) bad("from-hash256");
    auto a = ToEvmcAddress(x);
    if (!std::equal(w.begin() + 12, w.end(), a.bytes)) bad("to-address");
    Word wa{};
    std::copy(w.begin() + 12, w.end(), wa.begin() + 12);
    if (ToUint256(a) != Of(wa)) bad("from-address");
    alignas(32) auto le = ToByteArrayLe(x);
    if (!std::equal(w.begin(), w.end(), le.rbegin())) bad("to-little-endian");
    if (ToUint256(le) != x) bad("from-little-endian");
    for (size_t i = 0; i < 32; i++) if (ToBytes(std::as_const(x))[i] != w[31 - i]) { bad("byte-view"); break; }
    uint256_t y = x;
    size_t i = rng() % 32;
    ToBytes(y)[i] = uint8_t(ToBytes(y)[i] ^ 0x10);
    Word v = w;
    v[31 - i] ^= 0x10;
    if (y != Of(v)) bad("byte-view-write");
    if (std::hash<uint256_t>{}(x) != std::hash<uint256_t>{}(Of(w))) bad("hash-of-equal-words");
    if (~kUint256Max != uint256_t{0}) bad("max");
    R->stats["words_converted"]++;
    R->evals++;
    R->distinct.insert(Fnv(w.data(), 32));
  }
}

int main(int argc, char** argv) {
  Args a(argc, argv);
  Report r;
  R = &r;
  int n = a.thorough ? 60 : 1;
  MemoryHistories(a.seed, 6000 * n);
  StackHistories(a.seed, 2500 * n);
  Conversions(a.seed, 30000 * n);
  r.Write(a.out);
}
