// CalculateValidJumpTargets against a definition by recursion over the code,
// on allocations that end exactly at the last code byte.
#include <memory>
#include <vector>

#include "report.h"
#include "vm/evmzero/opcodes.h"

Report* R;
std::vector<uint8_t> current;
extern "C" void __asan_on_error() { std::fprintf(stderr, "code %s\n", HexOf(current.data(), std::min<size_t>(current.size(), 2000)).c_str()); }

// is_start[i]: an instruction starts at i. Defined forwards from position 0:
// the next instruction starts 1 + (number of immediate bytes) later.
std::vector<uint8_t> Oracle(const std::vector<uint8_t>& c) {
  std::vector<uint8_t> start(c.size() + 34, 0), res(c.size(), 0);
  start[0] = 1;
  for (size_t i = 0; i < c.size(); i++) {
    if (!start[i]) continue;
    size_t imm = c[i] >= 0x60 && c[i] < 0x80 ? size_t(c[i]) - 0x5f : 0;
    start[i + 1 + imm] = 1;
    res[i] = c[i] == 0x5b;
  }
  return res;
}

int64_t targets, hidden;
bool Check(const std::vector<uint8_t>& c) {
  current = c;
  std::unique_ptr<uint8_t[]> exact(new uint8_t[c.size()]);
  std::copy(c.begin(), c.end(), exact.get());
  auto got = tosca::evmzero::op::CalculateValidJumpTargets({exact.get(), c.size()});
  R->evals++;
  auto want = Oracle(c);
  if (got.size() != c.size()) return R->Violation("targets:size", std::to_string(got.size()) + " entries for " + std::to_string(c.size()) + " bytes");
  for (size_t i = 0; i < c.size(); i++) {
    targets += want[i];
    hidden += c[i] == 0x5b && !want[i];
    if (bool(got[i]) != bool(want[i])) return R->Violation(want[i] ? "targets:missed" : "targets:accepted", "position " + std::to_string(i) + " of " + HexOf(c.data(), std::min<size_t>(c.size(), 1000)));
  }
  return true;
}

int main(int argc, char** argv) {
  Args a(argc, argv);
  Report r;
  R = &r;
  std::mt19937_64 rng(a.seed);
  Check({});
  for (int x = 0; x < 256; x++) Check({uint8_t(x)});
  for (int x = 0; x < 65536; x++) Check({uint8_t(x >> 8), uint8_t(x)});
  r.stats["enumerated_codes"] = r.evals;
  // every opcode followed by nothing but JUMPDEST, at every truncation and offset
  for (int x = 0; x < 256; x++)
    for (int n = 0; n < 36; n++)
      for (int lead = 0; lead < 3; lead++) {
        std::vector<uint8_t> c(size_t(lead), 0x5b);
        c.push_back(uint8_t(x));
        c.insert(c.end(), size_t(n), 0x5b);
        Check(c);
      }
  // all codes over a small alphabet
  const uint8_t alpha[] = {0x5b, 0x60, 0x61, 0x7f, 0x5f, 0x80, 0x00};
  int len = a.thorough ? 9 : 7;
  std::vector<size_t> d(size_t(len), 0);
  for (;;) {
    std::vector<uint8_t> c;
    for (auto x : d) c.push_back(alpha[x]);
    Check(c);
    r.stats["enumerated_codes"]++;
    size_t i = 0;
    while (i < d.size() && ++d[i] == 7) d[i++] = 0;
    if (i == d.size()) break;
  }
  int64_t longest = 0;
  int n = a.thorough ? 2000000 : 60000;
  for (int i = 0; i < n && !r.Enough(); i++) {
    size_t len = rng() % (rng() % 100 == 0 ? 30000 : rng() % 10 == 0 ? 800 : 80);
    // creation code was unlimited before Shanghai: lengths around multiples of
    // 24576 (deployed code), 49152 (creation code) and 65536, and far beyond
    if (i % (n / 120) == 0) {
      const size_t at[] = {24576, 49152, 65536, 98304, 131072, 262144};
      size_t k = rng() % 8;
      len = k < 6 ? at[k] + rng() % 100 - 20 : k == 6 ? rng() % 600000 : 65536 * (1 + rng() % 4) + rng() % 300;
    }
    std::vector<uint8_t> c;
    unsigned style = unsigned(rng() % 4);
    while (c.size() < len) {
      unsigned x = unsigned(rng() % 10);
      if (style == 0) c.push_back(uint8_t(rng()));
      else if (style == 1) c.push_back(x < 6 ? 0x5b : uint8_t(0x5f + rng() % 34));
      else if (style == 2) { unsigned k = unsigned(rng() % 32); c.push_back(uint8_t(0x60 + k)); if (x < 9) for (unsigned j = 0; j <= k; j++) c.push_back(x < 5 ? 0x5b : uint8_t(rng())); c.push_back(0x5b); }
      else c.push_back(x < 4 ? 0x5b : x < 6 ? uint8_t(0x60 + rng() % 32) : uint8_t(rng() % 256));
    }
    longest = std::max<int64_t>(longest, int64_t(c.size()));
    Check(c);
    if (c.size() > 2) r.distinct.insert(Fnv(c.data(), c.size()));
    if (i % (n / 4) == 7) r.Sample("code " + HexOf(c.data(), std::min<size_t>(c.size(), 200)));
  }
  r.stats["longest_code"] = longest;
  r.stats["targets"] = targets;
  r.stats["jumpdest_bytes_inside_data"] = hidden;
  r.Write(a.out);
}
