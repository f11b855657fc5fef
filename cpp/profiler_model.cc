// Profiler and Profile in lock step with counters of their own: instructions
// at any depth, nested runs, merges, resets, snapshots, and one profiler per
// thread merged at the end.
#include <array>
#include <memory>
#include <thread>
#include <vector>

#include <stdlib.h>
#include <unistd.h>

#include "report.h"
#include "vm/evmzero/profiler.h"

using namespace tosca::evmzero;

Report* R;

struct Tally {
  std::array<uint64_t, 256> calls{}, min_ticks{}, max_ticks{};
  uint64_t runs = 0, run_min = 0, run_max = 0;
  void Add(const Tally& o) {
    for (size_t i = 0; i < 256; i++) { calls[i] += o.calls[i]; min_ticks[i] += o.min_ticks[i]; max_ticks[i] += o.max_ticks[i]; }
    runs += o.runs; run_min += o.run_min; run_max += o.run_max;
  }
};

bool IsCall(int o) { return (o >= 0xf0 && o <= 0xf5 && o != 0xf3) || o == 0xfa; }
// those that leave the interpreter, by the list of the host interface
bool Recorded(ProfilerMode m, op::OpCode o) { return m == ProfilerMode::kFull || op::IsExternalOpCode(o) || op::IsCallOpCode(o); }

template <ProfilerMode Mode>
struct Driver {
  std::unique_ptr<Profiler<Mode>> p = std::make_unique<Profiler<Mode>>();
  Tally t;
  std::mt19937_64 rng;
  explicit Driver(uint64_t seed) : rng(seed) {}

  void Busy() { for (volatile unsigned i = 0, n = unsigned(rng() % 8 ? rng() % 20 : rng() % 2000); i < n; i = i + 1) {} }

  // One run of the interpreter at a depth; calls may run it again one deeper.
  void Run(int depth, int budget) {
    evmc_message msg{};
    msg.depth = depth;
    InterpreterArgs args;
    args.message = &msg;
    auto ctx = std::make_unique<internal::Context>();
    ctx->message = &msg;
    uint64_t a0 = internal::Now();
    p->PreRun(args);
    uint64_t a1 = internal::Now();
    int n = int(rng() % 12);
    for (int i = 0; i < n && budget > 0; i++) {
      unsigned x = unsigned(rng() % 4);
      auto o = static_cast<op::OpCode>(x == 0 ? 0xf0 + rng() % 6 : x == 1 ? 0x30 + rng() % 0x30 : rng() % 256);
      if (!op::IsUsedOpCode(o)) continue;
      uint64_t b0 = internal::Now(), inner = 0, c0, c1;
      p->PreInstruction(o, *ctx);
      uint64_t b1 = internal::Now();
      Busy();
      if (op::IsCallOpCode(o) && rng() % 2 && depth < 1024) {
        c0 = internal::Now();
        Run(depth + 1, budget - 1);
        c1 = internal::Now();
        inner = c1 - c0;
        R->Add("nested_runs");
      }
      Busy();
      uint64_t b2 = internal::Now();
      p->PostInstruction(o, *ctx);
      uint64_t b3 = internal::Now();
      if (Recorded(Mode, o)) {
        t.calls[o]++;
        t.max_ticks[o] += b3 - b0;
        t.min_ticks[o] += b2 - b1 - std::min(inner, b2 - b1);
      }
      R->Add("instructions");
    }
    uint64_t a2 = internal::Now();
    p->PostRun(args);
    uint64_t a3 = internal::Now();
    if (depth == 0) { t.runs++; t.run_min += a2 - a1; t.run_max += a3 - a0; }
  }

  static void Compare(const Profile<Mode>& got, const Tally& want, const char* when) {
    for (size_t i = 0; i < 256; i++) {
      auto o = static_cast<op::OpCode>(i);
      auto s = got.GetInstructionStats(o);
      std::string at = std::string(when) + ": " + op::ToString(o) + " (" + std::to_string(i) + ")";
      if (s.num_calls != want.calls[i]) R->Violation("profiler:count", at + " executed " + std::to_string(want.calls[i]) + " times, recorded " + std::to_string(s.num_calls));
      // clocks are read around every measurement; the slack covers moves between processors
      if (s.total_ticks > want.max_ticks[i] + want.max_ticks[i] / 8 + (want.calls[i] ? 200000 : 0)) R->Violation("profiler:ticks-too-many", at + " took at most " + std::to_string(want.max_ticks[i]) + ", recorded " + std::to_string(s.total_ticks));
      if (s.total_ticks + s.total_ticks / 8 + 200000 < want.min_ticks[i]) R->Violation("profiler:ticks-lost", at + " took at least " + std::to_string(want.min_ticks[i]) + ", recorded " + std::to_string(s.total_ticks));
      R->Add("counters_checked_directly");
    }
    auto s = got.GetInterpreterStats();
    if (s.num_calls != want.runs) R->Violation("profiler:interpreter-count", std::string(when) + ": " + std::to_string(want.runs) + " outermost runs, recorded " + std::to_string(s.num_calls));
    if (s.total_ticks > want.run_max + want.run_max / 8 + (want.runs ? 200000 : 0)) R->Violation("profiler:interpreter-ticks-too-many", when);
    if (s.total_ticks + s.total_ticks / 8 + 200000 < want.run_min) R->Violation("profiler:interpreter-ticks-lost", when);
  }
};

struct Exact { std::array<uint64_t, 256> c, t; uint64_t ic, it; bool operator==(const Exact&) const = default; };
template <ProfilerMode M>
Exact Read(const Profile<M>& p) {
  Exact e{};
  for (size_t i = 0; i < 256; i++) { auto s = p.GetInstructionStats(static_cast<op::OpCode>(i)); e.c[i] = s.num_calls; e.t[i] = s.total_ticks; }
  e.ic = p.GetInterpreterStats().num_calls;
  e.it = p.GetInterpreterStats().total_ticks;
  return e;
}
Exact Sum(Exact a, const Exact& b) {
  for (size_t i = 0; i < 256; i++) { a.c[i] += b.c[i]; a.t[i] += b.t[i]; }
  a.ic += b.ic; a.it += b.it;
  return a;
}

template <ProfilerMode Mode>
void Histories(uint64_t seed, int rounds, const char* name) {
  std::mt19937_64 rng(seed);
  for (int r = 0; r < rounds && !R->Enough(); r++) {
    std::vector<Driver<Mode>> d;
    for (int i = 0; i < 3; i++) d.emplace_back(rng());
    std::string trail;
    for (int i = 0; i < 20; i++) {
      size_t k = rng() % 3, o = rng() % 3;
      auto& a = d[k];
      switch (rng() % 7) {
        case 0: case 1: case 2: a.Run(0, 3); trail += "run" + std::to_string(k) + " "; break;
        case 3: {
          a.p->Reset();
          a.t = {};
          trail += "reset" + std::to_string(k) + " ";
          if (!(Read(a.p->Collect()) == Exact{})) R->Violation("profiler:reset-incomplete", trail);
          break;
        }
        case 4: {
          auto before = Read(a.p->Collect()), other = Read(d[o].p->Collect());
          auto snapshot = d[o].p->Collect();
          a.p->Merge(snapshot);
          Tally tt = d[o].t;
          a.t.Add(tt);
          trail += "merge" + std::to_string(o) + "into" + std::to_string(k) + " ";
          R->Add("merges");
          if (!(Read(a.p->Collect()) == Sum(before, other))) R->Violation("profiler:merge-inexact", trail);
          if (o != k && !(Read(d[o].p->Collect()) == other)) R->Violation("profiler:merge-changes-source", trail);
          break;
        }
        case 5: {
          auto snapshot = a.p->Collect();
          auto e = Read(snapshot);
          d[o].p = std::make_unique<Profiler<Mode>>(snapshot);
          d[o].t = a.t;
          trail += "restart" + std::to_string(o) + "from" + std::to_string(k) + " ";
          if (!(Read(d[o].p->Collect()) == e)) R->Violation("profiler:initial-profile", trail);
          a.Run(0, 2);
          if (!(Read(snapshot) == e)) R->Violation("profiler:snapshot-changes", trail);
          break;
        }
        case 6: {
          Profile<Mode> x = a.p->Collect(), y = d[o].p->Collect();
          auto want = Sum(Read(x), Read(y));
          x.Merge(y);
          if (!(Read(x) == want)) R->Violation("profiler:merge-inexact", trail);
          x.Reset();
          if (!(Read(x) == Exact{})) R->Violation("profiler:reset-incomplete", trail);
          break;
        }
      }
      Driver<Mode>::Compare(a.p->Collect(), a.t, trail.c_str());
    }
    R->Eval();
    R->Distinct(Fnv(trail));
    if (r == 1) R->Sample(std::string(name) + ": " + trail);
  }
}

template <ProfilerMode Mode>
void Threads(uint64_t seed, int rounds) {
  for (int r = 0; r < rounds; r++) {
    int n = 2 + r % 6;
    std::vector<Driver<Mode>> d;
    for (int i = 0; i < n; i++) d.emplace_back(seed * 100 + uint64_t(r * 10 + i));
    std::vector<std::thread> ts;
    for (int i = 0; i < n; i++) ts.emplace_back([&, i] { for (int k = 0; k < 60; k++) d[size_t(i)].Run(0, 3); });
    for (auto& t : ts) t.join();
    Profiler<Mode> sum;
    Tally t;
    Exact e{};
    for (auto& x : d) {
      auto& p = x.p->Collect();
      e = Sum(e, Read(p));
      sum.Merge(p);
      t.Add(x.t);
    }
    if (!(Read(sum.Collect()) == e)) R->Violation("profiler:merge-of-threads-inexact", std::to_string(n) + " threads");
    Driver<Mode>::Compare(sum.Collect(), t, "merged threads");
    R->Add("threads_merged", n);
    R->Eval();
  }
}

int main(int argc, char** argv) {
  Args a(argc, argv);
  Report r;
  R = &r;
  for (int i = 0; i < 256; i++)
    if (op::IsUsedOpCode(static_cast<op::OpCode>(i)) && op::IsCallOpCode(static_cast<op::OpCode>(i)) != IsCall(i)) r.Violation("profiler:call-classification", std::to_string(i));
  int n = a.thorough ? 30 : 1;
  if (a.mode != "threads") {
    Histories<ProfilerMode::kFull>(a.seed * 7 + 1, 60 * n, "full");
    Histories<ProfilerMode::kExternal>(a.seed * 7 + 2, 60 * n, "external");
  }
  Threads<ProfilerMode::kFull>(a.seed, 10 * n);
  Threads<ProfilerMode::kExternal>(a.seed, 5 * n);
  r.Write(a.out);
}
