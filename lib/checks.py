"""The checks, one per property."""
import os
import build, core

OPS = "distinct = different executed instruction sequences with at least 3 instructions (hash of the trace, revision, outcome)"


class Context:
    def __init__(self, pid, work, seed, thorough):
        self.pid, self.work, self.seed, self.thorough = pid, work, seed, thorough
        self.b = build.Builder(work)
        self.res = core.Result()
        self.n = 0

    def harness(self, binary, *args, env=None, timeout=None):
        """Runs a report-writing harness and collects what it saw."""
        self.n += 1
        rep = os.path.join(self.work, "report%d.json" % self.n)
        cmd = [binary, "-out", rep, "-seed", str(self.seed), "-prop", self.pid] + list(args) + (["-thorough"] if self.thorough else [])
        r = core.run_harness(cmd, rep, timeout or (6000 if self.thorough else 800), env, os.path.basename(binary))
        self.res.add(r)
        return r


class Check:
    def __init__(self, run, rule, need=None, level="exploration", assumptions=()):
        self.run, self.rule, self.need, self.level, self.assumptions = run, rule, need or {"evaluations": 1, "distinct": 1}, level, assumptions


REFASSUME = ["the reference machine in /verif/go/ref states the EVM rules correctly", "stand-ins for intx, ethash and evmc headers (shim/) behave as the originals", "gas limits stay below the point where legitimate memory use exceeds the sandbox"]


def evm(cpp=(), go=(), extra=None):
    """Builds the named evmzero flavours and/or Go runners and runs evmcheck."""

    def f(ctx):
        ctx.b.go("evmcheck", "./cmd/evmcheck")
        bins = []
        for fl in cpp:
            name = "evmz" if fl == "plain" else "evmz-" + fl
            ctx.b.cpp(name, fl, ["evmzero_runner.cc"], vm=True)
            bins.append("%s=%s" % (name, ctx.b.bins[name]))
        for g in go:
            ctx.b.go(g, "./cmd/lfvmrunner", race=g.endswith("race"))
            bins.append("%s=%s" % (g, ctx.b.bins[g]))
        pre = extra(ctx) if extra else None
        ctx.b.build()
        if go:
            bins.append("configs=" + build.run([ctx.b.bins[go[0]], "configs"]).strip())
        ctx.harness(ctx.b.bins["evmcheck"], "-work", ctx.work, "-bins", ",".join(bins))
        if pre:
            pre()

    return f


CHECKS = {}


def define(pid, run, rule, need=None, assumptions=(), level="exploration"):
    CHECKS[pid] = Check(run, rule, need, level, assumptions)


GEN = "programs from a generator (structured, per-instruction operand sweeps, mutated, raw opcodes, storage, calls, jumps, fused patterns, deep stacks, memory, hashing) with random surrounding state, revision and gas; "

define("Z01", evm(cpp=["plain"]), GEN + "each run by evmzero and compared in full with the reference machine. " + OPS, {"compared": 10000, "distinct": 5000}, REFASSUME)
define("Z02", evm(cpp=["plain"]), GEN + "each re-run at gas limits at and next to instruction boundaries, stipend distances and huge values; gas and effects compared with the reference machine and between limits. " + OPS, {"compared": 5000, "distinct": 1000, "metamorphic_pairs": 500}, REFASSUME)
define("Z03", evm(cpp=["asan", "alt"]), "hostile programs run under AddressSanitizer and UndefinedBehaviorSanitizer on exactly sized inputs, re-entrantly and stepwise; live heap measured over repetitions; results compared between builds with different fill of uninitialized memory. " + OPS, {"evaluations": 5000, "distinct": 1000, "leak_measurements": 10, "compared_across_fill_patterns": 1000}, REFASSUME)
define("Z04", evm(cpp=["plain"]), "programs run in static mode, a third of them ending in a state-changing attempt; a monitor over the effect log admits reads and static value-free calls only. " + OPS, {"compared": 10000, "attempts": 1000, "nested_calls": 500}, REFASSUME)
define("Z05", evm(cpp=["plain"]), GEN + "each run in one go and in random step batches; final outcome compared between the two, every intermediate state with the reference machine at the same step count; ended runs stepped again. " + OPS, {"stepped_runs": 5000, "states_checked": 20000, "ended_runs_stepped": 5000}, REFASSUME)
define("Z06", evm(cpp=["plain"]), "histories of related programs (same code in other situations, one-byte variants, prefixes) on one instance under random option changes, against a fresh default instance per run. " + OPS, {"compared": 3000, "options_set": 500, "runs_with_log_output": 50}, REFASSUME)
define("Z07", evm(cpp=["tsan"]), "the same batch executed by several threads on one instance under ThreadSanitizer, each run compared with its outcome alone. " + OPS, {"concurrent_runs": 1000, "overlapping_runs": 200, "overlapping_runs_hashing_few_values": 100}, REFASSUME)
define("Z10", evm(cpp=["plain"]), "programs run with profiling on, profiles dumped and reset at random points; each counter compared with the number of executions on the reference machine. " + OPS, {"profiles_checked": 50, "counters_checked": 1000}, REFASSUME)
define("Z11", evm(cpp=["plain"]), "call- and create-heavy programs against scripted callees of every outcome, with re-entrant hosts, compared in full with the reference machine. " + OPS, {"compared": 10000, "events_C": 3000}, REFASSUME)

define("L01", evm(go=["lfvm"]), GEN + "each run by the Go interpreter and compared in full with the reference machine. " + OPS, {"compared": 10000, "distinct": 5000}, REFASSUME)
define("L02", evm(go=["lfvm"]), "histories of related programs on every registered configuration and on a random mix of long-lived instances, compared with a new default instance per run. " + OPS, {"compared": 20000, "configurations": 2}, REFASSUME)
define("L03", evm(go=["lfvm"]), "codes made of landing sites that return their own position and of decoys inside immediate data; a jump to every position of each code, judged by an independent scan for destinations. " + OPS, {"valid_jumps": 1000, "invalid_jumps": 1000}, REFASSUME)
define("L04", evm(go=["lfvm", "lfvm-race"]), "the same batch executed by several goroutines on one instance under the race detector, each run compared with its outcome alone. " + OPS, {"concurrent_runs": 1000, "overlapping_runs": 200, "overlapping_runs_hashing_few_values": 100, "hash_cache_users_during_replacement": 3}, REFASSUME)
define("L05", evm(go=["lfvm"]), CHECKS["Z04"].rule, {"compared": 10000, "attempts": 1000, "nested_calls": 500}, REFASSUME)
define("L06", evm(go=["lfvm"]), "hostile programs with failing hosts, and gas sweeps at and next to instruction boundaries; watched for panics, hangs, gas out of bounds, uncovered effects, and unsupported revisions. " + OPS, {"compared": 10000, "unsupported_revisions_rejected": 30}, REFASSUME)
define("L07", evm(go=["lfvm"]), CHECKS["Z11"].rule, {"compared": 10000, "events_C": 3000}, REFASSUME)

define("L08", evm(go=["lfvm"]), GEN + "hashing data of all lengths, and loops over more values than the hash caches hold, with and without cache; hashes compared with an independent Keccak-256. " + OPS, {"compared": 3000, "values_hashed": 100000}, REFASSUME)

define("Z12", evm(cpp=["plain"]), GEN + "each run with logging on; the printed lines compared with the instructions, gas and stack top of the reference machine. " + OPS, {"logs_checked": 5000, "log_lines_checked": 100000, "distinct": 3000}, REFASSUME)
define("L09", evm(go=["lfvm", "lfvm-race"]), GEN + "each run in the tracing configurations, lines compared with the reference machine, and in the statistics configurations by one and by several goroutines, summaries compared with counts over the verified traces. " + OPS, {"logs_checked": 3000, "log_lines_checked": 100000, "joined_instructions": 1000, "summaries_checked": 300, "counts_checked": 3000, "summaries_of_concurrent_runs": 50}, REFASSUME)

VM = "/cpp/vm/evmzero/"
CONTAINERASSUME = ["stand-ins for intx, ethash and evmc headers (shim/) behave as the originals"]


def native(*parts):
    """parts: (name, flavour, sources, harness arguments...)."""

    def f(ctx):
        for name, fl, src, *args in parts:
            if name not in ctx.b.bins:
                ctx.b.cpp(name, fl, [build.REPO + s if s.startswith("/") else s for s in src], extra=["-D" + m for m in name.split("@")[1:]])
        ctx.b.build()
        for name, fl, src, *args in parts:
            ctx.harness(ctx.b.bins[name], *args)

    return f


define("C01", native(*[("lru@PART=%d" % i, "ub0", ["lru_model.cc"]) for i in range(6)]), "random operation histories over several key and value types and capacities, on the cache and on a list-based model, under AddressSanitizer and UndefinedBehaviorSanitizer. distinct = different histories", {"evaluations": 100, "distinct": 100})
define("C02", native(("lruc", "plain", ["lru_concurrent.cc"], "-mode", "lin"), ("lruc-tsan", "tsan", ["lru_concurrent.cc"], "-mode", "stress")), "short concurrent histories with unique values, searched for a sequential order consistent with real time, and long runs under ThreadSanitizer. distinct = different recorded histories", {"evaluations": 100, "histories_with_overlap": 100, "stress_operations": 10000})
define("C03", native(*[("hash@PART=%d" % i, "ub0", ["hash_bytes.cc"]) for i in range(3)]), "byte strings of many fixed lengths at all alignments in exactly sized buffers under sanitizers; equal contents must hash equally, one-bit and one-byte changes must change the hash. distinct = different (length, content) pairs", {"evaluations": 1000, "distinct": 1000})
define("T01", native(("jump", "ubfull", ["jump_targets.cc", VM + "opcodes.cc"])), "all short codes over an alphabet of telling bytes and random long codes, in exactly sized buffers under sanitizers, against an independent scan. distinct = different codes", {"evaluations": 10000, "distinct": 1000})
define("Z08", native(("containers", "ubfull", ["containers.cc", VM + "stack.cc", VM + "memory.cc"])), "random operation histories on Memory and Stack against byte-map and list models, conversions of words against big-endian definitions, under sanitizers. distinct = different histories", {"evaluations": 1000, "distinct": 1000}, CONTAINERASSUME)
define("Z09", native(("sha3", "ubfull", ["sha3_cache.cc"], "-mode", "seq"), ("sha3-tsan", "tsan", ["sha3_cache.cc"], "-mode", "threads")), "histories of similar inputs, below and above the cache capacity, and by several threads under ThreadSanitizer, each hash compared with an independent Keccak-256. distinct = different inputs", {"hashes": 50000, "distinct": 1000, "concurrent_hashes": 10000}, CONTAINERASSUME)


def z10direct(ctx):
    src = ["profiler_model.cc", build.REPO + VM + "stack.cc", build.REPO + VM + "memory.cc"]
    ctx.b.cpp("profiler", "ubfull", src)
    ctx.b.cpp("profiler-tsan", "tsan", src)

    def after():
        ctx.harness(ctx.b.bins["profiler"])
        ctx.harness(ctx.b.bins["profiler-tsan"], "-mode", "threads")

    return after


define("Z10", evm(cpp=["plain"], extra=z10direct), CHECKS["Z10"].rule + "; direct histories of starts, ends, merges, collections and resets on profiles of several threads", {"profiles_checked": 50, "counters_checked": 1000, "counters_checked_directly": 1000, "threads_merged": 2}, REFASSUME)


def adapter(ctx, rust=False):
    if rust:
        ctx.b.rust("so", PERF, kind="cdylib")
    else:
        ctx.b.evmzero_so()
    ctx.b.go("evmcheck", "./cmd/evmcheck")
    for name in ("az", "az-race"):
        ctx.b.go(name, "./cmd/lfvmrunner", race=name.endswith("race"), tags="evmrs" if rust else "evmc", so=True)
    ctx.b.build()
    configs = build.run([ctx.b.bins["az"], "configs"]).strip()
    ctx.harness(ctx.b.bins["evmcheck"], "-work", ctx.work, "-bins", ",".join("%s=%s" % (n, ctx.b.bins[n]) for n in ("az", "az-race")) + ",configs=" + configs)


define("A01", adapter, GEN + "each run by evmzero through the Go adapter, in every registered configuration, one after the other and by several goroutines under the race detector, and compared in full with the reference machine; profiles dumped and reset through the adapter; unsupported revisions. " + OPS, {"compared": 20000, "distinct": 5000, "configurations": 6, "unsupported_revisions_rejected": 100, "profiles_checked": 20, "concurrent_runs": 1000, "overlapping_runs": 200}, REFASSUME + ["stand-in for the EVMC Go bindings (shim/go/evmc) behaves as the original"])


def gocheck(pkg, race=None, both=True):
    """Builds one Go harness, runs it, and again under the race detector."""

    def f(ctx):
        ctx.b.go(pkg, "./cmd/" + pkg)
        if race:
            ctx.b.go(pkg + "-race", "./cmd/" + pkg, race=True)
        ctx.b.build()
        if both:
            ctx.harness(ctx.b.bins[pkg])
        if race:
            ctx.harness(ctx.b.bins[pkg + "-race"])

    return f


define("T02", gocheck("apicheck"), "every one of the 256 opcode values, three times over with the returned lists overwritten in between, against a table from the Ethereum specification. distinct = different opcode values", {"evaluations": 768, "distinct": 256})
define("G01", gocheck("apicheck"), "related and unrelated operands with telling limbs, all operations against big integers, texts and their mutations. distinct = different operand pairs", {"evaluations": 100000, "distinct": 50000, "malformed_texts": 5000})
define("G02", gocheck("apicheck"), "all 64 patterns of equality and zero over triples of words, including words that differ in a single bit, against the gas rules' definition. distinct = different word triples", {"evaluations": 100000, "distinct": 1000})
define("G03", gocheck("apicheck", race=True), "short concurrent histories of registrations, lookups and listings under differently spelled names, judged with their real-time order, with and without race detector. distinct = different interleavings seen", {"registrations": 200, "rejected_registrations": 200, "lookups": 500, "listings": 200, "rounds_with_overlap": 50})
define("G04", gocheck("apicheck"), "all known and many unknown revisions and call kinds through text and JSON and back, and mutated texts, which must be rejected. distinct = different values", {"evaluations": 10000, "distinct": 1000, "malformed_texts": 10000})

FLORIA = "random transactions over random worlds: scripted contracts nesting calls of all kinds, creations, precompiled and state contract, static mode, self-destructs, gas limits at and next to what is needed, prices up to overflow, access lists; monitors at every call boundary and a reference processor compared with event by event. distinct = different traces of runs and results with at least two events"
FLORIAASSUME = ["the reference processor in /verif/go/cmd/floriacheck/model.go states the rules correctly", "precompiled contracts are stand-ins with fixed prices (shim/go/geth/core/vm)", "the total supply stays below 2^256", "interpreters report no refund for runs that fail"]
FLORIANEED = {"evaluations": 10000, "distinct": 3000, "succeeded": 1000, "failed": 1000, "rejected": 1000, "nested_runs": 5000, "calls_failed": 3000, "calls_succeeded": 1000, "conservation_checked": 5000}
for pid, focus in {"P01": "", "P02": "", "P03": "", "P04": "", "P05": "creations prevail; ", "P06": "including recursions past the depth limit; ", "P07": "requests to the state contract prevail; ", "P08": "all transactions carry an access list; "}.items():
    define(pid, gocheck("floriacheck"), focus + FLORIA, FLORIANEED, FLORIAASSUME)

BRIDGE = "random call trees of scripted contracts run by a stand-in for go-ethereum's EVM (shim/go/geth/core/vm) with the repository's adapter in the place of its interpreter: all call kinds, creations, precompiled contracts that succeed, fail or run out of gas, neighbours of their addresses, static mode, refunds below zero, depth limit; every run's parameters, every state access and every result compared with a model of the calls. distinct = different traces of runs and results with at least two events"
BRIDGEASSUME = ["the model in /verif/go/cmd/floriacheck/geth.go and the stand-in for go-ethereum v1.14.8's EVM state its call rules correctly", "precompiled contracts are stand-ins with fixed prices"]
BRIDGENEED = {"evaluations": 10000, "distinct": 3000, "succeeded": 1000, "failed": 1000, "nested_runs": 5000, "calls_failed": 3000, "calls_succeeded": 1000, "static_runs": 5000, "observations": 10000, "stores": 5000}
define("R01", gocheck("floriacheck"), BRIDGE, BRIDGENEED, BRIDGEASSUME)
define("R03", gocheck("floriacheck"), "the opera processor, linked with the same stand-in for go-ethereum; " + FLORIA, {**BRIDGENEED, "rejected": 1000, "conservation_checked": 5000}, BRIDGEASSUME + ["no self-destructs; account nonces stay below their limit"])

CT = "go/ct built with stand-ins for its dependencies; "
define("S03", gocheck("ctcheck"), CT + "states from generated programs, the framework's generators and random edits; clones and originals changed in turn, fingerprinted through an independent reading of every component, comparison and difference listing judged against a component-wise model. distinct = different states", {"clones": 3000, "comparisons": 10000, "comparisons_with_one_component_different": 2000, "unchanged_states_checked": 3000})
define("S04", gocheck("ctcheck"), CT + "random states written to files in a scratch directory, the originals changed, the files read back and compared component by component; truncated files must be rejected or read back equal. distinct = different states", {"states_read_back": 500, "truncated_files_rejected": 50})
define("S05", gocheck("ctcheck"), CT + "operand pairs and triples (edges, powers of two, all-ones, random widths) through every U256 method against math/big, and texts and byte strings through the conversions. distinct = different operation and operand classes", {"operations": 100000, "texts": 1000})
define("S06", gocheck("ctcheck"), CT + "states along the runs of generated programs, states the framework generates and enumerates for its rules, and variants of both at the edges of what their instruction depends on; every applicable rule's successor compared with one step of the reference machine. distinct = different states", {"evaluations": 50000, "rules_applied": 1000, "distinct_situations": 1500, "states_with_several_rules": 500}, REFASSUME)
GENS = "random sets of constraints, pre-assignments and seeds for every part generator and for whole states; each generated part is read back and judged against the constraints by independent predicates, each verdict against independent decision procedures (witness search or contradiction analysis). distinct = different constraint sets"
GENNEED = {"evaluations": 150000, "known_satisfiable": 150000, "known_contradictory": 80000, "repetitions": 200000, **{"generated_" + p: n for p, n in dict(code=10000, stack=5000, storage=8000, transient=8000, accounts=10000, block=10000, transaction=8000, selfdestruct=100, state=3000, range=40000, interval=40000).items()}}
define("S01", gocheck("ctcheck"), CT + GENS, GENNEED)
define("S02", gocheck("ctcheck"), CT + GENS, GENNEED)


def driver(ctx):
    ctx.b.go("drivercheck", "./cmd/drivercheck")
    ctx.b.driver("driver")
    ctx.b.driver("driver-race", race=True)
    ctx.b.build()
    ctx.harness(ctx.b.bins["drivercheck"], "-work", ctx.work, "-bins", ctx.b.bins["driver"] + "," + ctx.b.bins["driver-race"])


define("S10", driver, "the real driver, run as a process (with and without race detector) for random rule selections, seeds, numbers of jobs, limits and modes against an interpreter that follows the specification except for deviations planned per state, which logs every request; what the driver prints, writes and returns is judged by that log and by an enumeration of the same states. distinct = different states shown to the interpreter", {"evaluations": 50000, "distinct": 10000, "rounds": 6, "complete_runs": 5, "limited_runs": 1, "deviations": 300, "exported_states": 100, "states_run_again": 50, "conflicting_states": 30, "probes": 6, "overlapping_requests": 1000, "misuses_rejected": 10}, ["stand-ins for the command line and formatting libraries (shim/go/cli, unitconv) behave as the originals"])
define("S09", gocheck("ctcheck"), CT + "states along the runs of generated programs, related codes stepped one after another, states enumerated for the specification's rules, and variants of both, each stepped 0, 1 or many times through the adapter and compared component by component with the reference machine; inputs' copies fingerprinted before and after. distinct = different states and step counts", {"evaluations": 80000, "distinct_situations": 1500, "rules_with_states": 800, "states_repeated": 2000, "unknown_revisions_rejected": 100, "sibling_codes": 5000}, REFASSUME)
define("S07", gocheck("ctcheck"), CT + "random conditions of every kind around states from generated programs, generators and random edits, alone, in nested conjunctions, and in rules with parameters; Check, generated states, test values and whole enumerations judged by an independent evaluation of each condition. distinct = different conditions", {"evaluations": 200000, "kinds_of_conditions": 19, "restrictions_generated": 15000, "test_values": 80000, "enumerated_rules": 800, "combinations_satisfiable": 15000, "conjunctions_generated": 8000, "rules_with_satisfying_state": 2500})
define("S08", gocheck("ctcheck", race=True), CT + "lookups in the specification and in random specifications for states of all sources against a scan of all rules; enumerations by 1 to 16 workers, with aborting, failing and state-changing operations, against sequential enumeration of each rule, also under the race detector. distinct = different results of lookups and enumerations", {"evaluations": 100000, "lookups_with_rules": 3000, "lookups_without_rule": 300, "random_specifications": 300, "enumerations": 60, "enumerations_stopped": 20, "stops_with_much_left": 8, "enumerations_failing": 10, "filters": 200})


def stepadapter(ctx, rust=False):
    if rust:
        ctx.b.rust("so", PERF, kind="cdylib")
    else:
        ctx.b.evmzero_so()
    ctx.b.go("ctcheck-evmc", "./cmd/ctcheck", tags="evmrs" if rust else "evmc", so=True)
    ctx.b.build()
    ctx.harness(ctx.b.bins["ctcheck-evmc"])


define("A02", stepadapter, CHECKS["S09"].rule, CHECKS["S09"].need, REFASSUME + ["stand-in for the EVMC Go bindings (shim/go/evmc) behaves as the original"])


# evmrs: builds named in go/cmd/evmcheck/rust.go. The first is the default, the
# second what is shipped (but for the allocator), the others cover the remaining features.
PERF = ("unsafe-stack", "custom-evmc", "hash-cache", "code-analysis-cache", "alloc-reuse", "jumptable-dispatch", "fn-ptr-conversion-expanded-dispatch")
RUSTSETS = {
    "evmrs": (),
    "evmrs-perf": PERF,
    "evmrs-cached": ("jumptable-dispatch", "hash-cache", "code-analysis-cache", "thread-local-cache"),
    "evmrs-inline": ("fn-ptr-conversion-inline-dispatch", "code-analysis-cache", "alloc-reuse", "custom-evmc"),
    "evmrs-tail": ("tail-call", "jumptable-dispatch", "unsafe-stack", "hash-cache"),
}
RUSTASSUME = REFASSUME + ["stand-ins for the crates ethnum, bnum, sha3 and evmc-vm (shim/rust) behave as the originals", "the mimalloc feature, which only replaces the allocator, is left out"]


def evmrs(*names):
    """Builds evmrs in the named feature sets and runs evmcheck; names may end in -asan or -tsan."""

    def f(ctx):
        ctx.b.go("evmcheck", "./cmd/evmcheck")
        for n in names:
            base, _, san = n.rpartition("-") if n.endswith(("-asan", "-tsan")) else (n, "", "")
            ctx.b.rust(n, RUSTSETS[base], san or "plain", checked=san == "asan")
        ctx.b.build()
        ctx.harness(ctx.b.bins["evmcheck"], "-work", ctx.work, "-bins", ",".join("%s=%s" % (n, ctx.b.bins[n]) for n in names))

    return f


ALLSETS = tuple(RUSTSETS)
SETS = tuple(n for n in RUSTSETS if n != "evmrs-tail")
INSETS = "; four or five builds with different features"
define("E01", evmrs(*ALLSETS), GEN + "each run by evmrs and compared in full with the reference machine" + INSETS + ". " + OPS, {"compared": 20000, "distinct": 5000}, RUSTASSUME)
define("E02", evmrs(*ALLSETS), CHECKS["Z02"].rule + INSETS, {"compared": 5000, "distinct": 1000, "metamorphic_pairs": 500}, RUSTASSUME)
define("E03", evmrs(*ALLSETS), CHECKS["Z05"].rule + INSETS, {"stepped_runs": 5000, "states_checked": 20000, "ended_runs_stepped": 5000}, RUSTASSUME)
define("E04", evmrs("evmrs-perf-tsan", "evmrs-cached", "evmrs-perf"), "the same batch executed by several threads on one instance, also under ThreadSanitizer with an instrumented standard library, each run compared with its outcome alone. " + OPS, {"concurrent_runs": 3000, "overlapping_runs": 500, "overlapping_runs_hashing_few_values": 300}, RUSTASSUME)
define("E05", evmrs("evmrs-asan", "evmrs-perf-asan", "evmrs-inline-asan"), "hostile programs run under AddressSanitizer with overflow checks, debug assertions and the standard library's checks of unsafe preconditions, on exactly sized inputs, re-entrantly and stepwise; live heap measured over repetitions; three builds with different features. " + OPS, {"compared": 5000, "distinct": 1000, "leak_measurements": 10}, RUSTASSUME)
define("E06", evmrs("evmrs-perf", "evmrs-cached", "evmrs"), "histories of related programs on one instance of builds with caches under random option changes, against a fresh instance of a build without caches per run; hashing loops beyond the cache sizes against the reference machine. " + OPS, {"compared": 3000, "options_set": 500, "runs_with_log_output": 50}, RUSTASSUME)
define("E07", evmrs(*SETS), CHECKS["Z12"].rule + INSETS, {"logs_checked": 5000, "log_lines_checked": 100000, "distinct": 3000}, RUSTASSUME)
define("E08", evmrs(*ALLSETS), CHECKS["Z04"].rule + INSETS, {"compared": 10000, "attempts": 1000, "nested_calls": 500}, RUSTASSUME)
define("E09", evmrs(*ALLSETS), CHECKS["Z11"].rule + INSETS, {"compared": 10000, "events_C": 3000}, RUSTASSUME)

GOBIND = ["stand-in for the EVMC Go bindings (shim/go/evmc) behaves as the original"]
define("A03", lambda ctx: adapter(ctx, True), GEN + "each run by evmrs, built with the shipped features as a shared library, through the Go adapter, in every registered configuration, one after the other and by several goroutines under the race detector, and compared in full with the reference machine; unsupported revisions. " + OPS, {"compared": 20000, "distinct": 5000, "configurations": 2, "unsupported_revisions_rejected": 50, "concurrent_runs": 500, "overlapping_runs": 50}, RUSTASSUME + GOBIND)
define("A04", lambda ctx: stepadapter(ctx, True), CHECKS["S09"].rule, CHECKS["S09"].need, RUSTASSUME + GOBIND)
