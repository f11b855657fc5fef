#!/usr/bin/env python3
"""Writes /verif/properties.jsonl. Kept as source so the list stays in one readable place."""
import json, os, sys
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

# ---------------------------------------------------------------- C++ common
p("C01", "The C++ LRU cache behaves as a bounded LRU map for every history",
  "For every capacity of at least one and every sequence of lookups, inserts, updates, get-or-insert and clear operations, the cache returns exactly what a bounded map with least-recently-used eviction returns: a lookup yields the last value stored for the key, it never holds more than its capacity, and only the entry that was least recently inserted or looked up is evicted (an update of an existing key is not a use), and only when a new key is inserted into a full cache. Clearing empties it and leaves it fully usable. No operation reads or writes outside the cache's own storage.",
  ["histories", "inputs", "configurations"], "all operation histories, all key/value types, all capacities >= 1",
  "The seven unit tests check a handful of fixed sequences at one capacity; eviction order, list repair after touching the tail or an inner entry, and capacity 1 depend on long mixed histories.",
  ["cpp/common/lru_cache.h"], [("recency list maintenance", "cpp/common/lru_cache.h: Touch, GetNewHead, Clear"), ("index/list agreement", "cpp/common/lru_cache.h: InsertOrAssign")],
  [("entries/head/tail", "intrusive recency list", "cpp/common/lru_cache.h")], ["return values of Get, InsertOrAssign, GetOrInsert"])
p("C02", "The C++ LRU cache is safe and linearizable under concurrent use",
  "For every interleaving of concurrent lookups, inserts, get-or-inserts and clears, the cache has no data race, never exceeds its bounds, and every call returns a value that some sequential order of the calls, consistent with their real-time order, explains; in particular a lookup never returns a value that was not stored under that very key. A get-or-insert acts as a lookup followed, if it misses, by an insert of the value made.",
  ["schedules", "histories"], "all thread schedules of all concurrent operation histories",
  "The single concurrency unit test only runs threads and checks nothing about the returned values; a missing or too-narrow lock shows only in rare interleavings.",
  ["cpp/common/lru_cache.h"], [("mutex-protected operations returning copies", "cpp/common/lru_cache.h: Get, InsertOrAssign, Clear")], observe=["invocation/response log of each thread", "ThreadSanitizer reports"])
p("C03", "Byte-string hashing is a well-defined function of the content only",
  "For every length, content and memory alignment, hashing a fixed-size byte string is free of undefined behaviour, reads exactly the bytes of the string, and gives equal strings equal hashes; changing any byte of the string changes the hash for all but a negligible share of inputs.",
  ["inputs"], "all byte strings of all lengths at all alignments",
  "There is only a benchmark; no test hashes misaligned, odd-length or content-equal copies.",
  ["cpp/common/hash_utils.h"], [("word-wise then byte-wise folding", "cpp/common/hash_utils.h: HashBytes")])
# ---------------------------------------------------------------- opcode tables and analysis
p("T01", "Jump-destination analysis of the C++ VM is exact for every byte sequence",
  "For every code, a position is accepted as a jump destination exactly when it lies inside the code, holds the JUMPDEST byte and is not part of the immediate data of a preceding push instruction, including when push data runs past the end of the code. The analysis has one entry per code byte and never reads beyond the code.",
  ["inputs", "programs"], "all byte sequences of all lengths",
  "Tests use a few short programs; a mistake in skipping push data shows only for particular push widths, truncations or overlapping patterns.",
  ["cpp/vm/evmzero/opcodes.cc", "cpp/vm/evmzero/opcodes.h"], [("push-data skipping", "cpp/vm/evmzero/opcodes.cc: CalculateValidJumpTargets")])
p("T02", "Go opcode table names, numbers, validity and widths match the EVM",
  "For every one of the 256 byte values, the shared Go opcode table gives the Ethereum-assigned name and number, reports as valid exactly the defined opcodes (the designated INVALID is not one), and gives each instruction its width of one byte plus its immediate data. Printing distinguishes any two different valid opcodes.",
  ["inputs"], "all 256 opcodes and all values of the opcode type",
  "The tests check a sample of the table and derive their expectation from the same constants.",
  ["go/tosca/vm/opcodes.go"], [("opcode constants, width, names and validity", "go/tosca/vm/opcodes.go")])
# ---------------------------------------------------------------- evmzero
p("Z01", "evmzero executes every program exactly as the EVM specifies",
  "For every supported revision (Istanbul to Cancun), code, input, gas limit and host state, evmzero ends with the status, output, gas left, refund (on success) and ordered sequence of state effects - storage writes, logs, nested calls and creates with all their parameters, self-destructs - that the Ethereum specification prescribes. Instructions of later revisions are rejected as undefined.",
  ["inputs", "programs", "configurations"], "all programs, inputs, gas limits, host states and revisions",
  "The evmzero tests exercise single instructions with fixed operands and need dependencies that are absent from the build; instruction interplay, operand extremes and revision cut-overs are not reached.",
  ["cpp/vm/evmzero/interpreter.cc", "cpp/vm/evmzero/evmzero.cc", "cpp/vm/evmzero/memory.h", "cpp/vm/evmzero/stack.h"],
  [("instruction implementations and dispatch", "cpp/vm/evmzero/interpreter.cc: op::, InterpretImpl"), ("result construction", "cpp/vm/evmzero/evmzero.cc: VM::Execute")], observe=["evmc_result", "ordered host-call log"])
p("Z02", "evmzero never creates gas and charges before acting",
  "In every execution gas left lies between zero and the gas supplied; every failure other than an explicit revert leaves zero gas; and no log, nested call or self-destruct is performed that the remaining gas does not cover, while a storage write it does not cover fails the execution. Running with a smaller gas limit either yields the identical effects with a gas-left lower by exactly the difference, or fails (programs that read the remaining gas or call out excepted).",
  ["inputs", "programs"], "all programs and all gas limits, including every gas value at which an instruction boundary is crossed",
  "Unit tests try two gas values per instruction; off-by-one charges appear only at the exact boundary of a particular instruction in context.",
  ["cpp/vm/evmzero/interpreter.cc"], [("gas accounting", "cpp/vm/evmzero/interpreter.cc: ApplyGasCost, MemoryExpansionCost, DynamicGas"), ("static gas table", "cpp/vm/evmzero/interpreter.cc")], observe=["gas_left for a sweep of gas limits"])
p("Z03", "evmzero is memory-safe and free of undefined behaviour on any bytecode",
  "For every byte string run as code with any input, gas and call data, evmzero terminates when its gas is used up and performs no out-of-bounds or use-after-free access, reads no uninitialized memory that could influence a result, leaks no memory and executes no undefined operation. Results it returns own their output and release it exactly once.",
  ["inputs", "programs"], "all byte strings as code, all inputs, sizes and offsets including those near the 2^32, 2^63, 2^64 and 2^256 limits",
  "Unit tests use well-formed small programs and are not run under sanitizers; hostile offsets and stack shapes are unbounded.",
  ["cpp/vm/evmzero/interpreter.cc", "cpp/vm/evmzero/memory.h", "cpp/vm/evmzero/memory.cc", "cpp/vm/evmzero/stack.h", "cpp/vm/evmzero/uint256.h", "cpp/vm/evmzero/evmzero.cc"],
  [("stack limit checks", "cpp/vm/evmzero/interpreter.cc: CheckStackRequirements"), ("padded code and size-checked memory access", "cpp/vm/evmzero/interpreter.cc, memory.h")])
p("Z04", "A static evmzero execution never changes state",
  "For every program run in static mode, evmzero performs no storage or transient-storage write, log, contract creation, self-destruct or value-transferring call, and every nested call it makes is itself flagged static. The attempt fails the execution with zero gas left.",
  ["programs", "inputs"], "all programs, inputs and revisions with the static flag set",
  "The tests check the flag once per state-changing instruction with default operands; call-with-value detection and propagation over kinds and revisions depends on operands.",
  ["cpp/vm/evmzero/interpreter.cc"], [("static-call checks", "cpp/vm/evmzero/interpreter.cc: Context::CheckStaticCallConformance")], observe=["host-call log"])
p("Z05", "Single-stepping evmzero equals running it in one go",
  "For every program and every way of cutting its execution into step batches - resuming from the reported program counter, stack, memory, gas, refund and last return data - the steppable interface reaches the same final status, gas, refund, output and host effects as a single uninterrupted run. Each step executes at most the requested number of instructions and reports the state exactly as reached.",
  ["programs", "histories", "inputs"], "all programs and all partitions of the run into step batches",
  "Step tests cover a few instructions starting from hand-made states; loss of state across the boundary appears only for particular cut points.",
  ["cpp/vm/evmzero/interpreter.cc", "cpp/vm/evmzero/evmzero.cc"], [("state import/export around a step", "cpp/vm/evmzero/evmzero.cc: StepN; cpp/vm/evmzero/interpreter.cc: InterpretNSteps")])
p("Z06", "Caches, logging and profiling never change evmzero results",
  "For every sequence of executions on one instance and every combination and mid-sequence change of its options (analysis cache, hash cache, logging, profiling), results and effects are the same as on a fresh instance with default options; executions name their code by its hash, by no hash, or by a hash of zero, which names none. Accepted options take effect and unknown option names or values are rejected without changing behaviour.",
  ["configurations", "histories", "programs"], "all option combinations, all sequences of executions sharing caches, including differing codes with repeated hashes of inputs",
  "Tests check that options can be set, not that results are unaffected; a stale or mis-keyed cache entry needs a history of several codes.",
  ["cpp/vm/evmzero/evmzero.cc", "cpp/vm/evmzero/interpreter.cc", "cpp/vm/evmzero/profiler.h", "cpp/vm/evmzero/logger.h", "cpp/vm/evmzero/sha3_cache.h"],
  [("observer templates", "cpp/vm/evmzero/interpreter.cc: InterpretImpl"), ("analysis cache keyed by code hash", "cpp/vm/evmzero/evmzero.cc")])
p("Z07", "One evmzero instance may execute concurrently without interference",
  "When many threads execute programs at the same time on one instance (in its default configuration, sharing its analysis and hash caches), no data race occurs and each execution returns exactly the result and effects it returns alone.",
  ["schedules", "programs"], "all interleavings of concurrent executions on a shared instance",
  "No test runs evmzero from more than one thread.",
  ["cpp/vm/evmzero/evmzero.cc", "cpp/vm/evmzero/sha3_cache.h", "cpp/vm/evmzero/allocator.cc", "cpp/common/lru_cache.h"],
  [("thread-safe shared caches", "cpp/vm/evmzero/evmzero.cc: analysis cache; sha3_cache.h"), ("thread-local allocation of stacks", "cpp/vm/evmzero/stack.cc")])
p("Z08", "evmzero memory and stack containers implement EVM memory and stack",
  "For every sequence of operations, EVM memory is zero-initialised, grows only in 32-byte words, never shrinks, returns the last written bytes and zeros elsewhere, and range copies behave as if through a temporary even when ranges overlap; the stack returns pushed words last-in first-out with exact swap and duplicate positions, and copies are independent. Conversions between 256-bit words, addresses, hashes and byte strings are big-endian and lossless.",
  ["histories", "inputs"], "all operation sequences and operands",
  "Unit tests use single operations with fixed small arguments and are not part of the build.",
  ["cpp/vm/evmzero/memory.h", "cpp/vm/evmzero/memory.cc", "cpp/vm/evmzero/stack.h", "cpp/vm/evmzero/stack.cc", "cpp/vm/evmzero/uint256.h"],
  [("Grow/ReadFrom/WriteTo/SetMemory", "cpp/vm/evmzero/memory.h"), ("Push/Pop/Swap/Dup", "cpp/vm/evmzero/stack.h")])
p("Z09", "Cached hashing always returns the Keccak-256 of the input",
  "For every input of every length, and every history of earlier inputs and concurrent users, the hash returned through the C++ hash cache equals the Keccak-256 digest of exactly that input.",
  ["inputs", "histories", "schedules"], "all inputs of all lengths, all histories of lookups, all interleavings",
  "Tests check a handful of inputs once; a wrong key (truncated or padded input) needs two inputs that collide under the mistake.",
  ["cpp/vm/evmzero/sha3_cache.h"], [("size-specific LRU caches", "cpp/vm/evmzero/sha3_cache.h: Hash")])
p("Z10", "Profiler totals count every executed instruction exactly once",
  "For every set of executions, on any number of threads using their own profiler data, the collected profile records for each instruction exactly the number of times it was executed between resets, merging profiles adds up counts and ticks without loss, and resetting clears them. (A JUMPDEST executed as the landing of a jump is accounted to the jump.)",
  ["histories", "programs", "schedules"], "all execution histories, merges and resets",
  "The profiler tests check a few markers; whether every instruction of a run is recorded once needs whole-program counting.",
  ["cpp/vm/evmzero/profiler.h", "cpp/vm/evmzero/evmzero.cc"], [("per-thread counters merged on collection", "cpp/vm/evmzero/profiler.h")])
p("Z11", "evmzero nested calls follow the call and create rules exactly",
  "For every call, delegate call, static call, call code and create, evmzero forwards the specified sender, recipient, code address, value, input, salt, depth and static flag; charges the access, value, new-account and init-code costs and forwards at most 63/64 of the remaining gas plus the stipend; skips the call without consuming forwarded gas when the balance does not allow it; and afterwards returns unspent gas and refunds, pushes success or the new address, and exposes and copies exactly the callee's return data.",
  ["programs", "inputs", "fault_sequences", "configurations"], "all call kinds, operands, gas amounts, depths, balances, callee outcomes and revisions",
  "Tests use a mock with one callee outcome per kind; combinations of gas, memory overlap, failing callees and revisions are unbounded.",
  ["cpp/vm/evmzero/interpreter.cc"], [("CALL family and CREATE family implementations", "cpp/vm/evmzero/interpreter.cc: op::CallImpl, op::CreateImpl")], observe=["messages received by the host", "caller's state afterwards"])
p("Z12", "evmzero's log lists exactly the executed instructions",
  "With the option logging turned on, evmzero prints for every run one line per executed instruction of the program, in order, each as NAME, GAS, TOP - the instruction's name (INVALID or its number where the revision does not define it), the gas left before it is executed, and the decimal value on top of the stack before it is executed or -empty- - from the first instruction to the last, including the one that ends or fails the run; only the implicit stop at the end of the code and the JUMPDEST a taken jump lands on, which is part of the jump, may be left out.",
  ["programs", "inputs", "configurations"], "all programs, inputs, gas limits, world states and revisions",
  "No test looks at what the logger prints for a running program; gas and stack are only handed to observers when the dispatch loop synchronizes them, which depends on the instruction sequence.",
  ["cpp/vm/evmzero/logger.h", "cpp/vm/evmzero/interpreter.cc", "cpp/vm/evmzero/opcodes.h"], [("line per instruction", "cpp/vm/evmzero/logger.h: Logger::PreInstruction"), ("state made visible to observers", "cpp/vm/evmzero/interpreter.cc: RUN_OPCODE")], observe=["standard output during runs"])
# ---------------------------------------------------------------- lfvm
p("L01", "The Go interpreter executes every program exactly as the EVM specifies",
  "For every supported revision (Istanbul to Cancun), code, input, gas limit and world state, the Go interpreter ends with the outcome, output, gas left, refund (none unless successful) and ordered sequence of state effects - storage writes, logs, nested calls and creates with all their parameters, self-destructs - that the Ethereum specification prescribes. Instructions of later revisions are rejected as undefined.",
  ["inputs", "programs", "configurations"], "all programs, inputs, gas limits, world states and revisions",
  "The interpreter's tests need modules that are absent from the build and use fixed operands; instruction interplay, operand extremes and revision cut-overs are not reached.",
  ["go/interpreter/lfvm/instructions.go", "go/interpreter/lfvm/interpreter.go", "go/interpreter/lfvm/gas.go", "go/interpreter/lfvm/memory.go", "go/interpreter/lfvm/stack.go"],
  [("instruction implementations", "go/interpreter/lfvm/instructions.go"), ("gas rules", "go/interpreter/lfvm/gas.go"), ("dispatch loop and result construction", "go/interpreter/lfvm/interpreter.go")], observe=["Result of Run", "ordered log of run-context calls"])
p("L02", "All Go interpreter configurations give identical results",
  "For every program and world state, every registered configuration of the Go interpreter - with or without super-instructions, hash caching, code caching, logging or statistics, and any order of earlier executions on the same instance - ends with the same outcome, output, gas, refund and state effects.",
  ["configurations", "programs", "histories"], "all registered variants, all programs, all execution histories on a shared instance",
  "Tests compare variants on a few example contracts; super-instruction fusion depends on exact adjacent opcode patterns, stack heights, gas values and jump targets.",
  ["go/interpreter/lfvm/super_instructions.go", "go/interpreter/lfvm/converter.go", "go/interpreter/lfvm/lfvm.go", "go/interpreter/lfvm/hash_cache.go", "go/interpreter/lfvm/instruction_statistics.go", "go/interpreter/lfvm/instruction_logger.go"],
  [("super-instruction fusion", "go/interpreter/lfvm/converter.go: appendInstructions"), ("fused implementations", "go/interpreter/lfvm/super_instructions.go")])
p("L03", "Translated code keeps every jump target at its original position",
  "For every code, with and without super-instructions, translating it to the interpreter's internal form preserves program-counter semantics: each JUMPDEST that the EVM accepts is reachable at its original position, no other position is accepted as a jump target, and the PC instruction reports original positions. This includes push data running past the end and arbitrarily long gaps created by push data.",
  ["inputs", "programs"], "all byte sequences up to the maximal contract and init-code size",
  "Tests convert random code but only check the structure produced, not that jumps land at the right place in all layouts.",
  ["go/interpreter/lfvm/converter.go"], [("JUMP_TO padding and PC encoding", "go/interpreter/lfvm/converter.go: convert, codeBuilder")])
p("L04", "A Go interpreter instance is safe for concurrent use",
  "When many goroutines run programs on one interpreter instance at the same time, no data race occurs and each run returns exactly the result and effects it returns alone, for every configuration meant for production use.",
  ["schedules", "programs"], "all interleavings of concurrent runs on a shared instance",
  "No existing test runs the interpreter concurrently with checks on results, and none runs under the race detector with shared caches.",
  ["go/interpreter/lfvm/converter.go", "go/interpreter/lfvm/hash_cache.go", "go/interpreter/lfvm/interpreter.go", "go/interpreter/lfvm/stack.go"],
  [("pooled stacks", "go/interpreter/lfvm/stack.go"), ("locked hash cache", "go/interpreter/lfvm/hash_cache.go"), ("code cache", "go/interpreter/lfvm/converter.go")])
p("L05", "A static Go interpreter run never changes state",
  "For every program run in static mode, the Go interpreter performs no storage or transient-storage write, log, contract creation, self-destruct or value-transferring call, and every nested call it makes runs static. The attempt fails the run with zero gas left.",
  ["programs", "inputs"], "all programs, inputs and revisions with the static flag set",
  "The tests check each instruction once; call-with-value detection and propagation depend on operands and revision.",
  ["go/interpreter/lfvm/instructions.go", "go/interpreter/lfvm/interpreter.go"], [("write-protection checks", "go/interpreter/lfvm/instructions.go, interpreter.go")], observe=["run-context call log"])
p("L06", "The Go interpreter never panics, never creates gas and always stops",
  "For every byte string run as code with any input, gas, depth and context answers, a run returns without panicking or corrupting shared state, gas left lies between zero and the gas supplied, every failure other than an explicit revert leaves zero gas, and no effect is performed that the gas does not cover. An unsupported revision is reported as an error.",
  ["inputs", "programs", "fault_sequences"], "all byte strings as code, all operands including extreme offsets and sizes, all context responses",
  "Unit tests use well-formed programs; hostile offsets, sizes and truncated codes are unbounded.",
  ["go/interpreter/lfvm/interpreter.go", "go/interpreter/lfvm/memory.go", "go/interpreter/lfvm/instructions.go", "go/interpreter/lfvm/stack_usage.go"],
  [("stack bound checks and gas checks", "go/interpreter/lfvm/interpreter.go: steps"), ("overflow-checked memory sizes", "go/interpreter/lfvm/memory.go")])
p("L07", "Go interpreter nested calls follow the call and create rules exactly",
  "For every call, delegate call, static call, call code and create, the Go interpreter requests from its context a nested execution with the specified kind, sender, recipient, code address, value, input and salt; charges the access, value, new-account and init-code costs and forwards at most 63/64 of the remaining gas plus the stipend; skips the call without consuming forwarded gas when the balance does not allow it; and afterwards returns unspent gas and refunds, pushes success or the new address, and exposes and copies exactly the callee's return data.",
  ["programs", "inputs", "fault_sequences", "configurations"], "all call kinds, operands, gas amounts, depths, balances, callee outcomes and revisions",
  "Tests use a mock with one callee outcome per kind; combinations of gas, memory overlap, failing callees and revisions are unbounded.",
  ["go/interpreter/lfvm/instructions.go", "go/interpreter/lfvm/gas.go"], [("call and create instructions", "go/interpreter/lfvm/instructions.go: genericCall, genericCreate")], observe=["parameters of nested calls", "caller's state afterwards"])
# ---------------------------------------------------------------- tosca API
p("L08", "The Go interpreter's hashing always equals Keccak-256",
  "For every input of every length, and for every history of earlier inputs, the hash a program obtains from the Go interpreter - with or without its hash cache, below and above the cache's capacity - equals the Keccak-256 digest of exactly that input.",
  ["inputs", "histories"], "all inputs of all lengths and all histories of hashed inputs",
  "Tests hash a handful of inputs; a stale or mis-keyed cache entry, or a mistake at a block boundary, needs particular lengths or a history.",
  ["go/interpreter/lfvm/keccak.go", "go/interpreter/lfvm/keccak.h", "go/interpreter/lfvm/hash_cache.go"], [("specialised and generic Keccak", "go/interpreter/lfvm/keccak.go, keccak.h"), ("hash cache keyed by input", "go/interpreter/lfvm/hash_cache.go")], observe=["result of SHA3 in programs"])
p("L09", "The Go interpreter's traces and statistics tell exactly what was executed",
  "In its logging configurations the Go interpreter prints one line NAME, GAS, TOP per step, giving gas and stack top before the step, such that the steps - with super-instructions read as the instructions their name joins and JUMP_TO and NOOP as steps without cost or effect - are the executed instructions of the program in order. In its statistics configurations the printed summary states the number of steps since the last reset, and for sequences of one, two, three and four consecutive steps within runs the five most frequent with exact counts and shares of all steps, in descending order; also when runs overlap on several goroutines.",
  ["programs", "histories", "schedules", "configurations"], "all programs, histories of runs, resets and dumps, and schedules of concurrent runs",
  "Tests log one short program and count one short sequence; merging counts of several runs, keys of long sequences and concurrent runs are not covered.",
  ["go/interpreter/lfvm/instruction_logger.go", "go/interpreter/lfvm/instruction_statistics.go", "go/interpreter/lfvm/lfvm.go"], [("line per step", "go/interpreter/lfvm/instruction_logger.go: loggingRunner.run"), ("sequence counting", "go/interpreter/lfvm/instruction_statistics.go: statsCollector.nextOp"), ("merging and summary", "go/interpreter/lfvm/instruction_statistics.go: statistics.insert, print")], observe=["standard output during runs and of DumpProfile"])
p("G01", "Token value arithmetic is exact 256-bit arithmetic",
  "For all operands, value construction, addition, subtraction, scaling, comparison and conversion behave as unsigned arithmetic modulo 2^256 on big-endian values and agree with one another; printing and parsing a value, address, hash, key or word gives back the same value.",
  ["inputs"], "all 256-bit operands and all textual forms",
  "The tests check a few sums and products; carries across limb boundaries and extreme operands need dense operand coverage.",
  ["go/tosca/types.go", "go/tosca/utils.go"], [("limb arithmetic on value", "go/tosca/types.go: Add, Sub, Scale, Cmp"), ("text marshalling", "go/tosca/types.go, utils.go")])
p("G02", "Storage change classification depends only on the three values involved",
  "For every original, current and new value of a storage slot, the reported storage status is the one the gas rules define - assigned, added, deleted, modified, or one of the restoring transitions - for all 2^768 value combinations, including current values that happen to equal the original or the new value.",
  ["inputs"], "all (original, current, new) triples",
  "Tests enumerate nine representative triples.",
  ["go/tosca/utils.go", "go/tosca/world_state.go"], [("GetStorageStatus", "go/tosca/utils.go")])
p("G03", "Interpreter and processor registries are consistent under concurrency",
  "For every interleaving of registrations and lookups, the registries have no data race, a name once registered resolves to what was registered and to nothing else, a second registration of the same name (ignoring case) is rejected, the listing contains exactly the registered names and is a copy the caller may modify freely.",
  ["schedules", "histories"], "all interleavings and histories of register, lookup and list operations",
  "Tests register a few names sequentially in one goroutine.",
  ["go/tosca/interpreter_registry.go", "go/tosca/processor_registry.go"], [("mutex-protected maps", "go/tosca/interpreter_registry.go, processor_registry.go")])
p("G04", "Revision and call-kind texts round-trip and reject everything else",
  "For every revision and call kind, its textual and JSON form parses back to the same value, different values have different texts, and decoding a text that denotes no value reports an error instead of yielding one.",
  ["inputs"], "all values and all texts",
  "Tests use a handful of texts.",
  ["go/tosca/revisions.go", "go/tosca/types.go"], [("string conversion and unmarshalling", "go/tosca/revisions.go")])
# ---------------------------------------------------------------- floria
p("P01", "Transaction gas billing follows the schedule for every transaction",
  "For every transaction that passes the pre-checks, the intrinsic gas charged for creation, input bytes and access list, the gas handed to execution, the 10% charge on unused gas of external transactions and the refund cap of the revision are exactly those of the protocol; the reported gas used lies between zero and the gas limit and the sender is charged exactly gas used times gas price.",
  ["inputs", "configurations", "fault_sequences"], "all transactions, revisions and execution outcomes (success, revert, failure, refund sizes)",
  "Tests check helper functions with one or two values each.",
  ["go/processor/floria/processor.go"], [("setupGasBilling, calculateGasLeft, refundGas", "go/processor/floria/processor.go")], observe=["receipt", "sender balance before and after"])
p("P02", "A rejected transaction leaves the world state untouched",
  "A transaction with a wrong nonce, a sender that has code, a sender that cannot pay the full gas limit, or (from Shanghai on) oversized init code is answered with an empty receipt, and no balance, nonce, code, storage, access status or log changes; the interpreter is not invoked.",
  ["inputs", "histories"], "all transactions failing each pre-check, in all world states",
  "Tests call each pre-check in isolation with a mock.",
  ["go/processor/floria/processor.go"], [("nonceCheck, eoaCheck, buyGas before any effect", "go/processor/floria/processor.go: Run")])
p("P03", "Value is neither created nor destroyed except the gas fee",
  "For every transaction and every tree of nested calls and creations it triggers, the sum of all balances after the transaction equals the sum before minus the gas used times the gas price (self-destruct burns and explicit state-contract balance writes excepted), and no transfer makes a balance negative or overflow.",
  ["programs", "inputs", "fault_sequences"], "all transactions, call trees, values (including self-transfers and overflowing recipients) and callee failures",
  "Tests move one fixed amount between two accounts with a mock.",
  ["go/processor/floria/run_context.go", "go/processor/floria/processor.go"], [("transferValue, canTransferValue", "go/processor/floria/run_context.go")], observe=["sum of balances"])
p("P04", "A failed or reverted call leaves no trace of its effects",
  "When a nested or top-level call or creation fails or reverts - in the executed code, in a value transfer, in a precompiled contract or in storing created code - every balance, storage, transient storage, code and log change made inside it, including its value transfer, is undone, effects outside it are kept, and a failure that is not a revert consumes all gas it was given. The nonce of a creating sender stays incremented.",
  ["programs", "fault_sequences", "histories"], "all call trees with failures at any depth and of any kind",
  "Tests check single calls with a mock that only counts snapshot calls.",
  ["go/processor/floria/run_context.go"], [("snapshot and restore around execution", "go/processor/floria/run_context.go: Call")], observe=["world state before and after"])
p("P05", "Contract creation derives addresses and deposits code by the rules",
  "For every creation the new address is the Keccak-based address of sender and nonce, or of sender, salt and init-code hash; an occupied address makes it fail; init code runs with the right identity, value and empty input; and the returned code is stored only if it fits the size limit, does not start with 0xEF from London on, and its per-byte deposit cost is paid from the remaining gas.",
  ["inputs", "programs", "configurations"], "all senders, nonces, salts, init codes, returned codes, gas amounts and revisions",
  "Tests cover single instances of each rule.",
  ["go/processor/floria/run_context.go"], [("createAddress, finalize of created code", "go/processor/floria/run_context.go")], observe=["created address", "stored code", "gas left"])
p("P06", "Nested calls run the right code in the right context and depth",
  "For every nested call the interpreter is started with the code and code hash of the callee (or of the code address for delegate call and call code), the specified recipient, sender, value, input and gas, a depth one larger than its caller, and static mode once any ancestor is static; calls deeper than 1024 fail without running. Block and transaction parameters are the same at every depth.",
  ["programs", "histories"], "all call trees of all kinds and depths",
  "Tests check one call of each kind with a mock.",
  ["go/processor/floria/run_context.go"], [("interpreter parameters", "go/processor/floria/run_context.go: Call")], observe=["parameters of each interpreter run"])
p("P07", "Only the driver may use the state contract and never in a static call",
  "For every call to the reserved state contract, its balance, code, storage and nonce operations take effect exactly as encoded if and only if the caller is the designated driver, the call is well-formed, affordable and not static; in all other cases it fails and changes nothing.",
  ["inputs", "programs"], "all callers, selectors, argument encodings, lengths and gas amounts",
  "Tests call each function with one well-formed and one malformed input.",
  ["go/processor/floria/state_contract.go"], [("isStateContract, runStateContract", "go/processor/floria/state_contract.go")], observe=["world state before and after"])
p("P08", "Access lists warm exactly the announced accounts and slots",
  "From Berlin on, a transaction carrying an access list starts with exactly the sender, the recipient, the precompiled contracts and the listed accounts and slots warm; before Berlin nothing is touched.",
  ["inputs", "configurations"], "all access lists and revisions",
  "One fixed access list is tested.",
  ["go/processor/floria/processor.go"], [("setUpAccessList", "go/processor/floria/processor.go")], observe=["access status at interpreter start"])
# ---------------------------------------------------------------- conformance-test framework
p("S01", "Generated test states satisfy every constraint they were built from",
  "For every combination of constraints on status, revision, program counter, code, stack, gas, storage, transient storage, accounts, block number, blob hashes and self-destruction, every pre-assignment of variables and every random seed, a state that is generated satisfies all of the constraints with one value per variable, pre-assigned and constant variables keep their values, and every variable a constraint on another part refers to has been bound or its absence is reported; generating again from the same constraints and seed gives the same state.",
  ["inputs", "configurations"], "all constraint combinations over all generator parts, all seeds",
  "Tests check each constraint kind with a few fixed values; unsatisfied combinations depend on interplay of constraints and random draws.",
  ["go/ct/gen/state.go", "go/ct/gen/code.go", "go/ct/gen/stack.go", "go/ct/gen/storage.go", "go/ct/gen/accounts.go", "go/ct/gen/block_context.go", "go/ct/gen/transaction_context.go", "go/ct/gen/transient_storage.go", "go/ct/gen/range_solver.go", "go/ct/gen/interval_solver.go"],
  [("per-part generators", "go/ct/gen")], observe=["generated state"])
p("S02", "Generators reject only contradictory constraints",
  "For every combination of constraints, the generators report unsatisfiable only if no state satisfies them, and report it whenever they contradict each other rather than returning a violating state. (Left open, as the generators document or evidently do not attempt it: placing several unbound code position variables, several storage configurations of one key, a storage configuration whose new value is bound to zero, code positions beside the largest code size, unbound variables constrained in several parts of a state.)",
  ["inputs"], "all constraint combinations",
  "Tests contain a few contradicting pairs; boundary positions and values are not swept.",
  ["go/ct/gen/code.go", "go/ct/gen/stack.go", "go/ct/gen/range_solver.go", "go/ct/gen/interval_solver.go", "go/ct/gen/block_context.go"],
  [("constraint solving", "go/ct/gen")])
p("S03", "State copies are independent and comparison is exact",
  "For every conformance state, a clone equals the original; no change to one is visible in the other; two states are reported equal exactly when they have the same status and every component that matters at this status is equal (none if both failed; stack, memory, program counter and last return data only while running, all program counters past the code being the same; the result only in stopped and reverted states; a missing storage value, balance, nonce or code being the same as zero); the difference listing of two states alike in every component is empty and that of two unequal states is not.",
  ["inputs", "histories"], "all states and all single-component changes",
  "Tests change one hand-picked value per component.",
  ["go/ct/st/state.go", "go/ct/st/accounts.go", "go/ct/st/storage.go", "go/ct/st/memory.go", "go/ct/st/stack.go", "go/ct/st/logs.go", "go/ct/st/call_journal.go", "go/ct/st/transient_storage.go"],
  [("Clone, Eq, Diff", "go/ct/st")])
p("S04", "A state written to a file is read back unchanged",
  "For every conformance state, serializing it to a file and reading it back gives an equal state, component by component, and the serialized copy is unaffected by later changes to the original.",
  ["inputs"], "all states",
  "Tests use one hand-made state.",
  ["go/ct/st/serialization.go"], [("serializable mirror of the state", "go/ct/st/serialization.go")])
p("S05", "256-bit arithmetic of the conformance tests is exact",
  "For all operands, every arithmetic, comparison, shift, byte and sign operation of the conformance framework's 256-bit integers equals the mathematical definition used by the EVM (including division by zero, signed edge cases and large shifts), and conversions round-trip.",
  ["inputs"], "all operand pairs and triples",
  "Tests use a few operand pairs per operation.",
  ["go/ct/common/u256.go"], [("U256 methods", "go/ct/common/u256.go")])
p("S06", "The executable specification agrees with the EVM on every state",
  "For every reachable state of a known revision whose program counter is on an instruction or past the code, at least one rule of the specification applies, all applicable rules yield the same successor, and this successor is what the Ethereum specification prescribes for executing the next instruction in that state.",
  ["inputs", "programs", "configurations"], "all states, instructions and revisions",
  "The specification has no independent oracle; tests sample rules for internal consistency only.",
  ["go/ct/spc/specification.go", "go/ct/spc/specification_map.go", "go/ct/rlz/conditions.go", "go/ct/rlz/expressions.go"],
  [("rules and effects", "go/ct/spc/specification.go")], observe=["rule conditions and effects on states"])
p("S07", "Rule conditions, their restrictions and their test values agree",
  "For every condition of the rule language and every state, Check answers as the condition's logic says: comparisons over status, revision, gas, refund, read-only mode, program counter, stack size, stack values, balances and operations; code and data positions; warmth, configuration, transience, emptiness, recency and presence predicates; conjunctions evaluated from left to right up to the first part that fails. It answers with an error instead exactly where a stack value is not there or an operation is asked for at a data position (operands of pushes cut off by the end of the code count as data, positions past the code as STOP). A state generated from the constraints that a condition or conjunction contributes satisfies it, and a single condition that some state satisfies yields one. The state generated for a test value of a condition has that value; test values of one condition include satisfying as well as violating ones, except where the language documents one side only (its own read-only value, revision, account warmth and storage configuration; constants). A rule's test cases are the product of all its distinct satisfiable test values, one generated state for each, with the product of each parameter's samples and the generated value; their number is at most the announced one, which is the exact product; enumeration is reproducible from the seed and stops at once when told. Every rule of the specification has a satisfying state. Not claimed: gas bounds beyond 2^60, operations at constant positions beyond the code sizes the generator uses, and completeness where several unbound code positions, or one unbound variable in several parts of a state, are constrained together.",
  ["inputs"], "all conditions over all domains and states",
  "Tests check each condition with hand-made states.",
  ["go/ct/rlz/conditions.go", "go/ct/rlz/domains.go", "go/ct/rlz/expressions.go"], [("Check, Restrict, EnumerateTestCases", "go/ct/rlz/conditions.go")])
p("S08", "Looking up rules by state misses no applicable rule",
  "For every specification and every state, whatever its status, revision and program counter, looking up rules returns exactly the rules whose condition holds, the same as testing every rule one by one, and changes nothing. Enumerating the test states of a list of rules calls the operation once for each test case of each rule (outside full mode: once for each that satisfies its rule), with any number of workers the same states for a seed, never more calls at once than workers; it reports the number of calls as final progress; once the operation asks to abort only a bounded number of calls follows; an error other than being unsatisfiable ends it and is returned; it always returns and leaves no goroutine behind, and operations may change the states they get. Filtering rules keeps exactly those whose name the expression matches.",
  ["inputs", "schedules", "configurations"], "all states, filters, worker counts and early stops",
  "Tests use a handful of rules and one worker layout.",
  ["go/ct/spc/specification_map.go", "go/ct/spc/enumeration.go"], [("op-indexed rule map", "go/ct/spc/specification_map.go"), ("parallel enumeration", "go/ct/spc/enumeration.go")])
p("S09", "The Go interpreter's step adapter conforms to the specification",
  "For every conformance state whose program counter is at an instruction or past the code, executing zero, one or many steps through the Go interpreter's conformance adapter yields the state the EVM prescribes after that many instructions, with status, program counter, stack, memory, gas, refund, storage, logs, call journal and return data mapped back exactly, gives the same result every time, and leaves copies of the input unmodified; states of unknown revisions are rejected with an error and stay as they are.",
  ["inputs", "programs"], "all states and step counts",
  "The adapter's tests use a few hand-made states.",
  ["go/interpreter/lfvm/ct.go", "go/ct/utils/adapter.go"], [("state conversion both ways", "go/interpreter/lfvm/ct.go; go/ct/utils/adapter.go")])
p("S10", "The conformance test driver reports every deviation and nothing else",
  "For every rule selection, seed, number of jobs, limit and mode, the driver's run command shows the interpreter exactly one step of each state enumerated for the selected rules whose program counter is at an instruction, reports exactly those whose result differs from what the selected rules prescribe or that end in an error or panic (up to the limit), counts unsupported revisions apart, fails if and only if something is reported, and writes each reported input to a file that gives the same verdict when run again as regression test; test and probe report exactly the states whose rules contradict each other or whose result deviates; statistics and lists count exactly what was enumerated. Concurrent jobs do not disturb each other.",
  ["inputs", "configurations", "schedules"], "all specifications, interpreters, selections, seeds and numbers of jobs",
  "Only the statistics counter has tests; no test runs the driver against an interpreter that deviates, let alone with several jobs.",
  ["go/ct/driver", "go/ct/driver/cli", "go/ct/spc/enumeration.go"], [("verdict on a state", "go/ct/driver/run.go:runTest"), ("issues", "go/ct/driver/cli/issues.go:IssuesCollector"), ("random states", "go/ct/driver/probe.go:testState"), ("repetition", "go/ct/driver/regressions.go:doRegressionTests"), ("contradictions", "go/ct/driver/test.go:doTest")], observe=["requests to the interpreter", "standard output and exit code", "exported files"])
p("A01", "evmzero behind its Go adapter executes every program as the EVM specifies",
  "For every program, input, state, gas limit and supported revision, running it through the registered evmzero configurations (default, logging, without analysis cache, without SHA3 cache, profiling, external profiling) ends as the EVM specification prescribes: the run context sees exactly the prescribed calls with exact parameters, a stopped or returning program is successful with its output, gas left and refund, a reverting one unsuccessful with its output and gas but no refund, and a failing program of any kind is an unsuccessful result with no gas, refund or output and never a Go error; unsupported revisions give ErrUnsupportedRevision without any effect; profiles count what ran; all this also when goroutines share an instance.",
  ["inputs", "programs", "configurations", "schedules"], "all runs through the adapter",
  "The adapter's tests run a handful of fixed programs and need a library the test setup here does not build.",
  ["go/interpreter/evmc/evmc_interpreter.go", "go/interpreter/evmzero/evmzero.go", "cpp/vm/evmzero/evmzero.cc"], [("result and error mapping", "go/interpreter/evmc/evmc_interpreter.go:Run"), ("callbacks", "go/interpreter/evmc/evmc_interpreter.go:hostContext"), ("configurations", "go/interpreter/evmzero/evmzero.go")])
p("A02", "evmzero's step adapter conforms to the specification",
  "For every conformance state whose program counter is at an instruction or past the code, executing zero, one or many steps through evmzero's conformance adapter yields the state the EVM prescribes after that many instructions, with status, program counter, stack, memory, gas, refund, storage, logs, call journal and return data mapped in and back exactly, gives the same result every time and from several goroutines at once, and leaves copies of the input unmodified; states of unknown revisions are rejected with an error and stay as they are.",
  ["inputs", "programs", "schedules"], "all states and step counts",
  "The adapter's tests cover a few hand-made states and conversions.",
  ["go/interpreter/evmzero/ct.go", "go/interpreter/evmc/evmc_steppable_interpreter.go", "go/ct/utils/adapter.go"], [("state conversion both ways", "go/interpreter/evmc/evmc_steppable_interpreter.go:StepN"), ("revision handling", "go/interpreter/evmzero/ct.go:StepN")])
p("A03", "Tosca's Go adapter for evmrs executes programs as the EVM specifies",
  "For every program, input, gas limit and revision, evmrs run through its Go adapter in each registered configuration, one run after another and many at once, ends with the outcome and state effects that the Ethereum specification prescribes: parameters, block and transaction context, storage, balances, calls, creates, logs and results cross the language boundary both ways without loss, hosts may call back re-entrantly, unsuccessful runs carry no refund, unsupported revisions are refused, and concurrent runs do not disturb each other.",
  ["inputs", "programs", "configurations", "schedules"], "all runs through the adapter",
  "No test compares complete runs through the adapter with the specification, let alone concurrent ones.",
  ["go/interpreter/evmrs/evmrs.go", "go/interpreter/evmc/evmc_interpreter.go", "rust/src/ffi"], [("configurations", "go/interpreter/evmrs/evmrs.go"), ("host and result mapping", "go/interpreter/evmc/evmc_interpreter.go:hostContext"), ("EVMC boundary", "rust/src/ffi/evmc_vm.rs")])
p("A04", "evmrs's step adapter conforms to the specification",
  "For every conformance state whose program counter is at an instruction or past the code, executing zero, one or many steps through evmrs's conformance adapter yields the state the EVM prescribes after that many instructions, with status, program counter, stack, memory, gas, refund, storage, logs, call journal and return data mapped in and back exactly, gives the same result every time and from several goroutines at once, and leaves copies of the input unmodified; states of unknown revisions are rejected with an error and stay as they are.",
  ["inputs", "programs", "schedules"], "all states and step counts",
  "The adapter's tests cover a few hand-made states and conversions.",
  ["go/interpreter/evmrs/ct.go", "go/interpreter/evmc/evmc_steppable_interpreter.go", "rust/src/ffi/steppable_evmc_vm.rs"], [("state conversion both ways", "go/interpreter/evmc/evmc_steppable_interpreter.go:StepN"), ("positions in converted code", "rust/src/types/code_reader.rs:CodeReader"), ("revision handling", "go/interpreter/evmrs/ct.go:StepN")])
# ---------------------------------------------------------------- evmrs, the Rust interpreter
RW = "Rust tests cover single instructions with hand-picked operands, one feature set at a time."
p("E01", "evmrs executes every program as the EVM specifies, in every feature set",
  "For every program, input, value, gas limit, revision and host state, executing it with evmrs, built with any of its dispatch, cache and allocation features, ends with the status, output, gas left, refund and sequence of state effects that the Ethereum specification prescribes for that revision.",
  ["inputs", "programs", "configurations"], "all programs, inputs, gas limits, revisions and feature sets", RW,
  ["rust/src/interpreter.rs", "rust/src/types/code_analysis.rs"], [("instructions", "rust/src/interpreter.rs:Interpreter"), ("converted code", "rust/src/types/code_analysis.rs:analyze_code"), ("arithmetic", "rust/src/types/amount.rs:u256")])
p("E02", "evmrs charges the exact gas of the revision and never exceeds the limit",
  "For every program and gas limit, including limits next to instruction boundaries and up to 2^63-1, evmrs charges exactly the gas of the revision's schedule: gas left lies between zero and the gas supplied; every failure other than an explicit revert leaves zero gas; no log, nested call or self-destruct is performed that the remaining gas does not cover, while a storage write it does not cover fails the execution; and a smaller gas limit either yields the identical effects with a gas left lower by exactly the difference, or fails (programs that read the remaining gas or call out excepted).",
  ["inputs", "programs", "configurations"], "all programs and gas limits", RW,
  ["rust/src/interpreter.rs", "rust/src/types/memory.rs"], [("gas accounting", "rust/src/utils/gas.rs:Gas"), ("memory expansion", "rust/src/types/memory.rs:Memory")])
p("E03", "Stepping evmrs in any batches equals running in one go",
  "For every program and every split of its execution into batches of steps, resuming evmrs from the state a step result reports leads through the states the EVM prescribes after that many instructions to the same outcome as executing in one go; states that have ended stay as they are.",
  ["programs", "histories", "configurations"], "all programs and batchings", "Tests step a few fixed programs.",
  ["rust/src/ffi/steppable_evmc_vm.rs", "rust/src/interpreter.rs"], [("step results", "rust/src/ffi/steppable_evmc_vm.rs"), ("positions", "rust/src/types/pc_map.rs:PcMap")])
p("E04", "Concurrent evmrs executions are isolated and race-free",
  "For every schedule of executions by any number of threads on one evmrs instance, including its shared caches of code analyses and hashes, every execution has the outcome it has alone, and no data race occurs.",
  ["schedules", "histories"], "all schedules of concurrent executions", "Tests run single-threaded.",
  ["rust/src/types/cache.rs", "rust/src/types/hash_cache.rs", "rust/src/types/code_analysis.rs"], [("caches", "rust/src/types/cache.rs:Cache"), ("instance state", "rust/src/evmc.rs")])
p("E05", "evmrs is memory-safe, panic-free and leak-free on hostile input",
  "For every bytecode, input and sequence of host replies, executing or stepping evmrs neither accesses memory out of bounds or after release, nor panics, nor overflows arithmetic, nor violates a precondition of unsafe code, nor keeps memory that grows with the number of executions.",
  ["inputs", "programs", "faults"], "all bytecodes, inputs and host replies", RW,
  ["rust/src/ffi", "rust/src/types/memory.rs", "rust/src/types/stack.rs", "rust/src/types/code_reader.rs"], [("EVMC boundary", "rust/src/ffi/evmc_vm.rs"), ("unchecked conversions", "rust/src/types/code_reader.rs:get"), ("memory accesses", "rust/src/types/memory.rs:Memory")])
p("E06", "evmrs's caches and options never change what a run computes",
  "For every history of runs on one evmrs instance, whatever was cached before and whatever observer options are set, every run has the outcome it has on a fresh instance without caches, and hashes equal Keccak-256 of the hashed bytes.",
  ["histories", "configurations"], "all histories of runs and option settings", "Tests execute each program once.",
  ["rust/src/types/cache.rs", "rust/src/types/hash_cache.rs", "rust/src/evmc.rs"], [("hash cache", "rust/src/types/hash_cache.rs:hash"), ("options", "rust/src/evmc.rs:set_option")])
p("E07", "evmrs's logging observer prints the instructions executed",
  "With the option logging turned on, evmrs prints for every run one line per executed instruction of the program, in order, each as Name, gas, top - the instruction's name, the gas left before it is executed, and the decimal value on top of the stack before it is executed or -empty- - from the first instruction to the last, including the one that ends or fails the run, and logging changes no outcome; only the implicit stop at the end of the code, bytes that are no instruction, and the JUMPDEST a taken jump lands on, which is part of the jump, may be left out. (With the tail-call feature evmrs announces that it does not log.)",
  ["programs", "configurations"], "all programs", "A test checks two lines of one program.",
  ["rust/src/types/observer.rs", "rust/src/interpreter.rs"], [("log lines", "rust/src/types/observer.rs:LoggingObserver")])
p("E08", "evmrs never modifies state in a static context",
  "For every program, input and revision executed in static mode, evmrs performs no state-changing host operation, passes static mode on to everything it calls, and fails with all gas consumed when a state-changing instruction is reached.",
  ["inputs", "programs", "configurations"], "all static executions", RW,
  ["rust/src/interpreter.rs"], [("static-mode checks", "rust/src/interpreter.rs:Interpreter")])
p("E09", "evmrs's call and create messages and their results are handled faithfully",
  "For every call and create instruction with any operands, evmrs hands the host the prescribed message (kind, flags, recipient, code address, value, input, salt and gas share), and folds the callee's status, output, created address, gas left and refund back as prescribed, for every outcome including failing and re-entrant callees.",
  ["inputs", "programs", "faults"], "all messages and callee outcomes", RW,
  ["rust/src/interpreter.rs"], [("messages", "rust/src/interpreter.rs:Interpreter"), ("execution context", "rust/src/types/execution_context.rs")])
# ---------------------------------------------------------------- Tosca inside go-ethereum's EVM
p("R01", "Interpreters run inside go-ethereum's EVM without loss or side effects",
  "For every call tree run by go-ethereum's EVM with a Tosca interpreter plugged in through the adapter, each run receives exactly the code, code hash, input, gas, value, sender, recipient, depth, block and transaction parameters of the call, and is static if and only if the call or any ancestor is; each state access and nested call of the interpreter acts on go-ethereum's state as specified; output, gas, creation address and success reach the caller unchanged; failed calls leave no effect, return no more gas than given and never abort the caller; and the refund counter ends at the sum of the refunds of the runs that succeeded.",
  ["programs", "inputs", "histories"], "all call trees, call kinds, precompiled contracts, revisions, block and transaction parameters and world states",
  "Tests call single adapter functions with mocks; read-only mode hidden in the gas value, refunds shifted through nested and failing runs, and errors of nested calls only show in whole call trees.",
  ["go/geth_adapter/adapter.go"], [("run of an interpreter", "go/geth_adapter/adapter.go: gethInterpreterAdapter.Run"), ("state access and nested calls", "go/geth_adapter/adapter.go: runContextAdapter")], observe=["parameters and results of each interpreter run", "the state of go-ethereum's EVM at every call boundary"])
p("R03", "The opera processor runs transactions by Opera's rules",
  "For every transaction, block and world state the opera processor accepts or rejects the transaction, charges gas, fee and value, returns unused gas less the ten percent surcharge for non-internal transactions, caps refunds, prepares the access list, executes calls and creations, undoes failed executions and reports output, logs and created contract exactly as Opera's rules say (checked nonce, sender without code, balance for the gas fee, intrinsic gas); a rejected transaction runs nothing, and tokens are neither created nor lost except for the gas fee.",
  ["inputs", "programs", "histories"], "all transactions, world states, scripted contracts, gas limits and prices, Istanbul to London",
  "The processor has no unit tests of its own, only a few shared scenario tests; wrapping fees, huge values, surcharge and refund order only show for particular amounts.",
  ["go/processor/opera/processor.go", "go/geth_adapter/adapter.go", "go/interpreter/geth/geth.go"], [("transaction processing", "go/processor/opera/processor.go: processor.Run"), ("fees and refunds", "go/processor/opera/processor.go: buyGas, refundGas"), ("state contract", "go/processor/opera/processor.go: preCompiledStateContract.Run")], observe=["receipts", "world state after each transaction", "parameters of each interpreter run"])
# ---------------------------------------------------------------- out of reach here
p("R02", "The evmone adapter and go-ethereum's interpreter keep to the interfaces",
  "The evmone adapter and the adapter running go-ethereum's own interpreter translate parameters, results and callbacks of the shared interface without loss.",
  ["inputs", "programs"], "all runs through either adapter",
  "They need libraries that are not available offline.",
  ["go/interpreter/geth", "go/interpreter/evmone"], [("adapters", "go/interpreter/geth/geth.go")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P), "properties")
