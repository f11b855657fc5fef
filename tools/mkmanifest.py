#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the registered checks."""
import json, os, sys
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path.insert(0, os.path.join(V, "lib"))
import checks

TECH = {
    "A": "runtime monitoring against a reference machine",
    "C": "runtime monitoring under sanitizers", "T": "runtime monitoring against an independent table or scan", "Z": "runtime monitoring against a reference machine",
    "L": "runtime monitoring against a reference machine", "G": "runtime monitoring against exact models", "R": "runtime monitoring against a reference model of the calls and a reference processor", "P": "runtime monitoring against a reference processor", "S": "runtime monitoring of generated states", "E": "runtime monitoring against a reference machine"}
SPECIAL = {"C02": "linearizability checking of recorded histories, ThreadSanitizer", "Z03": "AddressSanitizer, UBSan and live-heap monitoring under hostile bytecode", "Z07": "ThreadSanitizer and per-run result comparison",
           "E04": "ThreadSanitizer and per-run result comparison", "E05": "AddressSanitizer, checked arithmetic and live-heap monitoring under hostile bytecode",
           "A03": "runtime monitoring against a reference machine, Go race detector",
           "A01": "runtime monitoring against a reference machine, Go race detector", "L04": "Go race detector and per-run result comparison", "G03": "history checking with real-time order, Go race detector", "Z09": "sanitizers and comparison with an independent Keccak-256"}
NOTE = "Held on the executions observed (counts in the evidence file), not proved; inputs outside the generators' reach stay open. "
NA = json.load(open(os.path.join(V, "tools/not_applicable.json")))
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
cs = []
for p in props:
    if p in checks.CHECKS:
        c = checks.CHECKS[p]
        cs.append({"property": p, "quick_cmd": "python3 check.py " + p, "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + p, "technique": SPECIAL.get(p, TECH[p[0]]), "level": c.level,
                   "level_note": NOTE + ("Trusts: " + "; ".join(c.assumptions) + "." if c.assumptions else "Trusts the model in the harness.")})
na = [{"property": p, "reason": NA[p] if p in NA else "no check yet"} for p in props if p not in checks.CHECKS]
m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": cs, "not_applicable": na,
     "hooks": {"guard": "none", "enable": "no hooks: all events are observed at public interfaces (host calls, step interfaces, return values) or by compiler instrumentation", "source_commits": []},
     "notes": "Each check compiles what it needs from /repo's working tree into a scratch directory and removes it again."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
print(len(cs), "checks,", len(na), "not applicable")
