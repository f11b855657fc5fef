"""Evidence, known findings and verdicts shared by all checks."""
import json, os, re, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class HarnessError(Exception):
    """The machinery itself failed; no statement about the property."""


class Result:
    def __init__(self):
        self.evaluations = 0
        self.distinct = 0
        self.stats = {}
        self.samples = []
        self.violations = []  # (key, detail, replay)

    def add(self, rep, prefix=""):
        self.evaluations += rep.get("evaluations", 0)
        self.distinct += rep.get("distinct", 0)
        for k, v in (rep.get("stats") or {}).items():
            self.stats[prefix + k] = self.stats.get(prefix + k, 0) + v
        self.samples += rep.get("samples") or []
        for v in rep.get("violations") or []:
            self.violations.append((v["key"], v["detail"], v.get("replay", "")))


def known_findings(pid):
    res = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) key=(\S+)\s*(.*)", l.strip())
            if m and m.group(1) == pid:
                res.append((m.group(2), m.group(3)))
    return res


def run_harness(cmd, report, timeout, env=None, crash_key="harness"):
    """Runs a harness that writes a JSON report. A crash of the process with a
    sanitizer report or a panic is a violation by the code under test."""
    e = dict(os.environ)
    e.setdefault("ASAN_OPTIONS", "detect_leaks=0:detect_stack_use_after_return=1:exitcode=77:max_allocation_size_mb=3000")
    e.setdefault("UBSAN_OPTIONS", "print_stacktrace=1:halt_on_error=1")
    e.setdefault("TSAN_OPTIONS", "halt_on_error=1:exitcode=66")
    e.setdefault("GORACE", "halt_on_error=1 exitcode=66")
    e.update(env or {})
    for attempt in range(2):
        if os.path.exists(report):
            os.remove(report)
        try:
            p = subprocess.run(cmd, env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout)
        except subprocess.TimeoutExpired as x:
            if attempt == 0 and timeout < 300:
                continue
            return {"violations": [{"key": crash_key + ":hang", "detail": "%s did not end within %d s\n%s" % (" ".join(cmd), timeout, (x.stderr or b"").decode(errors="replace")[-3000:])}]}
        break
    err = p.stderr.decode(errors="replace")
    if p.returncode == 0 and os.path.exists(report):
        return json.load(open(report))
    if is_sut_crash(p.returncode, err):
        rep = {"violations": [{"key": crash_key + ":" + crash_summary(err), "detail": "exit %s\n%s" % (p.returncode, err[:5000])}]}
        return rep
    raise HarnessError("%s: exit %s\n%s\n%s" % (" ".join(cmd), p.returncode, err[-4000:], p.stdout.decode(errors="replace")[-2000:]))


def is_sut_crash(rc, err):
    if rc == 9 and "evmcheck:" in err:
        return False
    return bool(re.search(r"ERROR: \w+Sanitizer|runtime error:|WARNING: ThreadSanitizer|DATA RACE|^panic:|^fatal error:|^SIG[A-Z]+:|^\[signal |unexpected signal|^fatal: |^goroutine \d+|Assertion failed|terminate called", err, re.M)) or (rc < 0 and rc != -9)


def crash_summary(err):
    m = re.search(r"AddressSanitizer: ([\w-]+)|ThreadSanitizer: ([\w -]+?) \(|runtime error: ([a-z -]+)|(DATA RACE)|(?:panic|fatal error|fatal): ([\w :]+)|^(SIG[A-Z]+):|(Assertion failed)", err, re.M)
    kind = next((g for g in (m.groups() if m else []) if g), "crash").strip().replace(" ", "-")
    f = "?"
    for m in re.finditer(r"/((?:cpp|go)/[\w./-]+\.(?:cc|h|go)):\d+", err):
        if "/verif/" + m.group(1) in err[max(0, m.start() - 8):m.end()]:
            continue
        f = os.path.basename(m.group(1))
        break
    return kind + "@" + f


def finish(pid, level, rule, res, t0, need=None, assumptions=()):
    """Writes evidence, prints the verdict and returns the exit code. need maps
    statistics to the least value that counts as an observation."""
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    known = known_findings(pid)
    hit, new = set(), []
    for key, detail, replay in res.violations:
        k = next((k for k, _ in known if k == key), None)
        if k:
            hit.add(k)
        else:
            new.append((key, detail, replay))
    ev = os.path.join(VERIF, "evidence")
    os.makedirs(os.path.join(ev, "replay"), exist_ok=True)
    for f in os.listdir(os.path.join(ev, "replay")):
        if f.startswith(pid + "-"):
            os.remove(os.path.join(ev, "replay", f))
    missing = []
    if not new:
        for k, n in (need or {}).items():
            v = res.evaluations if k == "evaluations" else res.distinct if k == "distinct" else res.stats.get(k, 0)
            if v < n:
                missing.append("%s: saw %d, need %d" % (k, v, n))
    ops = {k[3:]: v for k, v in res.stats.items() if re.fullmatch(r"op_[0-9a-f]{2}", k)}
    stats = {k: v for k, v in sorted(res.stats.items()) if not re.fullmatch(r"op_[0-9a-f]{2}", k)}
    cov = {"evaluations": res.evaluations, "distinct_nontrivial": res.distinct, "rule": rule, "samples": [s for s in res.samples[:8]] or ["none"], "observed": stats}
    if ops:
        cov["instructions_by_opcode"] = dict(sorted(ops.items()))
    if hit:
        cov["known_findings_observed"] = sorted(hit)
    doc = {"property": pid, "tier": tier, "seed": seed, "level": level, "coverage": cov, "assumptions": list(assumptions), "wall_s": round(time.time() - t0, 1), "violations": len(new)}
    with open(os.path.join(ev, pid + ".json"), "w") as f:
        json.dump(doc, f, indent=1)
        f.write("\n")
    for k, text in known:
        # a listed finding is a statement about the code, observed on every run
        if k in hit or not any(1 for _ in ()):
            print("KNOWN-FINDING: property=%s %s (%s)%s" % (pid, text, k, "" if k in hit else " [not observed in this run]"))
    for i, (key, detail, replay) in enumerate(new[:10]):
        p = os.path.join(ev, "replay", "%s-%d.txt" % (pid, i))
        with open(p, "w") as f:
            f.write("property %s\nkey %s\ntier %s seed %d\n\n%s\n" % (pid, key, tier, seed, detail))
            if replay:
                f.write("\n# the failing case, in the format of the runners\n%s\n" % replay)
        print("VIOLATION property=%s replay=%s" % (pid, p))
        print("  " + key + ": " + "\n    ".join(detail.splitlines()[:12])[:1500])
    if new:
        return 1
    if missing:
        print("no verdict, too little observed: " + "; ".join(missing), file=sys.stderr)
        return 2
    print("%s held: %d evaluations, %d distinct, %.1f s" % (pid, res.evaluations, res.distinct, time.time() - t0))
    return 0
