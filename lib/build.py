"""Builds the harnesses from /repo's working tree into a scratch directory."""
import concurrent.futures as cf, glob, json, os, re, shutil, subprocess, sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
GO = os.path.join(VERIF, "go")


class BuildError(Exception):
    pass


def run(cmd, cwd=None, env=None, timeout=1500):
    p = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    if p.returncode != 0:
        raise BuildError("%s\n%s" % (" ".join(cmd), p.stdout.decode(errors="replace")[-6000:]))
    return p.stdout.decode(errors="replace")


UB = "signed-integer-overflow,shift,integer-divide-by-zero,bounds,alignment,bool,enum,return,unreachable,float-cast-overflow"
INC = ["-I" + os.path.join(REPO, "cpp"), "-isystem", os.path.join(VERIF, "shim/cpp"), "-isystem", os.path.join(VERIF, "shim/cpp/gen")]
# name -> (compile flags, link flags)
FLAVOURS = {
    "plain": (["-O1"], []),
    "alt": (["-O1", "-ftrivial-auto-var-init=pattern"], []),
    "asan": (["-O1", "-fno-omit-frame-pointer", "-ftrivial-auto-var-init=zero", "-fsanitize=address," + UB, "-fno-sanitize-recover=all"], ["-fsanitize=address,undefined"]),
    # the same without optimization, for harnesses with many instantiations
    "ub0": (["-O0", "-fno-omit-frame-pointer", "-fsanitize=address,undefined", "-fno-sanitize=pointer-overflow,nonnull-attribute", "-fno-sanitize-recover=all", "-D_GLIBCXX_ASSERTIONS"], ["-fsanitize=address,undefined"]),
    "tsan": (["-O1", "-fno-omit-frame-pointer", "-fsanitize=thread"], ["-fsanitize=thread"]),
    # container harnesses are small enough for the full set, but for zero-sized
    # accesses through null pointers, which the language has since defined
    "ubfull": (["-O1", "-fno-omit-frame-pointer", "-fsanitize=address,undefined", "-fno-sanitize=pointer-overflow,nonnull-attribute", "-fno-sanitize-recover=all", "-D_GLIBCXX_ASSERTIONS"], ["-fsanitize=address,undefined"]),
}


def absl():
    try:
        return run(["pkg-config", "--libs", "absl_flat_hash_map"]).split()
    except (BuildError, OSError):
        return ["-labsl_hash", "-labsl_raw_hash_set", "-labsl_city", "-labsl_low_level_hash", "-labsl_base"]


def vm_sources():
    d = os.path.join(REPO, "cpp/vm/evmzero")
    return sorted(f for f in glob.glob(d + "/*.cc") if not f.endswith(("_test.cc", "_benchmark.cc", "benchmarks.cc")))


def cxx(flavour, src, obj, extra=()):
    run(["clang++", "-std=c++20", "-g1", "-w", "-DTOSCA_ASSERT_ENABLED"] + FLAVOURS[flavour][0] + INC + list(extra) + ["-c", src, "-o", obj])


class Builder:
    """Collects compile jobs, runs them in parallel, then links."""

    def __init__(self, work):
        self.work, self.jobs, self.links, self.late, self.bins, self.runners = work, [], [], [], {}, set()

    def cpp(self, name, flavour, sources, vm=False, extra=()):
        """One binary from harness sources (in /verif/cpp) and, with vm, all of evmzero. sources may name files under /repo too."""
        d = os.path.join(self.work, "obj-" + name)
        os.makedirs(d)
        objs = []
        srcs = [s if os.path.isabs(s) else os.path.join(VERIF, "cpp", s) for s in sources] + (vm_sources() if vm else [])
        # the biggest first
        for s in sorted(srcs, key=lambda x: -os.path.getsize(x)):
            o = os.path.join(d, os.path.basename(s) + ".o")
            objs.append(o)
            self.jobs.append(lambda s=s, o=o: cxx(flavour, s, o, extra))
        out = os.path.join(self.work, name)
        self.links.append(lambda: run(["clang++"] + FLAVOURS[flavour][1] + objs + ["-o", out] + absl() + ["-lpthread"]))
        self.bins[name] = out
        return out

    def evmzero_so(self, flavour="plain"):
        """The shared library the Go adapter of evmzero links and loads."""
        d = os.path.join(self.work, "obj-so")
        os.makedirs(d)
        objs = []
        for s in sorted(vm_sources(), key=lambda x: -os.path.getsize(x)):
            o = os.path.join(d, os.path.basename(s) + ".o")
            objs.append(o)
            self.jobs.append(lambda s=s, o=o: cxx(flavour, s, o, ["-fPIC"]))
        out = os.path.join(self.work, "libevmzero.so")
        self.links.append(lambda: run(["clang++", "-shared"] + FLAVOURS[flavour][1] + objs + ["-o", out] + absl() + ["-lpthread"]))
        return out

    def rust(self, name, features=(), flavour="plain", kind="staticlib", checked=False):
        """evmrs with the given features: a runner, or with kind cdylib the shared library the Go adapter loads.

        Stand-ins replace the crates that are not available. With checked, debug assertions and overflow checks are on."""
        d = os.path.join(self.work, "rust-" + name)
        os.makedirs(d)
        with open(os.path.join(VERIF, "rust/Cargo.toml.template")) as f:
            t = f.read()
        for k, v in {"REPO": REPO, "VERIF": VERIF, "KIND": kind, "CHECKED": "true" if checked else "false"}.items():
            t = t.replace("@%s@" % k, v)
        with open(os.path.join(d, "Cargo.toml"), "w") as f:
            f.write(t)
        shutil.copy(os.path.join(VERIF, "rust/Cargo.lock.template"), os.path.join(d, "Cargo.lock"))
        env = dict(os.environ, CARGO_TARGET_DIR=os.path.join(d, "target"), CARGO_NET_OFFLINE="true", CARGO_INCREMENTAL="0")
        env.setdefault("HOME", "/root")
        for k in ("RUSTFLAGS", "CARGO_BUILD_TARGET", "CARGO_ENCODED_RUSTFLAGS"):
            env.pop(k, None)
        cmd, sub = ["cargo"], "release"
        args = ["build", "--offline", "--locked", "--release", "--features", ",".join(features)]
        san = {"asan": "address", "tsan": "thread"}.get(flavour)
        if san:
            env["RUSTFLAGS"] = "-Zsanitizer=" + san
            cmd, sub = ["cargo", "+nightly"], "x86_64-unknown-linux-gnu/release"
            args += ["--target", "x86_64-unknown-linux-gnu"] + (["-Zbuild-std"] if san == "thread" else [])
        self.jobs.insert(0, lambda: run(cmd + args, cwd=d, env=env))
        lib = os.path.join(d, "target", sub, "libevmrs." + ("a" if kind == "staticlib" else "so"))
        if kind != "staticlib":
            out = os.path.join(self.work, "libevmrs.so")
            self.links.append(lambda: shutil.copy(lib, out))
            return out
        obj = os.path.join(self.work, "runner-rs-%s.o" % flavour)
        if obj not in self.runners:
            self.runners.add(obj)
            self.jobs.append(lambda: cxx(flavour, os.path.join(VERIF, "cpp/evmzero_runner.cc"), obj, ["-DEVMRS"]))
        out = os.path.join(self.work, name)
        self.links.append(lambda: run(["clang++"] + FLAVOURS[flavour][1] + [obj, lib, "-o", out, "-lpthread", "-ldl", "-lm"]))
        self.bins[name] = out
        return out

    def go(self, name, pkg, race=False, tags="", so=False, overlay=None):
        """One binary from a Go harness; with so, it links the shared library and is built after that."""
        out = os.path.join(self.work, name)
        env = dict(os.environ, GOFLAGS="-mod=mod", GOPROXY="off", GOTOOLCHAIN="local", GONOSUMDB="*", GONOSUMCHECK="1", GOFLAGS_EXTRA="")
        if REPO != "/repo":
            raise BuildError("go builds read /repo")
        if not os.environ.get("HOME") and not os.environ.get("GOCACHE"):
            env["GOCACHE"] = os.path.join(self.work, "gocache")
        env["GOFLAGS"] = "-mod=readonly"
        cmd = ["go", "build"] + (["-race"] if race else []) + (["-tags", tags] if tags else []) + (["-overlay", overlay] if overlay else []) + ["-o", out, pkg]
        if so:
            env["CGO_CFLAGS"] = "-O1 -g -I" + os.path.join(VERIF, "shim/cpp")
            env["CGO_LDFLAGS"] = "-L" + self.work + " -Wl,-rpath," + self.work
            self.late.append(lambda: run(cmd, cwd=GO, env=env))
        else:
            self.jobs.insert(0, lambda: run(cmd, cwd=GO, env=env))
        self.bins[name] = out
        return out

    def driver(self, name, race=False):
        """The conformance test driver, with the interpreters that are not built here replaced by an observed stand-in."""
        tosca = re.search(r"Fantom-foundation/Tosca => (\S+)", open(os.path.join(GO, "go.mod")).read()).group(1)
        rep = {}
        for d, stub, pkg in [("interpreter/geth", "target", "geth"), ("interpreter/evmzero", "target", "evmzero"), ("interpreter/evmrs", "target", "evmrs"), ("lib/cpp", "cpp", ""), ("lib/rust", "rust", ""), ("ct/driver", "driver", "")]:
            d = os.path.join(tosca, "go", d)
            if stub != "driver":
                rep.update({os.path.join(d, f): "" for f in os.listdir(d) if f.endswith(".go")})
            text = open(os.path.join(GO, "drvhook/overlay", stub + ".go.txt")).read().replace("PKG", pkg)
            path = os.path.join(self.work, "overlay-%s-%s.go" % (stub, pkg))
            with open(path, "w") as f:
                f.write(text)
            rep[os.path.join(d, "verif_overlay.go")] = path
        path = os.path.join(self.work, "overlay.json")
        with open(path, "w") as f:
            json.dump({"Replace": rep}, f)
        return self.go(name, "github.com/Fantom-foundation/Tosca/go/ct/driver", race=race, overlay=path)

    def build(self):
        with cf.ThreadPoolExecutor(max_workers=os.cpu_count() or 4) as ex:
            for f in cf.as_completed([ex.submit(j) for j in self.jobs]):
                f.result()
        for l in self.links:
            l()
        with cf.ThreadPoolExecutor(max_workers=3) as ex:
            for f in cf.as_completed([ex.submit(j) for j in self.late]):
                f.result()
