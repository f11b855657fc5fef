#!/usr/bin/env python3
"""Decides one property: check.py <PID>. Reads VERIF_SEED and VERIF_TIER."""
import os, shutil, sys, tempfile, time, traceback

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import build, checks, core


def main():
    if len(sys.argv) != 2 or sys.argv[1] not in checks.CHECKS:
        print("usage: check.py <property>; known: " + " ".join(checks.CHECKS), file=sys.stderr)
        return 2
    pid = sys.argv[1]
    t0 = time.time()
    work = tempfile.mkdtemp(prefix="verif-%s-" % pid)
    try:
        c = checks.CHECKS[pid]
        ctx = checks.Context(pid, work, int(os.environ.get("VERIF_SEED", "1")), os.environ.get("VERIF_TIER", "quick") == "thorough")
        c.run(ctx)
        return core.finish(pid, c.level, c.rule, ctx.res, t0, c.need, c.assumptions)
    except build.BuildError as e:
        print("build failed:\n%s" % e, file=sys.stderr)
        return 2
    except core.HarnessError as e:
        print("harness failed:\n%s" % e, file=sys.stderr)
        return 2
    except Exception:
        traceback.print_exc()
        return 2
    finally:
        shutil.rmtree(work, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
