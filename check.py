#!/usr/bin/env python3
"""check.py <property id>: decide one property on /repo's current source.
Exit 0 held, 1 violated (VIOLATION line), 2 the analysis could not be carried out."""
import importlib, os, sys, time, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
from engine import facts
from engine.report import Rep


def run(pid):
    t0 = time.time()
    try:
        mod = importlib.import_module("engine.checks." + pid)
        rep = Rep(pid)
        prog = facts.program() if getattr(mod, "NEEDS_PROGRAM", True) else None
        mod.run(prog, rep)
        return rep.finish(prog, os.environ.get("VERIF_TIER", "quick"), int(os.environ.get("VERIF_SEED", "1") or 1))
    except facts.Broken as e:
        print("BROKEN property=%s: %s" % (pid, e))
        return 2
    except Exception:
        traceback.print_exc()
        print("BROKEN property=%s: internal error" % pid)
        return 2


if __name__ == "__main__":
    if sys.argv[1] == "all":
        d = os.path.join(os.path.dirname(os.path.abspath(__file__)), "engine/checks")
        bad = 0
        for f in sorted(os.listdir(d)):
            if f.startswith("C") and f.endswith(".py"):
                bad |= run(f[:-3])
        sys.exit(bad)
    sys.exit(run(sys.argv[1]))
