#!/usr/bin/env python3
"""Decide one property of /repo by static analysis of its current source."""
import importlib, os, sys, threading, time
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in sys.argv:
        tier = "thorough"
    repo = os.environ.get("FRDS_REPO", "/repo")
    from sa.ctx import Ctx
    mod = importlib.import_module("checks." + pid.lower())
    c = Ctx(pid, repo, tier)
    limit = float(os.environ.get("SA_BUDGET", "780" if tier == "quick" else "3300"))
    ctx.append((c, limit))
    try:
        mod.run(c)
        rc[0] = c.finish()
    except Exception:
        import traceback
        traceback.print_exc()
        print("check %s could not complete" % pid)
        rc[0] = 2


rc = [2]
ctx = []
if __name__ == "__main__":
    sys.setrecursionlimit(60000)
    threading.stack_size(1 << 29)
    th = threading.Thread(target=main)
    th.start()
    t0 = time.time()
    while th.is_alive():
        th.join(5)
        if ctx and th.is_alive() and time.time() - t0 > ctx[0][1]:
            c = ctx[0][0]
            c.unsure("remaining obligations", "-", "the time budget of %d s is used up" % ctx[0][1])
            rc[0] = c.finish()
            break
    sys.stdout.flush()
    os._exit(rc[0])
