#!/usr/bin/env python3-vt
"""usage: check.py <property id> [--tier quick|thorough]"""
import os, sys, time, traceback, resource
H = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(H, "engine"), os.path.join(H, "props")]
sys.setrecursionlimit(100000)


def main():
    pid = sys.argv[1]
    tier = sys.argv[sys.argv.index("--tier") + 1] if "--tier" in sys.argv else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    import spec
    rep = spec.Report(pid, tier, seed)
    ev = os.path.join(H, "evidence", pid + ".json")
    if os.path.exists(ev):
        os.unlink(ev)
    try:
        import registry
        registry.CHECKS[pid](rep)
        rc = spec.finish(rep)
    except Exception as e:
        if rep.violations:
            # a confirmed violation stands even if the rest could not be finished
            rc = spec.finish(rep)
        else:
            traceback.print_exc()
            print("ERROR", repr(e)[:2000])
            rc = 2
    sys.stdout.flush()
    os._exit(rc)


main()
