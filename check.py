#!/usr/bin/env python3
"""python3 check.py C01 [C02 ...|all] [--repo DIR] [--tier quick|thorough]: decide properties from /repo's source"""
import importlib
import os
import sys
import threading
import time

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))


def main():
    from vf import core
    from vf.loader import AnalysisBroken
    args = sys.argv[1:]
    repo = "/repo"
    tier = os.environ.get("VERIF_TIER", "quick")
    ids = []
    ed = os.path.join(core.VERIF, "evidence")
    while args:
        a = args.pop(0)
        if a == "--repo":
            repo = args.pop(0)
        elif a == "--tier":
            tier = args.pop(0)
        elif a == "--evidence":
            ed = args.pop(0)
        else:
            ids.append(a)
    from vf.checks import REGISTRY, PATHWISE
    if ids == ["all"]:
        ids = sorted(REGISTRY)
    budget = 3000 if tier == "thorough" else 400
    rc = 0
    sh = core.Shared(repo, time.time() + budget)
    for pid in ids:
        t0 = time.time()
        modname, floor = REGISTRY[pid]
        m = importlib.import_module("vf.checks." + modname)
        chk = core.Check(pid, sh, tier if tier in ("quick", "thorough") else "quick")
        fn = getattr(m, "check_" + pid)
        try:
            fn(chk)
            if pid in PATHWISE and chk.undecided and not chk.violations:
                core.pathwise(chk, fn, repo, sh.deadline)
            r = core.finish(chk, " ".join((fn.__doc__ or "").split()), t0, floor, ed, int(os.environ.get("VERIF_SEED", "1") or 1))
        except AnalysisBroken as ex:
            print("ERROR: %s: %s" % (pid, ex))
            r = 2
        rc = max(rc, r) if 1 not in (rc, r) else 1
    return rc


if __name__ == "__main__":
    sys.setrecursionlimit(100000)
    threading.stack_size(512 * 1024 * 1024)
    out = []

    def run():
        try:
            out.append(main())
        except Exception:
            import traceback
            traceback.print_exc()
            out.append(2)
    t = threading.Thread(target=run)
    t.start()
    from vf.core import watch
    watch(t)
    sys.stdout.flush()
    os._exit(out[0] if out else 2)
