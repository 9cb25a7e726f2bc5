#!/usr/bin/env python3
"""tools/seed.py SPEC.py [ID...]: turn bug specifications into seeded/<id>/ after confirming each in a scratch copy of /repo.
A spec defines BUGS = [dict(id, property, needs, breaks, edits=[(file, old, new)], demo="python source")]."""
import sys; sys.path.insert(0, __import__('os').path.dirname(__import__('os').path.abspath(__file__)))
from trial import edit
import json, os, shutil, subprocess, sys, runpy, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PRE = '''import os, sys, warnings
warnings.filterwarnings("ignore")
import numpy as np, pandas as pd
import matplotlib; matplotlib.use("Agg")
from matplotlib import pyplot as plt
'''
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg")
SH = '''#!/bin/bash
# exit 0: behaviour intact; nonzero: broken
export PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg PYTHONPATH="$PWD" OMP_NUM_THREADS=1
exec timeout 280 /opt/venv/bin/python "$(dirname "$0")/demo.py"
'''
def sh(c, cwd):
    return subprocess.run(c, shell=True, cwd=cwd, env=ENV, capture_output=True, text=True)
def tests(cwd):
    names = [n for n in json.load(open("/opt/vp/BASELINE.json")).get("stable", [])] if False else []
    r = sh("PYTHONPATH=%s /opt/venv/bin/python -m unittest test.test_variable_importance" % cwd, cwd)
    return r.returncode == 0, r.stderr[-300:]
def main():
    spec = runpy.run_path(sys.argv[1]); want = set(sys.argv[2:])
    wt = tempfile.mkdtemp(prefix="seed", dir="/tmp"); tree = os.path.join(wt, "repo")
    subprocess.check_call(["git", "clone", "-q", "/repo", tree])
    for b in spec["BUGS"]:
        if want and b["id"] not in want: continue
        sh("git checkout -q -- .", tree)
        d = tempfile.mkdtemp(prefix="dm", dir=wt)
        open(d + "/demo.py", "w").write(PRE + b["demo"]); open(d + "/demo.sh", "w").write(SH); os.chmod(d + "/demo.sh", 0o755)
        r0 = sh("bash %s/demo.sh" % d, tree)
        ok = True
        for f, o, n in b["edits"]:
            p = os.path.join(tree, f); s = open(p).read()
            s2, k = edit(s, o, n)
            if k != 1: print(b["id"], "EDIT MATCHES", k, f, o[:60]); ok = False; break
            open(p, "w").write(s2)
        if not ok: continue
        r1 = sh("bash %s/demo.sh" % d, tree); t, err = tests(tree)
        good = r0.returncode == 0 and r1.returncode not in (0, 124) and t
        print(b["id"], b["property"], "OK" if good else "BAD", "base rc", r0.returncode, "patched rc", r1.returncode, "tests", t)
        print("    ", (r1.stderr or r1.stdout).strip().splitlines()[-1:] )
        if not good: print(r0.stderr[-600:], r1.stdout[-300:], err if not t else ""); continue
        out = os.path.join(V, "seeded", b["id"]); os.makedirs(out, exist_ok=True)
        open(out + "/patch.diff", "w").write(sh("git diff", tree).stdout)
        for x in ("demo.py", "demo.sh"): shutil.copy(d + "/" + x, out)
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(out + "/meta.json", "w"), indent=1)
    shutil.rmtree(wt)
main()
