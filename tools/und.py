#!/usr/bin/env python3
"""tools/und.py CHECK SPEC.py|seeded ID..: what a check leaves undecided or reports on a patched scratch copy"""
import sys; sys.path.insert(0, __import__('os').path.dirname(__import__('os').path.abspath(__file__)))
from trial import edit
import json, os, runpy, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
chk, spec, ids = sys.argv[1], sys.argv[2], sys.argv[3:]
base = tempfile.mkdtemp(prefix="und", dir="/tmp")
bugs = {b["id"]: b for b in runpy.run_path(spec)["BUGS"]} if spec != "seeded" else {i: dict(id=i, patch="%s/seeded/%s/patch.diff" % (V, i)) for i in ids}
for i in ids:
    b = bugs[i]; t = base + "/" + i
    subprocess.check_call(["git", "clone", "-q", "/repo", t])
    if "patch" in b: subprocess.check_call(["git", "apply", b["patch"]], cwd=t)
    for f, o, n in b.get("edits", []):
        p = t + "/" + f; s = open(p).read(); s, k = edit(s, o, n); assert k == b.get("count", 1), (i, k, o); open(p, "w").write(s)
    r = subprocess.run([sys.executable, V + "/check.py", chk, "--repo", t, "--evidence", base], capture_output=True, text=True)
    print("=====", i, [l for l in r.stdout.splitlines() if l.startswith(chk)], r.returncode)
    for l in r.stdout.splitlines():
        pass
    for l in [l for l in r.stdout.splitlines() if l.startswith("  ")][:2]: print("   BAD", l[:300])
    d = json.load(open(base + "/" + chk + ".json"))
    for u in d["coverage"].get("undecided_items", [])[:int(os.environ.get("N", "6"))]:
        print("   UND %s | %s | %s | %s" % (u["rule"], u["subject"], u["why"][:400], u.get("where", "")[-90:]))
    if os.environ.get("KEEP"): print(t)
    else: shutil.rmtree(t)
if not os.environ.get("KEEP"): shutil.rmtree(base)
