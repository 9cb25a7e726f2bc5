#!/usr/bin/env python3
"""tools/trial.py [--checks C01,C02|own|all] (seeded [ID..] | SPEC.py [ID..]): run checks on patched scratch copies of /repo, in parallel.
For bugs the property's own check should report; for variants (property None) every check should be quiet."""
import json, os, re, shutil, subprocess, sys, runpy, tempfile
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def loose(o):
    toks = re.findall(r"\w+|[^\w\s]", o); out = []
    for i, t in enumerate(toks):
        if t in "'\"": out.append("['\"]")
        elif t in ")]}": out.append(r",?\s*" + re.escape(t)) if i and toks[i - 1] != "," else out.append(re.escape(t))
        else: out.append(re.escape(t))
    return r"\s*".join(out)
def edit(s, o, n, count=1):
    """The text with every match of o replaced (literally, or up to white space, quotes and trailing commas), and the number of matches."""
    if o in s: return s.replace(o, n), s.count(o)
    m = list(re.finditer(loose(o), s))
    return re.sub(loose(o), lambda _: n, s), len(m)
def prep(b, base):
    t = os.path.join(base, b["id"]); subprocess.check_call(["git", "clone", "-q", "/repo", t])
    if "patch" in b:
        subprocess.check_call(["git", "apply", b["patch"]], cwd=t)
    for f, o, n in b.get("edits", []):
        p = os.path.join(t, f); s = open(p).read()
        s2, k = edit(s, o, n)
        if k == 0 or b.get("count", 1) not in (None, k): return None, "EDIT MATCHES %d: %s" % (k, o[:70])
        open(p, "w").write(s2)
    r = subprocess.run("PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg PYTHONPATH=%s /opt/venv/bin/python -m unittest test.test_variable_importance" % t, shell=True, cwd=t, capture_output=True, text=True)
    return t, "" if r.returncode == 0 else "TESTS FAIL " + r.stderr[-200:]
def run(b, base, checks):
    t, msg = prep(b, base)
    if t is None: return b, [], msg
    ids = checks if checks != ["own"] else ([b["property"]] if b.get("property") else ["all"])
    r = subprocess.run([sys.executable, V + "/check.py"] + ids + ["--repo", t, "--evidence", base + "/ev-" + b["id"]], capture_output=True, text=True)
    hits = [l.split("property=")[1].split()[0] for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
    shutil.rmtree(t)
    return b, hits, msg + ("" if r.returncode in (0, 1) else " RC %d %s" % (r.returncode, (r.stdout[-300:] + r.stderr[-300:]))), r.stdout
def und_counts(out):
    return {m[1]: int(m[2]) for m in re.finditer(r"^(C\d+): .*?(\d+) undecided", out, re.M)}
def main():
    a = sys.argv[1:]; checks = ["own"]; verbose = False
    if "-v" in a: a.remove("-v"); verbose = True
    if a[0] == "--checks": checks = a[1].split(","); a = a[2:]
    src, want = a[0], set(a[1:])
    if src == "seeded":
        bugs = []
        for d in sorted(os.listdir(V + "/seeded")):
            m = json.load(open("%s/seeded/%s/meta.json" % (V, d))); bugs.append(dict(id=d, property=m["property"], patch="%s/seeded/%s/patch.diff" % (V, d)))
    else:
        bugs = runpy.run_path(src)["BUGS"]
    bugs = [b for b in bugs if not want or b["id"] in want]
    base = tempfile.mkdtemp(prefix="trial", dir="/tmp"); clean = {}
    if any(not b.get("property") for b in bugs):
        clean = und_counts(subprocess.run([sys.executable, V + "/check.py"] + (["all"] if checks == ["own"] else checks) + ["--evidence", base + "/ev"], capture_output=True, text=True).stdout)
    with ThreadPoolExecutor(int(os.environ.get("J", "7"))) as ex:
        for res in ex.map(lambda b: run(b, base, checks), bugs):
            b, hits, msg = res[:3]
            p = b.get("property")
            st = ("caught" if p in hits else "MISSED") if p else ("quiet" if not hits else "ALARM")
            if not p and len(res) > 3:
                u = {k: n for k, n in und_counts(res[3]).items() if n > clean.get(k, 0)}
                msg += " undecided %s" % u if u else ""
            print("%-28s %-5s %s %s %s" % (b["id"], p, st, hits, msg), flush=True)
            if (verbose or st == "ALARM") and len(res) > 3:
                print("\n".join(l[:260] for l in [l for l in res[3].splitlines() if l.startswith("  ")][:4]), flush=True)
    shutil.rmtree(base)
if __name__ == "__main__": main()
