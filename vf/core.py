"""Check driver: obligations, verdicts, evidence.

A check walks obligations.  Each obligation ends as discharged, violated (a resolved construct of the source contradicts
the rule) or undecided (the analysis cannot resolve the construct: counted in the evidence, never an alarm).
"""
import json
import os
import sys
import time
import traceback

from .interp import Interp
from .loader import AnalysisBroken
from .terms import show, T, SHOWN, walk, children

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Shared:
    """one analysed tree, shared by the checks run in one process"""

    def __init__(self, repo, deadline=None, facts=()):
        self.repo = repo
        self.facts = facts         # (place of a test, value): only paths on which the test has that value are analysed
        self._eng = None
        self.deadline = deadline
        self.runs = {}

    @property
    def eng(self):
        if self._eng is None:
            self._eng = Interp(self.repo)
            self._eng.forced = dict(self.facts)
        return self._eng


def cond_atoms(c):
    if c.op in ("and", "or", "not"):
        return {y for x in children(c) for y in cond_atoms(x)}
    if c.op == "const" or c.size > 400 or any(y.op in ("loopin", "loopout", "opaque", "caught", "mut") for y in walk(c)):
        return set()
    return {c}


class Check:
    def __init__(self, pid, shared, tier="quick"):
        self.pid, self.sh, self.tier = pid, shared, tier
        self.obligations = []      # (rule, subject)
        self.discharged = 0
        self.violations = []
        self.undecided = []
        self.counts = {}
        self.notes = []
        self.scenarios = set()
        self.functions = set()
        self.conds = {}

    @property
    def eng(self):
        return self.sh.eng

    @property
    def thorough(self):
        return self.tier == "thorough"

    def count(self, what, n=1):
        self.counts[what] = self.counts.get(what, 0) + n

    def ob(self, rule, subject, ok, msg="", where="", **witness):
        """ok: True discharged, False violated, None undecided"""
        where = where or ""
        self.obligations.append((rule, subject, {True: "discharged", False: "violated", None: "undecided"}[ok]))
        if ok is True:
            self.discharged += 1
        elif ok is None:
            self.conditions(SHOWN)
            self.undecided.append({"rule": rule, "subject": subject, "why": msg, "where": where})
        else:
            w = {k: (show(v, 12) if isinstance(v, T) else v) for k, v in witness.items()}
            key = (rule, subject, where, msg)
            if key not in [v["key"] for v in self.violations]:
                self.violations.append({"key": key, "rule": rule, "subject": subject, "where": where, "what": msg, "witness": w})
        del SHOWN[:]
        return ok

    def conditions(self, ts):
        """conditions that gate the values an undecided obligation is about"""
        found = set()
        for t in ts:
            for x in walk(t):
                if x.op == "phi":
                    found |= cond_atoms(x.a[0])
        for c in found:
            self.conds[c] = self.conds.get(c, 0) + 1

    def bad(self, rule, subject, msg, where="", **w):
        return self.ob(rule, subject, False, msg, where, **w)

    def good(self, rule, subject):
        return self.ob(rule, subject, True)

    def und(self, rule, subject, why, where=""):
        return self.ob(rule, subject, None, why, where)

    def seen(self, run):
        self.scenarios.add(run.name)
        for e in run.log:
            if e.func:
                self.functions.add(e.func)

    def guard(self, rule, subject, f, *a):
        """run one analysis step; a failure inside the analysis is undecided, a vanished public anchor is an error"""
        outer = _step[0]
        try:
            if self.sh.deadline and time.time() > self.sh.deadline:
                self.und(rule, subject, "time budget used up")
                return None
            if outer is None:
                _step[0] = time.time()
            return f(*a)
        except AnalysisBroken:
            raise
        except RecursionError:
            self.und(rule, subject, "analysis too deep")
        except Exception as ex:
            tb = traceback.extract_tb(ex.__traceback__)[-1]
            self.und(rule, subject, "analysis failed: %r at %s:%s" % (ex, os.path.basename(tb.filename), tb.lineno))
            if os.environ.get("VF_DEBUG"):
                traceback.print_exc()
        finally:
            _step[0] = outer
        return None


STEP_BUDGET = 60
_step = [None]            # start of the analysis step under way


def watch(t):
    """wait for the analysis thread; a step that exceeds its time budget is interrupted and becomes undecided"""
    import ctypes
    from .engine import TooComplex
    while t.is_alive():
        t.join(2)
        t0 = _step[0]
        if t.is_alive() and t0 is not None and time.time() - t0 > STEP_BUDGET:
            _step[0] = time.time()
            ctypes.pythonapi.PyThreadState_SetAsyncExc(ctypes.c_ulong(t.ident), ctypes.py_object(TooComplex))


LEVELS = {}


def load_known():
    p = os.path.join(VERIF, "known_findings.txt")
    out = []
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("known:"):
                out.append(l[len("known:"):].strip())
    return out


def pathwise(chk, fn, repo, deadline):
    """Undecided obligations about a value gated by a condition are decided again on the paths where the condition holds and on
    those where it does not.  A violation on such a path is a violation of the program."""
    open_ = {(u["rule"], u["subject"]) for u in chk.undecided}
    at = {}
    for c, where in chk.eng.tests:
        for x in cond_atoms(c):
            at.setdefault(x, set()).add(where)
    score, text = {}, {}
    for c, n in chk.conds.items():
        for w in at.get(c, ()):
            score[w] = score.get(w, 0) + n
            text.setdefault(w, show(c, 6))
    t0 = time.time()
    cost = 0
    for w in sorted(score, key=lambda w: (-score[w], str(w)))[:5]:
        for v in (True, False):
            now = time.time()
            if deadline and now + 1.5 * cost > deadline or now - t0 > 200:
                return
            sub = Check(chk.pid, Shared(repo, deadline, ((w, v),)), chk.tier)
            try:
                fn(sub)
            except AnalysisBroken:
                continue
            cost = max(cost, time.time() - now)
            hit = [x for x in sub.violations if (x["rule"], x["subject"]) in open_]
            for x in hit:
                chk.bad(x["rule"], x["subject"], "%s (on paths where the test at %s:%s, %s, is %s)" % (x["what"], w[0], w[1], text[w], v), x["where"])
            if hit:
                return


def finding_id(v):
    """stable identity: rule + subject + function (no line numbers)"""
    fn = v["where"][v["where"].find("(") + 1:-1] if "(" in v["where"] else v["where"]
    return "%s | %s | %s" % (v["rule"], v["subject"], fn)


def finish(chk, rule_text, t0, floor, evidence_dir, seed, level="other"):
    known = [k[len("property=%s" % chk.pid):].strip() for k in load_known() if k.startswith("property=%s " % chk.pid)]
    fresh, old = [], []
    for v in chk.violations:
        (old if finding_id(v) in known else fresh).append(v)
    by = {}
    for r, s, o in chk.obligations:
        d = by.setdefault(r, {"discharged": 0, "violated": 0, "undecided": 0})
        d[o] += 1
    samples = []
    seen = set()
    for r, s, o in chk.obligations:
        if r not in seen or len(samples) < 6:
            seen.add(r)
            samples.append("%s: %s -> %s" % (r, s, o))
    ev = {
        "property": chk.pid, "tier": chk.tier, "seed": seed, "level": level,
        "coverage": {
            "explanation": rule_text, "rule": rule_text,
            "obligations": len(chk.obligations), "discharged": chk.discharged,
            "undecided": len(chk.undecided), "undecided_items": chk.undecided[:40],
            "by_rule": by, "counts": chk.counts,
            "scenarios": len(chk.scenarios), "functions_reached": len(chk.functions),
            "modules_parsed": len(chk.eng.modules), "samples": samples[:25],
            "known_findings": [finding_id(v) for v in old],
        },
        "assumptions": ASSUME,
        "wall_s": round(time.time() - t0, 3), "violations": len(fresh),
    }
    os.makedirs(evidence_dir, exist_ok=True)
    p = os.path.join(evidence_dir, chk.pid + ".json")
    with open(p, "w") as f:
        json.dump(ev, f, indent=1, default=str)
    for v in old:
        print("KNOWN-FINDING: property=%s %s" % (chk.pid, finding_id(v)))
    rc = 0
    rp = os.path.join(evidence_dir, chk.pid + ".violations.json")
    if os.path.exists(rp):
        os.remove(rp)
    if fresh:
        rp = os.path.join(evidence_dir, chk.pid + ".violations.json")
        with open(rp, "w") as f:
            json.dump([{k: x for k, x in v.items() if k != "key"} for v in fresh], f, indent=1, default=str)
        for v in fresh[:20]:
            print("  [%s] %s: %s  @ %s" % (v["rule"], v["subject"], v["what"], v["where"]))
            for k, x in v["witness"].items():
                print("      %s: %s" % (k, str(x)[:400]))
        print("VIOLATION property=%s replay=%s" % (chk.pid, rp))
        rc = 1
    elif len(chk.obligations) < floor:
        print("ERROR: only %d obligations found, at least %d expected: the analysis lost its anchors" % (len(chk.obligations), floor))
        rc = 2
    elif chk.discharged == 0:
        print("ERROR: nothing could be decided")
        rc = 2
    print("%s: %d obligations, %d discharged, %d undecided, %d violated, %.1f s" % (
        chk.pid, len(chk.obligations), chk.discharged, len(chk.undecided), len(fresh), time.time() - t0))
    return rc


ASSUME = [
    "the library semantics table in vf/ (pandas, numpy, sklearn, matplotlib calls: which return views, which mutate, which draw)",
    "the package is used through its public API; monkey-patching, subclasses defined by the caller and threads are not considered",
    "values of loops are summarised by an inductive (havoc + carry) abstraction; constructs it cannot resolve are reported as undecided, not as violations",
]
