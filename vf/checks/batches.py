"""C12: the batch state machine of the partial dependence calculator, as an inductive lock-step invariant.

Per calculation the following is established on the value-flow terms of the loops:
  lock-step   running length == number of rows of the accumulated frame, before and after every iteration of every loop
  range       a registered range is exactly the rows of the frame appended with it
  flush       whenever accumulated rows are dropped, the rows dropped are exactly those just sent to the model, and the
              registered ranges are dropped with them (and only then)
  final       after the loops the remaining rows are sent to the model unless there are none
  fill        every registered range of the batch is averaged over exactly its own predictions
  request     every requested value that is still missing is registered
"""
from .. import pdterms as pt
from .. import query as q
from .. import suites as S
from ..query import param
from ..terms import (T, subst, mk, const, NONE, TRUE, FALSE, is_const, cval, walk, show, strip_conv, assume, add_fact, mk_len, mk_not,
                     children)

CACHE_ATTR = {"single": "pd_single", "pairs": "pd_pairs", "minus": "pd_minus_single"}
KINDS = {"single": "single", "pairs": "pair", "minus": "minus"}
CUTS = ("head", "tail", "sample", "nlargest", "nsmallest", "islice", "drop", "dropna", "truncate")


class Und(Exception):
    pass


# ---------------------------------------------------------------- frames as row sequences
def strip_frame(t):
    while True:
        if t.op == "copy":
            t = t.a[0]
        elif t.op == "conv" and t.a[0] in ("DataFrame",):
            t = t.a[1]
        elif t.op == "m" and t.a[0] in ("reset_index", "copy", "astype"):
            t = t.a[1]
        elif t.op == "call" and t.a[0] == "pandas.DataFrame" and len(t.a[1]) == 1 and t.a[1][0].op in ("loopin", "loopout", "call"):
            t = t.a[1][0]
        else:
            return t


def is_empty_frame(t):
    if t.op == "call" and t.a[0] == "pandas.DataFrame":
        if not t.a[1] and all(k in ("columns", "dtype", "index") for k, _ in t.a[2]):
            return True
        if len(t.a[1]) == 1 and t.a[1][0].op in ("list", "dict", "tuple") and not t.a[1][0].a:
            return True
        d = dict(t.a[2]).get("data")
        if d is not None and d.op in ("list", "dict", "tuple") and not d.a:
            return True
    if t.op == "iloc" and len(t.a) > 1 and t.a[1].op == "slice" and all(is_const(x) and cval(x) in (0, None) for x in t.a[1].a) and cval(t.a[1].a[1]) == 0:
        return True
    return False


def concat_parts(t):
    """parts of a row-wise concatenation, or None"""
    if t.op == "call" and t.a[0] == "pandas.concat":
        kw = dict(t.a[2])
        objs = kw.get("objs", t.a[1][0] if t.a[1] else None)
        ax = kw.get("axis", t.a[1][1] if len(t.a[1]) > 1 else None)
        if objs is None or (ax is not None and not (is_const(ax) and cval(ax) in (0, "index", "rows"))):
            return None
        objs = strip_conv(objs)
        if objs.op in ("list", "tuple") and all(x.op != "seg" for x in objs.a):
            return list(objs.a)
        return None
    if t.op == "m" and t.a[0] in ("append", "_append") and len(t.a[2]) == 1:
        o = strip_conv(t.a[2][0])
        if o.op in ("list", "tuple") and all(x.op != "seg" for x in o.a):
            return [t.a[1]] + list(o.a)
        return [t.a[1], o]
    return None


def seq(t):
    """the frame as a list of atomic row blocks"""
    t = strip_frame(t)
    if is_empty_frame(t):
        return []
    p = concat_parts(t)
    if p is not None:
        return [a for x in p for a in seq(x)]
    return [t]


def base(t):
    """the data whose rows (all of them, in order) a modified block consists of"""
    while True:
        t = strip_frame(t)
        if t.op in ("store", "storeloc", "storecols", "assignmap", "assignsym", "storelocmap"):
            t = t.a[0]
        elif t.op == "storemap":
            t = t.a[1]
        elif t.op == "loopout" and len(t.a) > 2:        # columns assigned in a loop: rows unchanged
            pre, post, inn = t.a[1], t.a[2], t.a[3]
            if base(post) is inn or (post.op == "phi" and all(base(x) is inn for x in post.a[1:])):
                t = pre
            else:
                return t
        else:
            return t


class Batch:
    def __init__(self, chk, it):
        self.chk, self.it = chk, it
        self.run = it.run
        self.kind = it.meta["cache"]
        self.X = param("X", "frame")
        self.recs = [r for r in self.run.loops if r["seq"] >= self.start()]
        self.collect()

    def start(self):
        return self.run.marks.get("op", 0) if hasattr(self.run, "marks") and isinstance(self.run.marks, dict) else 0

    def collect(self):
        self.fills, self.odd = [], []
        self.flushes = []
        for e in self.run.log:
            if e.kind == "mutate" and e.path is not None:
                c = pt.cache_read(e.path)
                if c is not None and e.how in ("setitem", "setloc"):
                    f = self.fill(e, c)
                    (self.fills if f else self.odd).append(f or e)
            if e.kind == "ext" and e.result is not None:
                d = pt.is_prediction(e.result)
                if d is not None:
                    self.flushes.append((e, d))

    def fill(self, e, c):
        v = strip_conv(e.value)
        if v.op == "call" and v.a[0] in ("float", "numpy.float64") and len(v.a[1]) == 1:
            v = v.a[1][0]
        if not (v.op == "red" and v.a[0] in ("mean", "nanmean") and not v.a[2]):
            return None
        x = strip_conv(v.a[1])
        if x.op in ("idx", "iloc") and x.a[1].op == "slice" and (len(x.a[1].a) < 3 or x.a[1].a[2] is NONE):
            p = strip_conv(x.a[0])
            if p.op == "attr" and p.a[1] == "values":
                p = p.a[0]
            if p.op == "m" and p.a[0] in ("to_numpy", "ravel", "flatten", "copy"):
                p = p.a[1]
            fr = pt.is_prediction(p)
            if fr is not None:
                return dict(e=e, kind=c[0], key=c[1], idx=e.key, frame=fr, pred=p, a=x.a[1].a[0], b=x.a[1].a[1])
        fr = pt.is_prediction(x)
        if fr is not None:                                # the whole prediction: a batch of one block
            return dict(e=e, kind=c[0], key=c[1], idx=e.key, frame=fr, pred=x, a=None, b=None)
        return None

    # ------------------------------------------------------------ variables
    def variables(self):
        """frame variable and running length of every loop that carries them"""
        self.F, self.L = {}, {}
        names = set()
        for _, d in self.flushes:
            for x in walk(d):
                if x.op == "loopin":
                    names.add((x.a[0], x.a[1]))
        lens = set()
        for f in self.fills:
            for t in (f["a"], f["b"]):
                if t is not None:
                    for k in pt.lin(t):
                        if k is not None and k.op == "loopin":
                            lens.add(k.a[1])
        for r in self.recs:
            for k, v in r["vars"].items():
                if k[0] != "var" or v[0] != "term":
                    continue
                if not (v[2].op == "loopin"):
                    continue
                nm = v[2].a[1]
                if (r["uid"], nm) in names and self.framelike(v):
                    if r["uid"] in self.F and self.F[r["uid"]][0] != nm:
                        raise Und("two frames are carried by one loop")
                    self.F[r["uid"]] = (nm, v[1], v[2], v[3], r)
                elif nm in lens:
                    self.L[r["uid"]] = (nm, v[1], v[2], v[3])
        self.lens = lens

    def framelike(self, v):
        for x in walk(v[3]):
            if is_empty_frame(x) or concat_parts(x) is not None:
                return True
        return any(x.op == "loopin" and x is not v[2] for x in walk(v[3]))

    def root(self, t, seen=()):
        """the data whose rows a block consists of, followed through variables that are modified column by column in loops"""
        t = base(t)
        if t.op == "loopin" and t not in seen:
            v = self.var(t)
            if v is not None and self.root(v[3], seen + (t,)) is t:
                return self.root(v[1], seen + (t,))
        if t.op == "loopout" and t.a[3].op == "loopin" and t not in seen:
            if self.root(t.a[2], seen + (t, t.a[3])) is t.a[3]:
                return self.root(t.a[1], seen + (t,))
        if t.op == "phi":
            rs = [self.root(x, seen) for x in t.a[1:]]
            if rs[0] is rs[1]:
                return rs[0]
        return t

    def var(self, t):
        """the loop record entry of a loop-carried variable"""
        for r in self.recs:
            if r["uid"] == t.a[0]:
                for k, v in r["vars"].items():
                    if k[0] == "var" and v[0] == "term" and v[2] is t:
                        return v
        return None

    # ------------------------------------------------------------ row counts
    def N1(self, t):
        if t.op == "loopin" and (t.a[0] in self.F and self.F[t.a[0]][2] is t):
            return {mk("len", t): 1}
        if t.op == "loopout":
            u = t.a[3].a[0] if t.a[3].op == "loopin" else None
            if u in self.F:
                if t.a[2].op != "phi":
                    d = pt.plus(self.N(t.a[2]), self.N(t.a[3]), -1)
                    if all(k is None or k.op == "len" and k.a[0].op not in ("loopin", "loopout") for k in d):
                        out = self.N(t.a[1])
                        for k, c in d.items():
                            body = k if k is not None else const(1)
                            out = pt.plus(out, {mk("sum", t.a[0], body): c})
                        return out
                return {mk("len", t): 1}
        return {mk_len(self.root(t)): 1}

    def N(self, t):
        out = {}
        for x in seq(t):
            out = pt.plus(out, self.N1(x))
        return out

    def rw(self, d):
        """linear form with running lengths replaced by the row counts they track"""
        out = {}
        for k, c in d.items():
            out = pt.plus(out, self.rw1(k), c)
        return out

    def rw1(self, k):
        if k is None:
            return {None: 1}
        if k.op == "loopin":
            u = k.a[0]
            if u in self.L and self.L[u][0] == k.a[1] and u in self.F:
                return {mk("len", self.F[u][2]): 1}
            # carried under another loop's name (a value stored in an earlier pass over the loop)
            if k.a[1] in self.lens and u in self.F:
                return {mk("len", self.F[u][2]): 1}
        if k.op == "loopout" and k.a[3].op == "loopin":
            u = k.a[3].a[0]
            if u in self.L and u in self.F and self.L[u][0] == k.a[3].a[1]:
                nm, pre, inn, post, r = self.F[u]
                return {mk("len", mk("loopout", k.a[0], pre, post, inn, *k.a[4:])): 1}
        if k.op == "len":
            return self.N(k.a[0])
        if k.op == "idx" and k.a[0].op == "attr" and k.a[0].a[1] == "shape" and is_const(k.a[1]) and cval(k.a[1]) == 0:
            return self.N(k.a[0].a[0])
        return {k: 1}

    def known(self, d):
        """every atom of the linear form is one the analysis understands"""
        for k in d:
            if k is None or k.op in ("len", "sum"):
                continue
            if k.op in ("loopin", "loopout"):
                continue
            if k.op == "param":
                continue
            return False
        return True

    def cases(self, *ts):
        """[(facts, terms)] split on the conditions that select a variable's value"""
        out = []

        def top(t, d=0):
            if t.op == "phi":
                c = t.a[0]
                while c.op in ("and", "or", "not"):
                    c = c.a[0]
                return c
            if d < 4 and t.op in ("call", "m", "tuple", "list", "bin", "copy"):
                for x in children(t):
                    c = top(x, d + 1)
                    if c is not None:
                        return c
            if t.op == "store":
                return top(t.a[0], d + 1)
            if t.op in ("dict", "ents"):
                return None
            return None

        def go(ts, facts, cs):
            if len(out) > 64:
                raise Und("too many cases")
            c = None
            for t in ts:
                c = top(t)
                if c is not None:
                    break
            if c is None:
                out.append((facts, cs, ts))
                return
            for v in (True, False):
                f = add_fact(facts, c, v)
                t2 = tuple(assume(t, f) for t in ts)
                if t2 == ts:
                    raise Und("a condition cannot be resolved: %s" % show(c, 4))
                go(t2, f, cs + ((c, v),))
        go(tuple(ts), {}, ())
        return out


def same(a, b):
    return not pt.plus(a, b, -1)


def fmt(d):
    return " + ".join(("%g*" % c if c != 1 else "") + ("1" if k is None else show(k, 4)) for k, c in d.items()) or "0"


# ---------------------------------------------------------------- the rules
# methods of a frame that drop or move rows
RESHAPED = ("drop_duplicates", "dropna", "sample", "sort_values", "sort_index", "head", "tail", "query", "nlargest", "nsmallest")


def batching(chk, it):
    b = Batch(chk, it)
    name = it.name
    if not b.flushes:
        return chk.und("flush", name, "no prediction call found")
    if not b.fills:
        return chk.und("fill", name, "no store of an average prediction into the %s cache found" % b.kind)
    for e in b.odd:
        if e.key is not None and e.value is not None:
            chk.und("fill", name, "a value of unknown form is stored: %s" % show(e.value, 4), e.where())
    for f in b.fills:
        d = strip_conv(f["frame"])
        if f["a"] is not None and d.op == "m" and d.a[0] in RESHAPED:
            return chk.bad("fill", name, "ranges counted on the batch are read from the predictions of its %s()" % d.a[0], f["e"].where())
    b.variables()
    if not b.F:
        direct(chk, b)
        return
    r = lockstep(chk, b)
    ranges(chk, b, r)
    flushing(chk, b)
    final(chk, b)
    filling(chk, b)
    requests(chk, b)


def direct(chk, b):
    """no accumulation across iterations: every prediction is used at once"""
    name = b.it.name
    whole = True
    for f in b.fills:
        blocks = seq(f["frame"])
        whole = whole and f["a"] is None and len(blocks) == 1 and b.root(blocks[0]) is b.X
        if f["a"] is None:
            if len(blocks) == 1 and b.root(blocks[0]) is b.X:
                chk.good("range", name)
            else:
                chk.und("range", name, "frame %s" % show(f["frame"], 4), f["e"].where())
        else:
            chk.und("range", name, "ranges without an accumulated frame", f["e"].where())
    if whole:
        requests(chk, b)


def lockstep(chk, b):
    name = b.it.name
    ok = True
    for u, (nm, pre, inn, post, rec) in sorted(b.F.items(), key=lambda x: x[0]):
        where = "%s:%s (%s)" % rec["where"] if isinstance(rec["where"], tuple) else rec["where"]
        if u not in b.L:
            if b.lens and not any(uu in b.L for uu in b.F):
                continue
            if b.lens:
                # the running length is not changed by this loop although the frame is
                chk.und("lock-step", "%s, %s" % (name, nm), "the loop carries the frame but no running length", where)
                ok = None
            continue
        ln, lpre, linn, lpost = b.L[u]
        a, c = b.rw(pt.lin(lpre)), b.rw(b.N(pre))
        subj = "%s: %s and %s in the loop over %s" % (name, ln, nm, show(rec["it"], 3))
        if not same(a, c):
            if b.known(a) and b.known(c):
                chk.bad("lock-step", subj, "when the loop starts %s is %s but the frame has %s rows" % (ln, fmt(a), fmt(c)), where)
            else:
                chk.und("lock-step", subj, "start: %s against %s" % (fmt(a), fmt(c)), where)
            ok = False
            continue
        good = True
        for facts, cs, (fp, lp) in b.cases(post, lpost):
            a, c = b.rw(pt.lin(lp)), b.rw(b.N(fp))
            if not same(a, c):
                good = False
                if b.known(a) and b.known(c):
                    chk.bad("lock-step", subj, "after an iteration %s is %s but the frame has %s rows%s" % (ln, fmt(a), fmt(c), when(cs)), where)
                else:
                    chk.und("lock-step", subj, "step: %s against %s" % (fmt(a), fmt(c)), where)
        if good:
            chk.good("lock-step", subj)
        else:
            ok = False
    return ok


def when(cs):
    return " (when %s)" % " and ".join(("" if v else "not ") + show(c, 4) for c, v in cs) if cs else ""


def registrations(b):
    """effects that record a range: (effect, start, end, other members)"""
    out = []
    for e in b.run.log:
        if e.kind != "mutate" or e.path is not None or not e.loops:
            continue
        ms = members(e)
        pos = [m for m in ms if any(k is not None and (k.op == "loopin" and k.a[1] in b.lens or
                                                      k.op == "len" and any(x.op == "loopin" for x in walk(k))) for k in lin_all(m))]
        if len(pos) == 2:
            out.append((e, pos[0], pos[1], [m for m in ms if m not in pos]))
        elif len(pos) == 1 and pos[0].op != "phi":
            out.append((e, pos[0], None, [m for m in ms if m not in pos]))
    return out


def lin_all(t):
    if t.op == "phi":
        return list(lin_all(t.a[1])) + list(lin_all(t.a[2]))
    return list(pt.lin(t))


def members(e):
    out = []

    def flat(t):
        t = strip_conv(t)
        if t.op in ("tuple", "list"):
            for x in t.a:
                flat(x)
        elif t.op == "slice":
            for x in t.a:
                if x is not NONE:
                    flat(x)
        else:
            out.append(t)
    for t in (e.key, e.value):
        if isinstance(t, T):
            flat(t)
    return out


def frame_loop(b, e):
    """innermost loop around the effect that carries the frame"""
    for l in reversed(e.loops):
        if l[2] in b.F:
            return l[2]
    return None


def ranges(chk, b, invariant):
    name = b.it.name
    b.regs = registrations(b)
    if not b.regs:
        chk.und("range", name, "no registration of a range found")
        return
    for e, s, t, other in b.regs:
        u = frame_loop(b, e)
        if u is None:
            chk.und("range", name, "a range is registered outside of the loops that build the frame", e.where())
            continue
        nm, pre, inn, post, rec = b.F[u]
        facts0 = {}
        for g in e.guards:
            facts0 = add_fact(facts0, g, True)
        fp0 = assume(post, facts0)
        for facts, cs, (fp, s1, t1) in b.cases(fp0, s, t if t is not None else NONE):
            blocks = seq(fp)
            a = b.rw(pt.lin(s1))
            if t is None:
                chk.und("range", name, "only the start of a range is registered", e.where())
                continue
            z = b.rw(pt.lin(t1))
            if inn not in blocks:
                # rows of this iteration were dropped or flushed: judged by the flush rule, against the kept frame
                kept = [seq(x) for _, _, (x,) in b.cases(fp0) if inn in seq(x)]
                if len(kept) != 1 and blocks:
                    chk.und("range", name, "frame after registration: %s" % show(fp, 4), e.where())
                    continue
                if not blocks:
                    if not kept:
                        chk.und("range", name, "no case keeps the frame", e.where())
                        continue
                    blocks = kept[0]
            if blocks and inn in blocks and blocks[0] is not inn:
                chk.bad("range", name, "rows are put in front of the accumulated frame, so the ranges registered earlier move", e.where(), frame=fp)
                continue
            bound = {}
            out = [bound]
            for x in blocks:
                bound = pt.plus(bound, b.rw(b.N1(x)))
                out.append(bound)
            hit = [i for i in range(len(blocks)) if same(out[i], a) and same(out[i + 1], z)]
            hit = [i for i in hit if blocks[i] is not inn]
            if hit:
                bs = b.root(blocks[hit[0]])
                if bs is b.X:
                    chk.good("range", "%s: %s" % (name, show(e.key, 3) if isinstance(e.key, T) else ""))
                else:
                    r = cut(bs)
                    if r:
                        chk.bad("range", name, "the block of a value is %s, not all rows of the data" % show(bs, 4), e.where())
                    else:
                        chk.und("range", name, "block %s" % show(bs, 4), e.where())
            elif b.known(a) and b.known(z) and all(b.known(x) for x in out):
                chk.bad("range", name, "the registered range [%s, %s) is not the rows appended with it (frame: %s)%s" % (
                    fmt(a), fmt(z), " ++ ".join(show(x, 3) for x in blocks), when(cs)), e.where())
            else:
                chk.und("range", name, "range [%s, %s) in %s" % (fmt(a), fmt(z), show(fp, 3)), e.where())


def cut(t):
    """does the term take a proper part of a sequence?"""
    for x in walk(t):
        if x.op in ("idx", "iloc") and len(x.a) > 1 and isinstance(x.a[1], T) and x.a[1].op == "slice":
            if any(not (is_const(y) and cval(y) is None) for y in x.a[1].a[:2]):
                return x
        if x.op == "m" and x.a[0] in CUTS:
            return x
        if x.op == "call" and x.a[0].split(".")[-1] in CUTS:
            return x
        if x.op == "draw":
            return x
    return None


def flushing(chk, b):
    """rows leave the accumulated frame only after the model has seen exactly them"""
    name = b.it.name
    b.dropconds = set()
    for u, (nm, pre, inn, post, rec) in sorted(b.F.items(), key=lambda x: x[0]):
        where = "%s:%s (%s)" % rec["where"] if isinstance(rec["where"], tuple) else rec["where"]
        cs_all = b.cases(post)
        kept = [(f, cs, seq(t)) for f, cs, (t,) in cs_all if keeps(seq(t), inn)]
        drops = [(f, cs, seq(t)) for f, cs, (t,) in cs_all if not keeps(seq(t), inn)]
        b.dropconds |= {c if v else mk_not(c) for f, cs, blocks in drops for c, v in cs if missing_test(c, b) is None}
        for f, cs, blocks in drops:
            subj = "%s: %s dropped in the loop over %s" % (name, nm, show(rec["it"], 3))
            # what the frame would have been without the drop: the kept case that agrees on the most conditions
            best = None
            for f2, cs2, bl in kept:
                d2 = dict(cs2)
                agree = 0
                for c, v in cs:
                    if c in d2 and d2[c] == v:
                        agree += 1
                    else:
                        break
                if best is None or agree > best[0]:
                    best = (agree, bl)
            full = best[1] if best else None
            if full is None:
                chk.und("flush", subj, "no iteration keeps the rows", where)
                continue
            verdict, why = None, "no flush in this loop"
            seen_in_loop = False
            for e, d in b.flushes:
                if u not in [l[2] for l in e.loops]:
                    continue
                seen_in_loop = True
                gs = [assume(g, f) for g in e.guards]
                if any(g is FALSE for g in gs):
                    continue
                rest = [g for g in gs if g is not TRUE]
                for f2, cs2, (d2,) in b.cases(assume(d, f)):
                    rest = [g for g in rest if nonempty(b, g, d2) is not True]
                    if any(nonempty(b, g, d2) is False for g in rest):
                        if verdict is None:
                            verdict = False
                            why = "the rows are dropped but were sent to the model only if %s" % " and ".join(show(g, 4) for g in rest)
                        continue
                    part = [x for x in seq(d2) if x.op in ("m", "iloc", "idx", "rows") and cut(mk(x.op, *[y for y in x.a])) is x]
                    if part:
                        if verdict is None:
                            verdict = False
                            why = "only %s of the accumulated rows is sent to the model" % names(part)
                        continue
                    got = seq(d2) + blocks
                    if got == full:
                        verdict = True if not rest else (verdict or None)
                        why = "flush under %s" % [show(g, 3) for g in rest] if rest else why
                    elif all(resolved(x) for x in got + full):
                        if verdict is None:
                            verdict = False
                            why = "the rows sent to the model (%s) and kept (%s) are not the accumulated rows (%s)" % (
                                names(seq(d2)), names(blocks), names(full))
            if verdict:
                chk.good("flush", subj)
            elif not seen_in_loop:
                chk.bad("flush", subj, "accumulated rows are dropped without being sent to the model%s" % when(cs), where)
            elif verdict is False:
                chk.bad("flush", subj, why + when(cs), where)
            else:
                chk.und("flush", subj, why, where)
            registry(chk, b, u, rec, f, cs, blocks, subj, where, True)
        for f, cs, blocks in kept:
            subj = "%s: %s kept in the loop over %s" % (name, nm, show(rec["it"], 3))
            registry(chk, b, u, rec, f, cs, blocks, subj, where, False)
        # rows must not enter the frame by another way than at its end
        for f, cs, blocks in kept:
            if blocks and blocks[0] is not inn and blocks[0].op == "loopout" and seq(blocks[0].a[1])[:1] == [inn]:
                continue
            if blocks.count(inn) > 1 or (blocks and blocks[0] is not inn and inn in blocks):
                chk.bad("flush", "%s: order of %s" % (name, nm), "rows are not appended at the end of the accumulated frame: %s" % names(blocks), where)


def keeps(blocks, inn):
    if inn in blocks:
        return True
    return any(x.op == "loopout" and keeps(seq(x.a[1]), inn) for x in blocks)


def names(bl):
    return " ++ ".join(show(x, 3) for x in bl) or "nothing"


def resolved(x):
    return x.op in ("loopin", "loopout", "store", "assignmap", "param", "copy", "storemap", "storeloc")


def registry(chk, b, u, rec, facts, cs, blocks, subj, where, dropped):
    """the recorded ranges are dropped exactly when the frame is"""
    found = False
    for k, sp in rec.get("snap", {}).items():
        pre, post = sp
        if not isinstance(post, T) or not any(container(x) and holds_range(b, x) for x in walk(post) if x.op in ("dict", "list", "phi")):
            continue
        if post.op not in ("phi", "dict", "list"):
            continue
        found = True
        p = assume(post, facts)
        sub = b.cases(p) if p.op == "phi" else [(facts, cs, (p,))]
        for f2, cs2, (q,) in sub:
            q = strip_conv(q)
            if not container(q):
                chk.und("flush", subj, "recorded ranges: %s" % show(q, 3), where)
                continue
            empty = not q.a
            if dropped and not empty and not blocks:
                chk.bad("flush", subj, "the rows of the batch are dropped but the ranges recorded for them are kept%s" % when(cs), where)
            elif not dropped and empty:
                chk.bad("flush", subj, "the recorded ranges are dropped although their rows stay in the batch%s" % when(cs), where)
            else:
                chk.good("flush", subj + " (ranges)")
    if not found and dropped:
        cells = [k for k, v in rec["vars"].items() if k[0] == "cell" and v[0] == "append" and k[1] in [r[0].target.cell for r in b.regs if r[0].target is not None]]
        clears = [e for e in b.run.log if e.kind == "mutate" and u in [l[2] for l in e.loops] and e.how in (".clear", "delitem", ".pop", ".popitem")]
        if cells and not clears and not blocks:
            chk.bad("flush", subj, "the rows of the batch are dropped but the ranges recorded for them are kept%s" % when(cs), where)
        else:
            chk.und("flush", subj, "the record of the ranges was not found", where)


def container(x):
    return x.op in ("dict", "list")


def holds_range(b, t):
    for x in walk(t):
        if x.op == "loopin" and x.a[1] in b.lens:
            return True
        if x.op == "len" and x.a[0].op == "loopin":
            return True
    return False


def outer(b):
    """the outermost loops that carry the frame"""
    return [u for u, v in b.F.items() if not any(l[2] in b.F for l in v[4]["loops"])]


def final(chk, b):
    name = b.it.name
    outs = outer(b)
    done = False
    tried = []
    for u in outs:
        nm, pre, inn, post, rec = b.F[u]
        if not any(keeps(seq(t), inn) for _, _, (t,) in b.cases(post)):
            chk.good("final", name)
            continue
        for e, d in b.flushes:
            if any(l[2] in b.F for l in e.loops):
                continue
            bl = seq(d)
            if len(bl) != 1 or bl[0].op != "loopout" or bl[0].a[3] is not inn:
                tried.append((e, "the frame sent after the loops is %s" % show(d, 3), resolved_all(bl)))
                continue
            bad = None
            und = None
            for g in e.guards:
                r = nonempty(b, g, bl[0])
                if r is False:
                    bad = g
                elif r is None:
                    und = g
            if bad is not None:
                tried.append((e, "the remaining rows are sent only if %s" % show(bad, 3), True))
            elif und is not None:
                tried.append((e, "the remaining rows are sent only if %s" % show(und, 4), False))
            else:
                done = True
                chk.good("final", name)
        if not done:
            where = "%s:%s (%s)" % rec["where"] if isinstance(rec["where"], tuple) else rec["where"]
            if not tried:
                chk.bad("final", name, "the rows left after the loop over %s are never sent to the model" % show(rec["it"], 3), where)
            elif all(t[2] for t in tried):
                chk.bad("final", name, tried[0][1], tried[0][0].where())
            else:
                chk.und("final", name, tried[0][1], tried[0][0].where())


def resolved_all(bl):
    return all(resolved(x) for x in bl)


def nonempty(b, g, fr):
    """g holds whenever fr has rows: True / False / None"""
    if g is TRUE:
        return True
    n = b.rw(b.N(fr))
    neg = False
    if g.op == "not":
        x = g.a[0]
        if x.op == "attr" and x.a[1] == "empty" and seq(x.a[0]) == seq(fr):
            return True
        if x.op == "cmp" and x.a[0] == "==":
            g = mk("cmp", "!=", x.a[1], x.a[2])
        else:
            neg = True
    if g.op == "truth" and not neg:
        if seq(g.a[0]) == seq(fr) or same(b.rw(pt.lin(g.a[0])), n):
            return True
        if container(g.a[0]):
            return True
    if g.op == "cmp":
        op, x, y = g.a
        d = pt.plus(b.rw(pt.lin(y)), b.rw(pt.lin(x)), -1)          # y - x
        c = d.get(None, 0)
        core = {k: v for k, v in d.items() if k is not None}
        if op in ("<", "<="):
            # 0 <(=) core + c
            if same(core, n):
                if op == "<":
                    return c > -1
                return c >= -1
            if all(k in core for k in n) and b.known(d):
                return False
            if is_const(x) and y.op == "len" and container(y.a[0]):
                return (cval(x) == 0 and op == "<") or (cval(x) <= 1 and op == "<=")
        if op == "!=" and (same(core, n) or same(pt.scaled(core, -1), n)) and not c:
            return True
    return None


def filling(chk, b):
    """each registered range of a batch is averaged over exactly its own rows"""
    name = b.it.name
    X = b.X
    for f in b.fills:
        e = f["e"]
        where = e.where()
        if f["kind"] != KINDS[b.kind]:
            chk.bad("fill", name, "a %s value is stored into the cache %s" % (b.kind, f["kind"]), where)
            continue
        if f["a"] is None:
            chk.und("fill", name, "average over the whole batch", where)
            continue
        n = b.rw(pt.plus(pt.lin(f["b"]), pt.lin(f["a"]), -1)) if f["b"] is not NONE and f["a"] is not NONE else None
        if n is None:
            chk.bad("fill", name, "the average runs over an open-ended part of the batch", where)
            continue
        if any(t.op == "phi" for t in (f["a"], f["b"])):
            n2 = [b.rw(pt.plus(pt.lin(y), pt.lin(x), -1)) for _, _, (x, y) in b.cases(f["a"], f["b"])]
            n = n2[0] if all(same(x, n2[0]) for x in n2) else n
        if same(n, {mk_len(X): 1}):
            s = starts(b, f["a"])
            if s is False and f["a"] in first_starts(b) and any(g["e"].where() == where and g["a"] is not None and starts(b, g["a"]) for g in b.fills):
                s = True          # the first of the registered ranges, averaged by the same statement as the others
            if s is True:
                chk.good("fill", name)
            elif s is False:
                chk.bad("fill", name, "the average starts at %s, which is not the start of a registered range" % show(f["a"], 4), where)
            else:
                chk.und("fill", name, "start %s" % show(f["a"], 4), where)
        elif b.known(n) or any(k is not None and q.mentions_param(y, "batchsize") for k in n for y in (walk(k) if k is not None else ()) if y.op == "call" and y.a[0] in ("min", "max")):
            chk.bad("fill", name, "the average runs over %s rows instead of the %s rows of one block" % (fmt(n), show(mk_len(X), 3)), where)
        else:
            chk.und("fill", name, "the average runs over %s rows" % fmt(n), where)
        # every entry is used: no extra condition on the way
        pg = None
        for pe, d in b.flushes:
            if pe.result is f["pred"] and pe.seq <= e.seq:
                pg = pe
        base_g = set(pg.guards) if pg is not None else set()
        for g in e.guards:
            if g in base_g or missing_test(g, b) is not None:
                continue
            if mk_not(g) in b.dropconds:            # an entry that survived the previous emptying of the record
                continue
            if any(x.op == "loopin" and x.a[1] in b.lens for x in walk(g)) or any(pt.is_prediction(x) is not None for x in walk(g)):
                ok = implied(b, g, f)
                if ok is True:
                    continue
                if ok is False:
                    chk.bad("fill", name, "an entry of the batch is skipped unless %s" % show(g, 4), where)
                    continue
            chk.und("fill", name, "an entry of the batch is used only if %s" % show(g, 4), where)
        for l in e.loops:
            if pg is not None and l in pg.loops:
                continue
            c = cut(l[0]) if not isinstance(l[0], str) else None
            if c is not None and c.op in ("idx", "iloc", "m", "call"):
                chk.bad("fill", name, "only a part of the batch is used: %s" % show(c, 3), where)


def starts(b, a):
    """the slice start is a registered start"""
    if not getattr(b, "regs", None):
        return None
    al = pt.lin(a)
    for e, s, t, o in b.regs:
        if any(pt.lin(x) == al for x in phis(s)):
            return True
        # the same variable seen through another loop level
        for x in phis(s):
            sl = pt.lin(x)
            if len(sl) == len(al) and all(ren(k) in [ren(q) for q in al] and sl[k] == al.get(k, sl[k]) for k in sl):
                return True
    return False if b.known(b.rw(al)) else None


def first_starts(b):
    """the registered starts at the beginning of their loops"""
    pre = {}
    for rec in b.it.run.loops:
        for r in rec["vars"].values():
            if isinstance(r, (list, tuple)) and r and r[0] == "term" and isinstance(r[2], T):
                pre[r[2]] = r[1]
    out = set()
    for e, s, t, o in b.regs or ():
        for x in phis(s):
            for _ in range(4):
                if not any(y in pre for y in walk(x)):
                    break
                x = subst(x, pre)
            out.add(x)
    return out


def ren(k):
    return ("loopin", k.a[1]) if k is not None and k.op == "loopin" else k


def phis(t):
    return phis(t.a[1]) + phis(t.a[2]) if t.op == "phi" else [t]


def implied(b, g, f):
    """guards that always hold for a registered range: 0 <= start < end <= rows of the batch"""
    if g.op == "cmp" and g.a[0] in ("<", "<="):
        op, x, y = g.a
        d = pt.plus(b.rw(pt.lin(y)), b.rw(pt.lin(x)), -1)
        if same(d, {mk_len(b.X): 1}):
            return True
        if y is f["a"] and is_const(x) and cval(x) == 0:
            return op == "<="
        if x is f["b"] and y.op == "len":
            return op == "<="
        if x is f["a"] and y.op == "len":
            return True
        if b.known(d):
            return False
    return None


def missing_test(g, b):
    """('any'|'all'|'cell', key, index) when g asks whether a cached value is still missing"""
    t = g
    how = "cell"
    if t.op == "truth":
        t = t.a[0]
    if t.op == "red" and t.a[0] in ("any", "all") and not t.a[2]:
        how, t = t.a[0], t.a[1]
    elif t.op == "call" and t.a[0] in ("any", "all", "numpy.any", "numpy.all") and t.a[1]:
        how, t = t.a[0].split(".")[-1], t.a[1][0]
    if t.op == "cmp" and t.a[0] == "!=" and t.a[1] is t.a[2]:
        x = t.a[1]
    elif t.op in ("isnan", "isna") and isinstance(t.a[0], T):
        x = t.a[0]
    elif t.op == "call" and t.a[0] in ("numpy.isnan", "pandas.isna", "pandas.isnull", "math.isnan") and t.a[1]:
        x = t.a[1][0]
    elif t.op == "m" and t.a[0] in ("isna", "isnull"):
        x = t.a[1]
    else:
        return None
    ix = None
    c = pt.cache_read(x)
    if c is None and x.op == "idx":
        ix = x.a[1]
        y = x.a[0]
        c = pt.cache_read(y)
        if c is None and y.op == "idx":
            c = pt.cache_read(y.a[0])
            ix = mk("tuple", y.a[1], x.a[1])
    if c is None:
        return None
    return how, c[0], c[1], ix


def requests(chk, b):
    """every requested value that is still missing gets registered"""
    name = b.it.name
    regs = getattr(b, "regs", None) or [(f["e"], None, None, None) for f in b.fills if b.F == {}]
    keys = {(f["kind"], f["key"], f["idx"]) for f in b.fills}
    for e, s, t, other in regs:
        good = True
        for g in e.guards:
            m = missing_test(g, b)
            if m is None:
                n = None
                if g.op == "not":
                    n = missing_test(g.a[0], b)
                if n is not None:
                    good = False
                    chk.bad("request", name, "a value is computed only if it is not missing: %s" % show(g, 4), e.where())
                elif any(x.op == "param" and x.a[0] == "batchsize" for x in walk(g)) or any(x.op == "loopin" and x.a[1] in getattr(b, "lens", ()) for x in walk(g)):
                    good = False
                    chk.bad("request", name, "whether a requested value is computed depends on the batch: %s" % show(g, 4), e.where())
                elif any(x.op == "loopin" for x in walk(g)):
                    good = False
                    chk.und("request", name, "a requested value is computed only if %s" % show(g, 4), e.where())
                else:
                    good = False
                    chk.und("request", name, "a requested value is computed only if %s" % show(g, 4), e.where())
                continue
            how, kind, key, ix = m
            mine = [k for k in keys if k[0] == kind]
            if kind != KINDS[b.kind]:
                good = False
                chk.bad("request", name, "whether the %s value is missing is decided by the %s cache" % (b.kind, kind), e.where())
                continue
            if how == "all" and b.kind == "pairs":
                good = False
                chk.bad("request", name, "a pair with some known values is skipped although other values are missing: %s" % show(g, 4), e.where())
                continue
            if ix is not None and mine and not any(k[1] is key and k[2] is ix for k in mine):
                near = [k for k in mine if k[1] is key]
                if near and all(positions(k[2]) is not None for k in near) and positions(ix) is not None:
                    if not any(same_cell(k[2], ix) for k in near):
                        good = False
                        chk.bad("request", name, "the cell tested for being missing is not the cell that is filled: %s" % show(ix, 4), e.where())
                else:
                    good = False
                    chk.und("request", name, "tested cell %s" % show(ix, 4), e.where())
        for l in e.loops:
            c = cut(l[0]) if isinstance(l[0], T) else None
            if c is not None:
                good = False
                chk.bad("request", name, "only a part of the requested values is computed: %s" % show(c, 4), e.where())
        if good:
            chk.good("request", "%s: %s" % (name, show(e.key, 3) if isinstance(e.key, T) else ""))


def positions(t):
    t = strip_conv(t)
    ts = t.a if t.op == "tuple" else (t,)
    out = []
    for x in ts:
        p = pt.position_of(x)
        if p is None:
            return None
        out.append(p)
    return out


def strip_depth(t):
    from ..terms import rebuild
    memo = {}

    def go(x):
        r = memo.get(x)
        if r is None:
            y = x
            if x.op in ("elem", "pos") and len(x.a) > 1 and isinstance(x.a[1], int):
                y = mk(x.op, x.a[0], 0)
            r = memo[x] = rebuild(y, go)
        return r
    return go(t)


def same_cell(a, c):
    return strip_depth(a) is strip_depth(c)


def check_C12(chk):
    """Inductive invariant of the batch loops: the running length equals the number of accumulated rows before and after every iteration of every
    loop; a registered range is exactly the rows appended with it; rows are dropped only after exactly they were sent to the model, together
    with their ranges; what remains after the loops is sent; every registered range is averaged over exactly its own predictions; every
    requested value that is missing is registered."""
    items = S.calc_items(chk)
    chk.count("calculations analysed", len(items))
    for it in items:
        chk.seen(it.run)
        try:
            chk.guard("batching", it.name, batching, chk, it)
        except Und as ex:
            chk.und("batching", it.name, str(ex))
