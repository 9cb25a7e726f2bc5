"""C13: every partial dependence value is filed, read and drawn under its own features.

Feature roles are followed through the terms: an array of distinct values, a column, a matrix axis, a loop element and an
axis label each belong to one feature (term).  Roles that meet have to name the same feature; conditions that decide which
orientation of a pair is stored are split into the two possible cases.
"""
from .. import pdterms as pt
from .. import query as q
from .. import suites as S
from ..query import param
from ..terms import (T, mk, const, NONE, TRUE, FALSE, is_const, cval, walk, show, strip_conv, assume, add_fact, mk_len, mk_not,
                     children, mk_cmp, subst)
from .batches import Batch, Und, base, seq, KINDS, registrations, strip_depth, cut, frame_loop
from .measures import data_of, data_terms
from .guards import altered, is_prediction


# ---------------------------------------------------------------- the two orientations of a pair
def pair_conds(t):
    """membership tests of a pair in the pair cache whose pair contains no further condition"""
    out = []
    for x in walk(t):
        if x.op == "in" and len(x.a) == 2:
            c = x.a[1]
            if any(y.op in ("fld", "attr") and y.a[1] == "pd_pairs" for y in walk(c)):
                p = pair_of(x.a[0])
                if p is not None and not any(y.op == "phi" for e in p for y in walk(e)):
                    out.append((x, p))
    return out


def pair_of(t):
    if t.op == "conv" and t.a[0] in ("tuple", "list"):
        t = t.a[1]
    if t.op == "tuple" and len(t.a) == 2:
        return t.a
    if t.op in ("loopin", "param", "elem", "idx", "loopout"):
        from ..terms import REMAKE
        f = REMAKE.get("idx")
        mkidx = f if f is not None else (lambda a, b: mk("idx", a, b))
        return (mkidx(t, const(0)), mkidx(t, const(1))) if t.op != "elem" else (mk("proj", t, 0), mk("proj", t, 1))
    return None


def orient(*ts):
    """[(key pairs, terms)] for the stored orientation of every pair that is looked up"""
    out = []

    def go(ts, keys, known, d):
        if d > 12:
            raise Und("too many pair lookups")
        conds = {}
        for t in ts:
            if isinstance(t, T):
                for x, p in pair_conds(t):
                    conds[x] = p
        if not conds:
            names = {e for k in keys for e in k}
            x = next((x for t in ts if isinstance(t, T) for x in walk(t)
                      if x.op == "cmp" and x.a[0] in ("<", "<=", ">", ">=") and x.a[1] in names and x.a[2] in names), None) if names else None
            if x is None:
                out.append((keys, ts))
                return
            # alphabetical order of two distinct names: independent of the stored orientation
            for v in (True, False) if x.a[1] is not x.a[2] else (x.a[0] in ("<=", ">="),):
                f = add_fact({}, x, v)
                f = add_fact(f, mk_cmp("<", x.a[1], x.a[2]), v) if x.a[0] in ("<", "<=") else f
                t2 = tuple(assume(t, f) if isinstance(t, T) else t for t in ts)
                t2 = tuple(replace_cond(t, x, v) if isinstance(t, T) else t for t in t2)
                go(t2, keys, known, d + 1)
            return
        f = {}
        dec = False
        for x, (a, b) in conds.items():
            for p, v in known:
                if p == (a, b) or p == (b, a):
                    f = add_fact(f, x, v if p == (a, b) else not v)
                    dec = True
                    break
        if dec:
            t2 = tuple(assume(t, f) if isinstance(t, T) else t for t in ts)
            if t2 == ts:
                raise Und("a pair lookup cannot be resolved")
            go(t2, keys, known, d + 1)
            return
        x = min(conds, key=lambda z: z.n)
        a, b = conds[x]
        for v in (True, False):
            f = add_fact({}, x, v)
            f = add_fact(f, mk_cmp("==", a, b), False)
            f = add_fact(f, mk_cmp("==", b, a), False)
            t2 = tuple(assume(t, f) if isinstance(t, T) else t for t in ts)
            go(t2, keys + (((a, b) if v else (b, a)),), known + (((a, b), v),), d + 1)
    go(tuple(ts), (), (), 0)
    return out


def replace_cond(t, x, v):
    return subst(t, {x: TRUE if v else FALSE}) if x in set(walk(t)) else t


def feature_of_values(t, X):
    """feature whose values (distinct, or one per row) the sequence enumerates"""
    t0 = strip_conv(t)
    if t0.op == "call" and t0.a[0] == "enumerate" and t0.a[1]:
        return feature_of_values(t0.a[1][0], X)
    r = pt.values_axis(t, X)
    if r is None:
        r = pt.column_of(t, X)
    return r


def listing(t, d=0):
    """in which order a list of feature values runs: "stored", "sorted", "first seen", "rows", or None when unknown"""
    t = strip_conv(t)
    while t.op in ("loc", "copy"):
        t = strip_conv(t.a[0])
    if d > 8:
        return None
    if t.op == "idx" and is_const(t.a[1]) and cval(t.a[1]) in ("f_values", "f1_values", "f2_values"):
        return "stored"
    if t.op == "call" and t.a[0] == "enumerate" and t.a[1]:
        return listing(t.a[1][0], d + 1)
    if t.op == "call" and t.a[0] == "numpy.unique" and not t.a[2]:
        return "sorted"
    if t.op == "call" and t.a[0] in ("numpy.sort", "sorted") and len(t.a[1]) == 1 and not t.a[2]:
        r = listing(t.a[1][0], d + 1)
        return {"first seen": "sorted", "set": "sorted", "rows": "sorted rows"}.get(r, r)
    if t.op == "call" and t.a[0] in ("set", "frozenset") and t.a[1]:
        return "set"
    if t.op == "setof":
        return "set"
    if t.op == "sortvals" or t.op == "m" and t.a[0] == "sort_values" and not t.a[3]:
        r = listing(t.a[0] if t.op == "sortvals" else t.a[1], d + 1)
        return {"first seen": "sorted", "rows": "sorted rows"}.get(r, r)
    if t.op == "unique" or t.op == "m" and t.a[0] in ("unique", "drop_duplicates") or t.op == "call" and t.a[0] == "pandas.unique":
        r = listing(t.a[0] if t.op == "unique" else (t.a[1] if t.op == "m" else t.a[1][0]), d + 1)
        return {"rows": "first seen", "sorted rows": "sorted"}.get(r)
    if t.op == "m" and t.a[0] in ("tolist", "to_numpy", "to_list") or t.op == "call" and t.a[0] in ("numpy.array", "numpy.asarray"):
        return listing(t.a[1] if t.op == "m" else t.a[1][0], d + 1)
    if t.op == "idx" and t.a[1].op not in ("slice", "tuple", "const"):
        return "rows"
    return None


def stored_order(chk):
    """order of the value lists the calculator stores, from its constructor"""
    if not hasattr(chk, "vorder"):
        it = S.getter_item(chk, None, ())
        out = set()
        if it is not None:
            s = it.run.s
            for n, v in s.fields(s.m).items():
                if n not in ("pd_single", "pd_pairs"):
                    continue
                for x in walk(s.snap(v)):
                    if x.op == "kv" and x.a[1].op == "dict":
                        for y in x.a[1].a:
                            ky, vy = y if isinstance(y, tuple) else y.a[:2]
                            if isinstance(ky, T) and is_const(ky) and cval(ky) in ("f_values", "f1_values", "f2_values"):
                                out.add(listing(vy))
        chk.vorder = out.pop() if len(out) == 1 else None
    return chk.vorder


def misordered(chk, t):
    """the list t runs in another order than the stored value lists: (how, order), False when it does not, None when unknown"""
    r = listing(t)
    if r == "stored":
        return False
    w = stored_order(chk)
    if r is None or w is None:
        return None
    return False if r == w else "%s runs in the order %s, the table in the order %s" % (sh(t), r, w)


def feature_of_elem(e, X):
    e = strip_conv(e)
    if e.op == "proj" and e.a[0].op == "elem":
        s = strip_conv(e.a[0].a[0])
        if s.op == "call" and s.a[0] in ("itertools.product",) and isinstance(e.a[1], int) and e.a[1] < len(s.a[1]):
            return feature_of_values(s.a[1][e.a[1]], X)
        if s.op == "product" and e.a[1] < len(s.a) and isinstance(s.a[e.a[1]], T):
            return feature_of_values(s.a[e.a[1]], X)
        if s.op == "cols" and strip_conv(s.a[0]) is X:
            pass
    s = pt.elem_src(e)
    return feature_of_values(s, X) if s is not None else None


def axis_index(i, X):
    """(feature whose value list is searched, feature the searched value belongs to)"""
    i = strip_conv(i)
    if i.op == "pos":
        f = feature_of_values(i.a[0], X)
        return (f, f) if f is not None else None
    p = pt.position_of(i)
    if p is None:
        return None
    return feature_of_values(p[0], X), feature_of_elem(p[1], X)


def sh(t):
    return show(t, 3)


# ---------------------------------------------------------------- stores into the cache
def stores(chk, it):
    b = Batch(chk, it)
    name = it.name
    X = b.X
    for e in b.odd:
        v = strip_conv(e.value) if isinstance(e.value, T) else None
        if v is not None and v.op == "red" and v.a[0] not in ("mean", "nanmean") and any(pt.is_prediction(x) is not None for x in walk(v)):
            chk.bad("value", name, "the %s of the predictions is stored instead of their mean" % v.a[0], e.where())
        elif v is not None and v.op == "call" and v.a[0] in ("numpy.median", "statistics.median", "max", "min", "sum", "numpy.std"):
            chk.bad("value", name, "%s of the predictions is stored instead of their mean" % v.a[0], e.where())
        else:
            x = altered(v, is_prediction) if v is not None else None
            if x is not None:
                chk.bad("value", name, "predictions are changed by %s before they are averaged" % sh(x), e.where())
                continue
            chk.und("value", name, "stored value %s" % (sh(v) if v is not None else "?"), e.where())
    for f in b.fills:
        cell(chk, b, f, name, X)
    b.variables()
    b.regs = registrations(b) if b.F else []
    if b.F:
        n = 0
        for e, s, t, other in b.regs:
            u = frame_loop(b, e)
            if u is None:
                continue
            nm, pre, inn, post, rec = b.F[u]
            done = set()
            for _, _, (fp,) in b.cases(post):
                for g in seq(fp):
                    if b.root(g) is X and g not in done:
                        done.add(g)
                        n += 1
                        block(chk, b, e, other, g, name, X)
        if not n:
            chk.und("block", name, "no block of changed rows found")
    else:
        for f in b.fills:
            if f["a"] is None:
                for g in seq(f["frame"]):
                    direct_block(chk, b, f, g, name, X)


def cell(chk, b, f, name, X):
    e = f["e"]
    where = e.where()
    if b.kind == "minus":
        i = strip_conv(f["idx"])
        if i.op == "rowidx":
            fr = i.a[0]
            bad = row_order(fr, X)
            if bad:
                chk.bad("cell", name, bad, where)
            elif bad is None:
                chk.und("cell", name, "rows of %s" % sh(fr), where)
            else:
                chk.good("cell", name)
        elif i.op == "pos":
            bad = row_order(i.a[0].a[0] if i.a[0].op == "rowsof" else i.a[0], X, True)
            chk.ob("cell", name, True if bad is False else (None if bad is None else False), bad or "row index", where)
        elif i.op == "elem" and i.a[0].op == "range":
            chk.good("cell", name)
        else:
            chk.und("cell", name, "row index %s" % sh(i), where)
        return
    for keys, (key, idx) in orient(f["key"], f["idx"]):
        ks = key.a if key.op == "tuple" and b.kind == "pairs" else (key,)
        ix = strip_conv(idx)
        ix = ix.a if ix.op == "tuple" else (ix,)
        if len(ks) != len(ix):
            chk.und("cell", name, "key %s, index %s" % (sh(key), sh(idx)), where)
            continue
        for n, (k, i) in enumerate(zip(ks, ix)):
            subj = "%s axis %d" % (name, n)
            a = axis_index(i, X)
            if a is None or None in a:
                if pt.num(strip_conv(i)) or (i.op == "bin" and any(pt.position_of(x) for x in i.a[1:] if isinstance(x, T))):
                    chk.bad("cell", subj, "the value is stored at %s, not at the position of its own value" % sh(i), where)
                elif approximate(i):
                    chk.bad("cell", subj, "the position is that of the first value close to the stored one: %s" % sh(i), where)
                else:
                    chk.und("cell", subj, "index %s" % show(i, 5), where)
                continue
            k1 = strip_depth(k)
            lst = strip_conv(i).a[0] if strip_conv(i).op == "pos" else pt.position_of(strip_conv(i))[0]
            mo = misordered(chk, lst)
            if mo:
                chk.bad("cell", subj, "the position is searched in another list than the stored values: " + mo, where)
            elif mo is None:
                chk.und("cell", subj, "order of %s" % sh(lst), where)
            elif strip_depth(a[0]) is not k1:
                chk.bad("cell", subj, "the axis belongs to %s but the position is searched among the values of %s" % (sh(k), sh(a[0])), where)
            elif strip_depth(a[1]) is not k1:
                chk.bad("cell", subj, "the axis belongs to %s but the value comes from %s" % (sh(k), sh(a[1])), where)
            else:
                chk.good("cell", subj)


def row_order(fr, X, positional=False):
    """False: row ids of fr are positions in X; a string: why not; None: unknown"""
    t = fr
    reset = positional
    while True:
        if t.op == "copy":
            t = t.a[0]
        elif t.op == "m" and t.a[0] == "reset_index":
            reset = True
            t = t.a[1]
        elif t.op == "m" and t.a[0] in ("sort_values", "sort_index", "sample"):
            return "rows are numbered in the order of %s, not in the order of the data" % sh(t)
        elif t.op in ("draw", "rows"):
            return "rows are numbered within %s" % sh(t)
        else:
            break
    if t is not X:
        if cut(t) is not None and base(t) is not t:
            return "rows are numbered within %s" % sh(t)
        return None
    if not reset:
        return "rows are numbered by the labels of the caller's index"
    return False


def changes(b, g, X, seen=()):
    """({column: value}, special, problem) of a block relative to the data"""
    out = {}
    special = []
    problem = None
    t = g
    for _ in range(60):
        if t is X:
            return out, special, problem
        if t.op == "copy":
            t = t.a[0]
        elif t.op == "m" and t.a[0] in ("copy", "reset_index", "astype"):
            t = t.a[1]
        elif t.op == "conv" and t.a[0] == "DataFrame":
            t = t.a[1]
        elif t.op == "store":
            k = t.a[1]
            if k not in out:
                out[k] = t.a[2]
            t = t.a[0]
        elif t.op in ("assignmap", "storemap", "assignsym"):
            special.append(t)
            t = t.a[1] if t.op == "storemap" else t.a[0]
        elif t.op == "loopin":
            v = b.var(t)
            if v is None or t in seen:
                return None
            c = changes_to(b, v[3], t)
            if c is None:
                return None
            src = [r for r in b.recs if r["uid"] == t.a[0]][0]["it"]
            for k in c:
                if any(x.op in ("elem", "pos") and x.a[0] is src for x in walk(k)):
                    problem = "the columns changed for earlier features (%s) stay changed" % sh(k)
                elif k not in out:
                    return None
            seen = seen + (t,)
            t = v[1]
        elif t.op == "loopout":
            c = changes_to(b, t.a[2], t.a[3])
            if c is None or special:
                return None
            special.append(t)
            t = t.a[1]
        elif t.op == "phi":
            return None
        else:
            return None
    return None


def changes_to(b, t, stop):
    """columns assigned between stop and t"""
    out = []
    for _ in range(60):
        if t is stop:
            return out
        if t.op == "copy":
            t = t.a[0]
        elif t.op == "store":
            out.append(t.a[1])
            t = t.a[0]
        elif t.op == "loopout":
            c = changes_to(b, t.a[2], t.a[3])
            if c is None:
                return None
            out += c
            t = t.a[1]
        elif t.op == "loopin":
            v = b.var(t)
            if v is None:
                return None
            c = changes_to(b, v[3], t)
            if c is None:
                return None
            out += c
            t = v[1]
        elif t.op == "phi":
            a, c = changes_to(b, t.a[1], stop), changes_to(b, t.a[2], stop)
            return None if a is None or c is None else out + a + c
        else:
            return None
    return None


def block(chk, b, e, other, g, name, X):
    where = e.where()
    for keys, ts in orient(g, *other):
        g1, oth = ts[0], list(ts[1:])
        c = changes(b, g1, X)
        if c is None:
            chk.und("block", name, "block %s" % show(g1, 4), where)
            continue
        ch, special, problem = c
        if problem:
            chk.bad("block", name, problem, where)
            continue
        if b.kind == "minus":
            minus_block(chk, b, e, oth, ch, special, name, X)
            continue
        if special:
            chk.und("block", name, "block %s" % show(g1, 4), where)
            continue
        judge_block(chk, b, ch, name, X, where, oth)


def judge_block(chk, b, ch, name, X, where, oth):
    want = 2 if b.kind == "pairs" else 1
    ok = True
    for f, v in ch.items():
        fv = feature_of_elem(v, X)
        if fv is None:
            ok = None if ok else ok
            chk.und("block", name, "column %s is set to %s" % (sh(f), sh(v)), where)
        elif strip_depth(fv) is not strip_depth(f):
            ok = False
            chk.bad("block", name, "column %s is set to a value of %s" % (sh(f), sh(fv)), where)
    if len(ch) != want:
        chk.bad("block", name, "%d columns are changed (%s) instead of %d" % (len(ch), ", ".join(sh(f) for f in ch), want), where)
        return
    if not ok:
        return
    have = set(ch) | set(ch.values())
    if oth is not None:
        if have == set(oth):
            chk.good("block", name)
        elif have <= set(oth):
            chk.good("block", name)
        elif all(o.op in ("elem", "proj", "param", "idx", "phi") for o in oth):
            chk.bad("block", name, "the rows are changed by %s but filed under %s" % (", ".join(sorted(sh(x) for x in have)), ", ".join(sorted(sh(x) for x in oth))), where)
        else:
            chk.und("block", name, "filed under %s" % [sh(x) for x in oth], where)
    else:
        chk.good("block", name)


def minus_block(chk, b, e, oth, ch, special, name, X):
    where = e.where()
    if ch:
        chk.und("block", name, "columns %s are changed one by one" % [sh(x) for x in ch], where)
        return
    if len(special) != 1 or special[0].op != "assignmap":
        chk.und("block", name, "block %s" % [sh(x) for x in special], where)
        return
    _, src, var, val, cond = special[0].a
    if not (strip_conv(src).op == "attr" and strip_conv(src).a[1] == "columns" and base(strip_conv(src).a[0]) is X):
        if cut(src) is not None:
            chk.bad("block", name, "only the columns %s are set to the row's values" % sh(src), where)
        else:
            chk.und("block", name, "columns %s" % sh(src), where)
        return
    fs = [o for o in oth if o.op == "elem" or o.op == "param" or o.op == "proj"]
    rows = [o for o in oth if o.op in ("rowidx", "pos")]
    if len(fs) != 1:
        chk.und("block", name, "filed under %s" % [sh(x) for x in oth], where)
        return
    f = fs[0]
    same = mk_cmp("==", var, f)
    same2 = mk_cmp("==", f, var)
    if cond is TRUE:
        chk.bad("block", name, "the feature itself is replaced along with the others", where)
        return
    if cond in (same, same2):
        chk.bad("block", name, "the feature itself is replaced and the others are kept", where)
        return
    if cond not in (mk_not(same), mk_not(same2)):
        if any(x.op == "in" and x.a[0] in (var, f) and x.a[1] in (var, f) for x in walk(cond)):
            chk.bad("block", name, "columns are replaced by a partial match of names: %s" % sh(cond), where)
            return
        chk.und("block", name, "columns are replaced where %s" % sh(cond), where)
        return
    v = strip_conv(val)
    if v.op == "idx" and v.a[0].op == "row":
        fr, pos = v.a[0].a
        if v.a[1] is not var:
            chk.bad("block", name, "column %s is set to the row's value of %s" % (sh(var), sh(v.a[1])), where)
            return
        bad = row_order(fr, X, True)
        if bad:
            chk.bad("block", name, bad, where)
        elif bad is None:
            chk.und("block", name, "rows of %s" % sh(fr), where)
        elif rows and rows[0].op == "rowidx" and (rows[0].a[0] is not fr or (pos.op == "pos" and len(rows[0].a) > 1 and rows[0].a[1] != pos.a[1])):
            chk.und("block", name, "row %s against %s" % (sh(rows[0]), sh(pos)), where)
        else:
            chk.good("block", name)
    else:
        chk.und("block", name, "value %s" % show(v, 4), where)


def direct_block(chk, b, f, g, name, X):
    where = f["e"].where()
    for keys, (g1, key) in orient(g, f["key"]):
        c = changes(b, g1, X)
        if c is None or c[1]:
            chk.und("block", name, "block %s" % show(g1, 4), where)
            continue
        if c[2]:
            chk.bad("block", name, c[2], where)
            continue
        ks = key.a if key.op == "tuple" and b.kind == "pairs" else (key,)
        if b.kind != "minus":
            judge_block(chk, b, c[0], name, X, where, None)
            if {strip_depth(k) for k in c[0]} != {strip_depth(k) for k in ks}:
                chk.bad("block", name, "the changed columns %s are filed under %s" % ([sh(x) for x in c[0]], [sh(x) for x in ks]), where)
        else:
            chk.und("block", name, "complement block", where)


# ---------------------------------------------------------------- layout of the empty caches
def layout(chk, it):
    s = it.run.s
    X = param("X", "frame")
    f = {n: s.snap(v) for n, v in s.fields(s.m).items()}
    where = "PartialDependenceCalculator.__init__"
    for attr, kind in (("pd_single", "single"), ("pd_pairs", "pair")):
        t = f.get(attr)
        if t is None or t.op != "dict":
            chk.und("layout", attr, "not a dictionary display")
            continue
        found = False
        for x in walk(t):
            if x.op != "kv" or x.a[1].op != "dict":
                continue
            d = {}
            for y in x.a[1].a:
                ky, vy = y if isinstance(y, tuple) else y.a[:2]
                if isinstance(ky, T) and is_const(ky):
                    d[cval(ky)] = vy
            if "pd_values" not in d:
                continue
            found = True
            key = x.a[0]
            ks = key.a if key.op == "tuple" and kind == "pair" else (key,)
            lists = [d.get(n) for n in (("f_values",) if kind == "single" else ("f1_values", "f2_values"))]
            for k, l in zip(ks, lists):
                ff = feature_of_values(l, X) if l is not None else None
                if ff is None:
                    chk.und("layout", attr, "value list of %s" % sh(k))
                elif ff is not k:
                    chk.bad("layout", attr, "the value list of %s holds the values of %s" % (sh(k), sh(ff)), where)
                else:
                    chk.good("layout", "%s[%s]" % (attr, sh(k)))
            m = strip_conv(d["pd_values"])
            shp = None
            if m.op == "call" and m.a[0] in ("numpy.full", "numpy.empty", "numpy.zeros", "numpy.ones"):
                shp = dict(m.a[2]).get("shape", m.a[1][0] if m.a[1] else None)
            if shp is None:
                chk.und("layout", attr, "table %s" % sh(m))
                continue
            dims = shp.a if shp.op == "tuple" else (shp,)
            for k, dm in zip(ks, dims):
                ff = feature_of_values(dm.a[0], X) if dm.op == "len" else None
                if ff is None:
                    chk.und("layout", attr, "axis length %s" % sh(dm))
                elif ff is not k:
                    chk.bad("layout", attr, "the axis of %s is as long as the values of %s" % (sh(k), sh(ff)), where)
                else:
                    chk.good("layout", "%s[%s] axis" % (attr, sh(k)))
        if not found:
            chk.und("layout", attr, "entries not resolved")


# ---------------------------------------------------------------- reads
GETTERS = [("get_pd_single", ("feature", "feature_values")), ("get_pd_single", ("feature",)), ("get_pd_pairs", ("feature1", "feature2", "feature_values")),
           ("get_pd_pairs", ("feature1", "feature2")), ("get_pd_minus_single", ("feature",))]


def getter(chk, op, args):
    it = S.getter_item(chk, op, args)
    if it is None:
        return
    chk.seen(it.run)
    X = param("X", "frame")
    name = it.name
    t = it.run.s.snap(it.run.s.ret)
    if "feature_values" not in args:
        if not isinstance(it.run.s.ret.path, T):
            return chk.und("read", name, "the result is not a part of a cache")
        t = it.run.s.ret.path
    where = "PartialDependenceCalculator.%s" % op
    if "pairs" in op:
        f1, f2 = param("feature1"), param("feature2")
        os = orient(t)
        if not pair_conds(t):
            c = [pt.cache_read(x) for x in walk(t) if x.op in ("loc", "idx")]
            c = [k for k in c if k is not None]
            if c and all(k[0] == "pair" and k[1].op == "tuple" and set(k[1].a) == {f1, f2} for k in c):
                chk.bad("read", name, "the pair is looked up only as (%s): naming the features in the other order fails" % ", ".join(sh(x) for x in c[0][1].a), where)
                return
            chk.und("read", name, "result %s" % show(t, 4), where)
            return
        for keys, (r,) in os:
            key = keys[0]
            r = strip_conv(r)
            if "feature_values" not in args:
                c = pt.cache_read(r)
                if c is None:
                    chk.und("read", name, "result %s" % show(r, 4), where)
                elif c[0] != "pair" or c[1].op != "tuple" or c[1].a != key:
                    chk.bad("read", name, "the table read is %s" % show(r, 5), where)
                else:
                    chk.good("read", name + " key %s" % (", ".join(sh(k) for k in key)))
                continue
            lookup(chk, name, r, "pair", key, {f1: 0, f2: 1}, X, where)
    else:
        f = param("feature")
        kind = "minus" if "minus" in op else "single"
        r = strip_conv(t)
        if "feature_values" in args:
            lookup(chk, name, r, kind, (f,), {f: None}, X, where)
        else:
            c = pt.cache_read(r)
            if c is None:
                chk.und("read", name, "result %s" % show(r, 4), where)
            elif c != (kind, f):
                chk.bad("read", name, "the table read is %s" % show(r, 5), where)
            else:
                chk.good("read", name)


def lookup(chk, name, r, kind, key, comp, X, where):
    """r = map over the requested values of cache[key][positions]"""
    if r.op == "map" and r.a[2] is TRUE:
        body, src = r.a[1], r.a[0]
    else:
        chk.und("read", name, "result %s" % show(r, 4), where)
        return
    if cut(src) is not None:
        chk.bad("read", name, "only a part of the requested values is returned", where)
        return
    b = body
    if b.op != "idx":
        chk.und("read", name, "element %s" % show(b, 4), where)
        return
    c = pt.cache_read(b.a[0])
    ix = strip_conv(b.a[1])
    ix = ix.a if ix.op == "tuple" else (ix,)
    if c is None and b.a[0].op == "idx":
        c = pt.cache_read(b.a[0].a[0])
        ix = (b.a[0].a[1], b.a[1])
    if c is None:
        chk.und("read", name, "element %s" % show(b, 4), where)
        return
    ks = c[1].a if c[1].op == "tuple" else (c[1],)
    if c[0] != kind or tuple(ks) != tuple(key):
        chk.bad("read", name, "read from %s[%s], expected %s[%s]" % (c[0], sh(c[1]), kind, ", ".join(sh(k) for k in key)), where)
        return
    if len(ix) != len(ks):
        chk.und("read", name, "index %s" % [sh(i) for i in ix], where)
        return
    for k, i in zip(ks, ix):
        i = strip_conv(i)
        p = pt.position_of(i) if i.op != "pos" else None
        if p is None:
            if i.op == "pos" or i.op == "bin":
                chk.bad("read", name, "the axis of %s is read at position %s instead of the position of the requested value" % (sh(k), sh(i)), where)
            else:
                chk.und("read", name, "index %s" % show(i, 4), where)
            return
        f = feature_of_values(p[0], X)
        if f is None:
            chk.und("read", name, "values %s" % sh(p[0]), where)
            return
        mo = misordered(chk, p[0])
        if mo is None:
            chk.und("read", name, "order of %s" % sh(p[0]), where)
            return
        if mo:
            chk.bad("read", name, "the position is searched in another list than the stored values: " + mo, where)
            return
        if f is not k:
            chk.bad("read", name, "the axis of %s is searched in the values of %s" % (sh(k), sh(f)), where)
            return
        el = p[1]
        n = el.a[1] if el.op == "proj" else None
        if el.op == "idx" and el.a[0].op == "elem" and pt.num(el.a[1]):
            n = cval(el.a[1])
            el = mk("proj", el.a[0], n)
        b0 = el.a[0] if el.op == "proj" else el
        if not (b0.op == "elem" and strip_conv(b0.a[0]).op == "param" and strip_conv(b0.a[0]).a[0] == "feature_values"):
            chk.und("read", name, "requested value %s" % sh(el), where)
            return
        if n != comp[k]:
            chk.bad("read", name, "the axis of %s is read at the value requested for the other feature" % sh(k), where)
            return
    chk.good("read", name + (" key %s" % ", ".join(sh(k) for k in key)))


# ---------------------------------------------------------------- strengths computed from the tables
def strengths(chk, it):
    X = data_terms(it)
    done = 0
    seen = set()
    for n, t in q.results(it).items():
        if n not in ("ovo", "ova", "feature_importance", "return value"):
            continue
        for keys, (t1,) in orient(t):
            for x in walk(t1):
                if x in seen:
                    continue
                seen.add(x)
                if x.op == "along" and isinstance(x.a[1], int) or (x.op == "along" and isinstance(x.a[1], T) and is_const(x.a[1])):
                    done += axis_test(chk, it, x, X)
                elif x.op == "idx" and pt.cache_read(x.a[0]) is not None:
                    done += table_read(chk, it, x, X)
                elif x.op == "phi" and x.a[0].op == "in":
                    done += numeric_test(chk, it, x, X)
    chk.count("table reads in strengths", done)


def is_numeric_set(t):
    return any(y.op == "m" and y.a[0] in ("_get_numeric_data", "select_dtypes") for y in walk(t))


def matrix_key(m):
    """(key pair, transposed?) of a pair table"""
    tr = False
    m = strip_conv(m)
    while True:
        if m.op == "attr" and m.a[1] == "T":
            tr = not tr
            m = m.a[0]
        elif m.op == "m" and m.a[0] == "transpose" and not m.a[2]:
            tr = not tr
            m = m.a[1]
        elif m.op == "call" and m.a[0] == "numpy.transpose" and len(m.a[1]) == 1:
            tr = not tr
            m = m.a[1][0]
        elif m.op in ("copy",):
            m = m.a[0]
        else:
            break
    c = pt.cache_read(m)
    if c is None or c[0] != "pair":
        return None
    return c[1], tr


def axis_test(chk, it, x, X):
    """a per-slice rule that depends on a feature being numerical is applied along that feature's axis"""
    ax = x.a[1] if isinstance(x.a[1], int) else cval(x.a[1])
    body = x.a[2]
    n = 0
    for keys, (m, bd) in orient(x.a[0], body):
        k = matrix_key(m)
        if k is None or k[0].op != "tuple":
            continue
        inner = {z for y in walk(bd) if y.op == "in" and isinstance(y.a[1], T) for z in walk(y.a[1])}
        for y in walk(bd):
            if y.op == "in" and is_numeric_set(y.a[1]) and y not in inner:
                n += 1
                f = y.a[0]
                own = k[0].a[(ax + (1 if k[1] else 0)) % 2]
                subj = "%s: spread along axis %d" % (it.name, ax)
                if f is own:
                    chk.good("strength", subj)
                elif f in k[0].a:
                    chk.bad("strength", subj, "the values vary along %s but are treated as numerical when %s is" % (sh(own), sh(f)), it_where(it))
                else:
                    chk.und("strength", subj, "numerical test of %s" % sh(f))
    return n


def it_where(it):
    return it.name


def numeric_test(chk, it, x, X):
    """one-feature tables: the numerical test names the feature of the table"""
    if not is_numeric_set(x.a[0].a[1]):
        return 0
    f = x.a[0].a[0]
    keys = set()
    for br in x.a[1:]:
        for y in walk(br):
            c = pt.cache_read(y) if y.op in ("loc", "idx") else None
            if c is not None and c[0] == "single":
                keys.add(c[1])
    if len(keys) != 1:
        return 0
    k = keys.pop()
    subj = "%s: spread of the single table" % it.name
    chk.ob("strength", subj, True if k is f else False, "the table of %s is treated as numerical when %s is" % (sh(k), sh(f)), it_where(it))
    return 1


def table_read(chk, it, x, X):
    kind, key = pt.cache_read(x.a[0])
    if kind == "minus":
        return 0
    ix = strip_conv(x.a[1])
    n = 0
    for keys, (k0, i0) in orient(key, ix):
        ks = k0.a if k0.op == "tuple" and kind == "pair" else (k0,)
        ii = i0.a if i0.op == "tuple" else (i0,)
        if len(ks) != len(ii):
            continue
        for k, i in zip(ks, ii):
            p = pt.position_of(strip_conv(i))
            if p is None:
                continue
            f = pt.values_axis(p[0], X)
            s = pt.elem_src(p[1])
            col = pt.column_of(s, X) if s is not None else None
            if f is None or col is None:
                continue
            n += 1
            subj = "%s: %s table axis" % (it.name, kind)
            m = pt.mismatch(k, f, col)
            mo = misordered(chk, p[0])
            chk.ob("strength", subj, None if mo is None else not (m or mo), m or mo or "order of %s" % sh(p[0]), it_where(it))
    return n


# ---------------------------------------------------------------- drawings
DRAW2 = ("pcolormesh", "contour", "contourf", "pcolor", "imshow")
DRAW1 = ("plot", "step", "scatter", "bar")


def short(n):
    return n.split(".")[-1]


def drawings(chk, it):
    X = data_terms_plot(it)
    ev = [e for e in it.run.log if e.kind == "ext" and (e.name.startswith("matplotlib.pyplot.") or e.name.startswith(".") or e.name.startswith("seaborn"))]
    draws = [e for e in ev if short(e.name) in DRAW2 and len(e.args) >= 3]
    lines = [e for e in ev if short(e.name) in DRAW1 and len(e.args) >= 2 and e.name.startswith(("matplotlib.pyplot", "."))]
    labels = [e for e in ev if short(e.name) in ("xlabel", "ylabel", "set_xlabel", "set_ylabel", "set_title", "title") and (e.args or e.kw)]
    rugs = [e for e in ev if e.name == "seaborn.rugplot"]
    if not draws and not lines:
        chk.und("drawing", it.name, "nothing drawn")
        return
    for d in draws:
        surface(chk, it, d, labels, rugs, X)
    for d in lines:
        curve(chk, it, d, labels, rugs, X)


def data_terms_plot(it):
    return None                      # any frame: the value lists name the feature


def scope(e):
    return tuple(l[2] for l in e.loops)


def on_axes(lab, draw):
    """the label may belong to the axes of the drawing: same loop nesting and not to a colour bar"""
    if lab.recv is not None and any(x.op in ("call", "m") and "colorbar" in str(x.a[0]) for x in walk(lab.recv)):
        return False
    return scope(lab) == scope(draw)


def label_text(e):
    for a in e.args:
        return a
    for k in ("xlabel", "ylabel", "label"):
        if k in e.kw:
            return e.kw[k]
    return None


class Steps:
    """reachable differences of two integer counters of a loop (difference domain)"""

    def __init__(self, run):
        self.run = run
        self.memo = {}

    def diffs(self, u, x, y):
        """values of x - y at the head of loop u, or None"""
        k = (u, x, y)
        if k in self.memo:
            return self.memo[k]
        self.memo[k] = None
        rec = next((r for r in self.run.loops if r["uid"] == u), None)
        if rec is None:
            return None
        v = {w[2]: w for w in rec["vars"].values() if w[0] == "term" and isinstance(w[2], T)}
        if x not in v or y not in v:
            return None
        d0 = pt.plus(pt.lin(v[x][1]), pt.lin(v[y][1]), -1)
        if set(d0) - {None}:
            return None
        todo, seen = [d0.get(None, 0)], set()
        while todo:
            d = todo.pop()
            if d in seen:
                continue
            if len(seen) > 20:
                return None
            seen.add(d)
            for nx in self.step(v[x][3], v[y][3], x, y, d):
                if nx is None:
                    return None
                todo.append(nx)
        self.memo[k] = seen
        return seen

    def step(self, px, py, x, y, d):
        cs = pt.cases(mk("tuple", px, py))
        if cs is None:
            yield None
            return
        for facts, t in cs:
            if any(truth(c, {(x, y): d}) is (not v) for c, v in facts):
                continue
            r = pt.plus(pt.lin(t.a[0]), pt.lin(t.a[1]), -1)
            r = pt.plus(r, {x: 1, y: -1}, -1)
            if set(r) - {None}:
                yield None
                return
            yield d + r.get(None, 0)


def truth(c, env):
    """evaluate a comparison of counters; env {(x, y): x - y}"""
    if c.op == "not":
        r = truth(c.a[0], env)
        return None if r is None else not r
    if c.op in ("and", "or"):
        rs = [truth(y, env) for y in c.a]
        if c.op == "and":
            return False if False in rs else (True if all(r is True for r in rs) else None)
        return True if True in rs else (False if all(r is False for r in rs) else None)
    if c.op != "cmp" or c.a[0] not in ("<", "<=", "==", "!="):
        return None
    a, b = c.a[1], c.a[2]
    for t in (a, b):
        for y in walk(t):
            if y.op == "phi":
                v = truth(y.a[0], env)
                if v is None:
                    return None
                return truth(assume(c, add_fact({}, y.a[0], v)), env) if assume(c, add_fact({}, y.a[0], v)) is not c else None
    d = pt.plus(pt.lin(b), pt.lin(a), -1)          # b - a
    k = d.pop(None, 0)
    if not d:
        val = k
    elif len(d) == 2:
        val = None
        for (x, y), dv in env.items():
            if d.get(x) == 1 and d.get(y) == -1:
                val = dv + k
            elif d.get(x) == -1 and d.get(y) == 1:
                val = -dv + k
        if val is None:
            return None
    else:
        return None
    return {"<": val > 0, "<=": val >= 0, "==": val == 0, "!=": val != 0}[c.a[0]]


def counters(ts):
    out = set()
    for t in ts:
        for x in walk(t):
            if x.op == "cmp":
                ks = [k for k in pt.plus(lin_phi(x.a[1]), lin_phi(x.a[2]), -1) if k is not None]
                ks = [k for k in ks if k.op == "loopin"]
                for i in range(len(ks)):
                    for j in range(len(ks)):
                        if i != j and ks[i].a[0] == ks[j].a[0]:
                            out.add((ks[i].a[0], ks[i], ks[j]))
    return out


def lin_phi(t):
    out = {}
    for leaf in leaves(t):
        for k in pt.lin(leaf):
            out[k] = 1
    return out


def leaves(t):
    return leaves(t.a[1]) + leaves(t.a[2]) if t.op == "phi" else [t]


def together(it, d, l):
    """environments (reachable counter differences) in which both effects happen; None: never; [{}] when unconstrained"""
    gs = list(d.guards) + list(l.guards)
    cs = counters(gs)
    st = getattr(it.run, "_steps", None)
    if st is None:
        st = Steps(it.run)
        try:
            it.run._steps = st
        except AttributeError:
            pass
    envs = [{}]
    used = set()
    for u, x, y in sorted(cs, key=lambda z: (z[0], z[1].n, z[2].n)):
        if (y, x) in used or (x, y) in used:
            continue
        used.add((x, y))
        ds = st.diffs(u, x, y)
        if ds is None:
            continue
        envs = [dict(e, **{}) | {(x, y): dd} for e in envs for dd in sorted(ds)]
    out = []
    for e in envs:
        rs = [truth(g, e) for g in gs]
        if False in rs:
            continue
        if any(mk_not(g) in gs for g in gs):
            continue
        sure = all(r is True or not g_counter(g) for r, g in zip(rs, gs))
        out.append((e, sure))
    return out


def g_counter(g):
    return bool(counters([g]))


def axis_features(xs, ys, key):
    return feature_of_values(xs, None), feature_of_values(ys, None)


def surface(chk, it, d, labels, rugs, X):
    where = d.where()
    subj = "%s: %s" % (it.name, short(d.name))
    labs = [l for l in labels if on_axes(l, d)]
    rg = [r for r in rugs if scope(r) == scope(d)]
    for keys, ts in orient(*(list(d.args[:3]) + [label_text(l) or NONE for l in labs] + [r.kw.get(a, NONE) for r in rg for a in ("x", "y")])):
        xs, ys, z = ts[:3]
        lt = ts[3:3 + len(labs)]
        rt = ts[3 + len(labs):]
        fx, fy = feature_of_values(xs, None), feature_of_values(ys, None)
        if fx is None or fy is None:
            chk.und("drawing", subj, "axis values %s, %s" % (sh(xs), sh(ys)), where)
            continue
        for a in (xs, ys):
            mo = misordered(chk, a)
            if mo is not False:
                chk.ob("drawing", subj, False if mo else None, mo or "order of %s" % sh(a), where)
        # the matrix: rows along y, columns along x
        k = matrix_of(z, keys)
        if k is None:
            chk.und("drawing", subj, "values %s" % show(z, 4), where)
        else:
            a0, a1 = k
            if (a0, a1) == (fy, fx):
                chk.good("drawing", subj + " values")
            elif (a0, a1) == (fx, fy):
                chk.bad("drawing", subj, "the table has %s along its rows but %s is drawn on the vertical axis" % (sh(a0), sh(fy)), where)
            else:
                chk.bad("drawing", subj, "axes %s and %s are drawn for the table of %s and %s" % (sh(fx), sh(fy), sh(a0), sh(a1)), where)
        for l, t in zip(labs, lt):
            judge_label(chk, it, subj, d, l, t, fx, fy)
        for n, r in enumerate(rg):
            for ax, want, got in (("x", fx, rt[2 * n]), ("y", fy, rt[2 * n + 1])):
                if got is NONE:
                    continue
                chk.ob("drawing", "%s: rug on %s" % (it.name, ax), True if got is want else (False if got in (fx, fy) else None),
                       "the marks on the %s axis are those of %s, the axis shows %s" % (ax, sh(got), sh(want)), r.where())


def judge_label(chk, it, subj, d, l, t, fx, fy):
    if is_const(t) or t is NONE:
        return
    n = short(l.name)
    want, other = (fy, fx) if n in ("ylabel", "set_ylabel") else (fx, fy)
    if n == "title":
        return
    envs = together(it, d, l)
    if not envs:
        return
    lsub = "%s: %s" % (it.name, n)
    if t is want:
        chk.good("label", lsub)
        return
    if not any(s for _, s in envs):
        chk.und("label", lsub, "cannot tell which panel is labelled", l.where())
        return
    if t is other:
        chk.bad("label", lsub, "the axis shows %s but is labelled %s" % (sh(want), sh(t)), l.where())
    elif any(x.op in ("rows", "iloc", "idx") for x in walk(t)) or t.op in ("param", "proj"):
        chk.bad("label", lsub, "the axis shows %s but is labelled %s" % (sh(want), show(t, 4)), l.where())
    else:
        chk.und("label", lsub, "label %s" % sh(t), l.where())


def matrix_of(z, keys):
    """features of (rows, columns) of the drawn table"""
    tr = False
    m = strip_conv(z)
    while True:
        if m.op == "attr" and m.a[1] == "T":
            tr, m = not tr, m.a[0]
        elif m.op == "m" and m.a[0] == "transpose" and not m.a[2]:
            tr, m = not tr, m.a[1]
        elif m.op == "call" and m.a[0] == "numpy.transpose" and len(m.a[1]) == 1:
            tr, m = not tr, m.a[1][0]
        elif m.op == "copy" or m.op == "conv":
            m = m.a[1] if m.op == "conv" else m.a[0]
        else:
            break
    c = pt.cache_read(m)
    if c is not None and c[0] == "pair" and c[1].op == "tuple":
        k = c[1].a
    elif m.op == "loc" and m.a[0].op == "cell" and len(keys) == 1:
        k = keys[0]                     # the entry of the pair cache that was looked up
    else:
        return None
    return (k[1], k[0]) if tr else (k[0], k[1])


def curve(chk, it, d, labels, rugs, X):
    where = d.where()
    subj = "%s: %s" % (it.name, short(d.name))
    xs, ys = d.args[:2]
    fx = feature_of_values(xs, None)
    c = pt.cache_read(strip_conv(ys))
    if c is None and feature_of_values(ys, None) is not None and pt.cache_read(strip_conv(xs)) is not None:
        chk.bad("drawing", subj, "the partial dependence is drawn on the horizontal axis, the values of %s on the vertical one" % sh(feature_of_values(ys, None)), where)
        return
    if fx is None or c is None:
        chk.und("drawing", subj, "curve %s, %s" % (sh(xs), sh(ys)), where)
        return
    mo = misordered(chk, xs)
    if mo is not False:
        chk.ob("drawing", subj, False if mo else None, mo or "order of %s" % sh(xs), where)
    chk.ob("drawing", subj, True if c == ("single", fx) else False, "the values of %s are drawn against %s[%s]" % (sh(fx), c[0], sh(c[1])), where)
    for l in labels:
        if on_axes(l, d):
            t = label_text(l)
            if t is None or is_const(t):
                continue
            n = short(l.name)
            if n in ("xlabel", "set_xlabel"):
                chk.ob("label", "%s: %s" % (it.name, n), True if t is fx else (False if t.op == "param" else None), "the axis shows %s but is labelled %s" % (sh(fx), sh(t)), l.where())
            elif n in ("ylabel", "set_ylabel") and t is fx:
                chk.bad("label", "%s: %s" % (it.name, n), "the vertical axis shows partial dependence but is labelled %s" % sh(t), l.where())
    for r in rugs:
        if scope(r) == scope(d):
            t = r.kw.get("x")
            if t is not None:
                chk.ob("drawing", "%s: rug on x" % it.name, True if t is fx else (False if t.op == "param" else None), "the marks are those of %s, the axis shows %s" % (sh(t), sh(fx)), r.where())


def row_field(t):
    """(row, name) of a field of one table row"""
    if t.op == "idx" and is_const(t.a[1]) and cval(t.a[1]) in ("Feature 1", "Feature 2"):
        return t.a[0], cval(t.a[1])
    return None


def panels(chk, it):
    """the pair drawn next consists of the two features of one row of the strength table"""
    for rec in it.run.loops:
        for k, (pre, post) in rec["snap"].items():
            if pre is None or post is None or pre.op != "tuple" or len(pre.a) != 2 or not all(row_field(x) for x in pre.a):
                continue
            cs = pt.cases(post)
            subj = "%s: next pair" % it.name
            if cs is None:
                chk.und("panel", subj, "too many cases", rec["where"])
                continue
            prev = [x for x in walk(post) if x.op == "idx" and x.a[0].op == "loopin" and x.a[0].a[1] == k[2]]
            for c, t in cs:
                chk.ob("panel", subj, *judge_panel(c, t, prev), str(rec["where"]))


def judge_panel(c, t, prev):
    if t.op != "tuple" or len(t.a) != 2:
        return None, sh(t)
    f = [row_field(x) for x in t.a]
    if f[0] and f[1]:
        if f[0][0] is not f[1][0]:
            return False, "the two features of the panel come from different rows"
        return (True, "") if f[0][1] != f[1][1] else (False, "the panel shows %s twice" % f[0][1])
    i = 0 if f[0] else 1
    if not f[i] or t.a[1 - i] not in prev:
        return None, sh(t)
    # one feature is carried over: the other one is the other feature of the row
    row, nm = f[i]
    for cc, v in c:
        if cc.op == "cmp" and cc.a[0] == "==" and t.a[1 - i] in cc.a[1:]:
            o = cc.a[2] if cc.a[1] is t.a[1 - i] else cc.a[1]
            g = row_field(o)
            if g and g[0] is row:
                same = (g[1] == nm) == v            # the row's feature nm is the carried feature itself
                return (not same), "the panel pairs a feature with itself: %s is taken where it equals the carried feature" % nm
    return None, "unconditional %s" % nm


def check_C13(chk):
    """Role analysis. Feature roles are followed through the terms: an array of distinct values, a column, a matrix axis, a loop element and an
    axis label each belong to one feature; roles that meet (cell and key, axis and values, read and row, panel and label) have to name the
    same feature. Conditions that decide which orientation of a pair is stored are split into both cases."""
    items = S.calc_items(chk)
    for it in items:
        chk.seen(it.run)
        chk.guard("cell", it.name, stores, chk, it)
    if items:
        chk.guard("layout", "caches", layout, chk, S.getter_item(chk, None, ()))
    for op, args in GETTERS:
        chk.guard("read", op, getter, chk, op, args)
    for k in ("friedman", "greenwell"):
        for o in ({}, {"features": "1"}, {"calc": "1"}):
            it = S.fit_item(chk, k, o)
            if it is not None:
                chk.seen(it.run)
                chk.guard("strength", it.name, strengths, chk, it)
    it = S.fit_item(chk, "imp_pdp", {})
    if it is not None:
        chk.guard("strength", it.name, strengths, chk, it)
    for it in S.profile_suite(chk):
        chk.seen(it.run)
        chk.guard("drawing", it.name, drawings, chk, it)
        chk.guard("panel", it.name, panels, chk, it)


def approximate(i):
    """a position searched with a tolerance: neighbouring values share a cell"""
    return any(x.op == "call" and x.a[0] in ("numpy.isclose", "math.isclose") for x in walk(i))
