"""C14: sampled rows and targets."""
from .. import query as q
from .. import suites as S
from .. import tables as tb
from ..terms import T, mk, const, NONE, TRUE, FALSE, is_const, cval, walk, show, strip_conv, children, subst, mk_len

PLAIN = ("values", "array")
PART = {"drop_duplicates", "head", "tail", "dropna", "nlargest", "nsmallest", "query", "truncate", "filter", "sample"}


def unwrap(t):
    """drop wrappers that keep the positions: conversions, .values, copies"""
    while True:
        t0 = t
        t = strip_conv(t)
        if t.op == "copy":
            t = t.a[0]
        elif t.op == "attr" and t.a[1] in PLAIN:
            t = t.a[0]
        elif t.op == "m" and t.a[0] in ("to_numpy", "tolist", "to_list", "copy", "ravel", "flatten", "astype"):
            t = t.a[1]
        elif t.op == "call" and t.a[0] in ("numpy.array", "numpy.asarray", "list", "numpy.ravel", "numpy.squeeze") and t.a[1]:
            t = t.a[1][0]
        if t is t0:
            return t


def select(t, base):
    """positional selector s if t holds base's rows at positions s"""
    t = strip_conv(t)
    while t.op == "copy" or (t.op == "m" and t.a[0] == "reset_index"):
        t = t.a[0] if t.op == "copy" else t.a[1]
    if t.op == "iloc" and unwrap(t.a[0]) is base:
        return unwrap(t.a[1])
    if t.op in ("idx", "rows") and t.a[0] is not base and unwrap(t.a[0]) is base:
        return unwrap(t.a[1])
    if t.op == "m" and t.a[0] == "take" and unwrap(t.a[1]) is base and t.a[2]:
        return unwrap(t.a[2][0])
    if t.op == "call" and t.a[0] == "numpy.take" and len(t.a[1]) >= 2 and unwrap(t.a[1][0]) is base:
        return unwrap(t.a[1][1])
    if t.op == "map" and t.a[2] is TRUE and t.a[1].op == "idx" and unwrap(t.a[1].a[0]) is base and t.a[1].a[1].op == "elem" and t.a[1].a[1].a[0] is t.a[0]:
        return unwrap(t.a[0])
    return None


def labelled(t, base):
    """is base selected by index labels?"""
    t = unwrap(t)
    if t.op in ("rows", "locidx") and t.a[0] is base and draw_of(t.a[1])[0] is not None:
        return True
    if t.op in ("rows", "idx", "locidx") and unwrap(t.a[0]) is base:
        return any(x.op == "attr" and x.a[1] == "index" for x in walk(t.a[1]))
    if t.op == "m" and t.a[0] in ("reindex", "loc", "get") and unwrap(t.a[1]) is base:
        return True
    return False


def draw_of(s):
    """(draw term, extra slice) behind a selector"""
    s = unwrap(s)
    if s.op == "attr" and s.a[1] == "index":
        s = s.a[0]
    if s.op == "call" and s.a[0] in ("numpy.sort", "sorted") and s.a[1]:
        s = unwrap(s.a[1][0])
    s = shuffled(s)
    if s.op == "draw":
        return s, None
    if s.op in ("idx", "rows", "iloc") and s.a[1].op == "slice" and shuffled(unwrap(s.a[0])).op == "draw":
        return shuffled(unwrap(s.a[0])), s.a[1]
    return None, None


def shuffled(s):
    """an array shuffled in place is the draw that shuffled it"""
    if s.op == "mut" and s.a[0] == ".shuffle" and len(s.a) > 2 and isinstance(s.a[2], T) and s.a[2].op == "draw":
        d = s.a[2]
        return mk("draw", d.a[0], "permutation", d.a[2], (s.a[1],), d.a[4])
    return s


def all_rows(p, X):
    """population p is the set of all row positions of X"""
    p = unwrap(p)
    ln = mk_len(X)
    if p is ln:
        return True
    if p.op == "range" and is_const(p.a[0]) and cval(p.a[0]) == 0 and p.a[1] is ln:
        return True
    if p.op == "call" and p.a[0] in ("pandas.Series", "pandas.Index", "pandas.RangeIndex", "numpy.arange", "range"):
        d = dict(p.a[2]).get("data") or dict(p.a[2]).get("stop") or (p.a[1][0] if p.a[1] else None)
        return d is not None and all_rows(d, X)
    return False


def judge_draw(d, sl, X, n):
    """(verdict, message)"""
    how, args, kw = d.a[1], d.a[3], dict(d.a[4])
    rep = kw.get("replace")

    def num_ok(t):
        t = strip_conv(t) if t is not None else None
        if t is None:
            return False, "the number of rows is not given"
        while t.op == "call" and t.a[0] in ("int", "numpy.int64") and len(t.a[1]) == 1:
            t = strip_conv(t.a[1][0])
        if t is n:
            return True, ""
        if t.op == "call" and t.a[0] in ("min", "max", "numpy.minimum", "numpy.maximum") and any(strip_conv(x) is n for x in t.a[1]) and all(strip_conv(x) is n or is_const(x) for x in t.a[1]):
            return False, "%s rows are drawn instead of n" % show(t, 3)
        if any(x.op in ("phi", "call", "opaque", "m") for x in walk(t)):
            return None, "number of rows not resolved: %s" % show(t, 3)
        return False, "%s rows are drawn instead of n" % show(t, 3)
    if how == "sample":
        pop = args[0] if args else None
        if pop is not None and strip_conv(pop).op == "m" and strip_conv(pop).a[0] in PART and tb.strip_rows(pop) is X or \
                pop is not None and strip_conv(pop).op == "m" and strip_conv(pop).a[0] in PART and strip_conv(pop).a[1] is X:
            return False, "the sample is drawn from a part of the data: %s" % show(pop, 3)
        if pop is None or not (pop is X or tb.strip_rows(pop) is X or all_rows(pop, X)):
            return None, "population not resolved: %s" % (show(pop, 3) if pop is not None else None)
        if pop is not X and not all_rows(pop, X):
            return None, "population is a part of the data"
        if rep is not None and not (is_const(rep) and cval(rep) is False):
            return (False if is_const(rep) or rep.op in ("cmp", "not", "and", "or") else None), "rows are drawn with replacement%s" % ("" if is_const(rep) else " if %s" % show(rep, 3))
        if "frac" in kw and kw["frac"] is not NONE:
            return False, "a fraction of the rows is drawn"
        ok, m = num_ok(kw.get("n") or (args[1] if len(args) > 1 else None))
        return ok, m
    if how == "choice":
        a = list(args)
        pop = a[0] if a else kw.get("a")
        if pop is None or not all_rows(pop, X):
            if pop is not None and unwrap(pop).op == "attr" and unwrap(pop).a[1] == "index":
                return False, "index labels are drawn, not row positions"
            return None, "population not resolved"
        rep = rep or (a[2] if len(a) > 2 else None)
        if rep is None or (is_const(rep) and cval(rep) is True):
            return False, "rows are drawn with replacement"
        if not is_const(rep):
            return False if rep.op in ("cmp", "not", "and", "or") else None, "rows are drawn with replacement if %s" % show(rep, 3)
        return num_ok(kw.get("size") or (a[1] if len(a) > 1 else None))
    if how == "permutation":
        if sl is None:
            return False, "all rows are used instead of n"
        pop = kw.get("x") or (args[0] if args else None)
        if pop is None or not all_rows(pop, X):
            return None, "population not resolved"
        if sl.a[0] is not NONE and not (is_const(sl.a[0]) and cval(sl.a[0]) == 0):
            return None, "slice not resolved"
        return num_ok(sl.a[1])
    if how in ("integers", "randint", "choices", "random_integers"):
        return False, "rows are drawn with replacement (%s)" % how
    return None, "draw %s not understood" % how


def frame_sample(chk, it, subj, t, X, n, where):
    """judge the term that should hold the sampled data; returns the selector or None"""
    if t is X:
        chk.bad("sample", subj, "the data are not sampled although n is given", where)
        return None
    if t.op == "draw":
        ok, m = judge_draw(t, None, X, n)
        chk.ob("sample", subj, ok, m, where)
        return t
    s = select(t, X)
    if s is not None:
        d, sl = draw_of(s)
        if d is None:
            if s.op == "slice":
                chk.bad("sample", subj, "rows are taken by position, not drawn: %s" % show(s, 3), where)
            else:
                chk.und("sample", subj, "selector not resolved: %s" % show(s, 3), where)
            return s
        ok, m = judge_draw(d, sl, X, n)
        chk.ob("sample", subj, ok, m, where)
        return s
    if t.op == "m" and t.a[0] in ("head", "tail") and tb.strip_rows(t) is X:
        chk.bad("sample", subj, "the first or last rows are taken, not a sample", where)
        return None
    if t.op == "m" and t.a[0] in ("drop_duplicates", "dropna", "head", "tail", "query") and \
            (t.a[1].op == "draw" or select(t.a[1], X) is not None):
        chk.bad("sample", subj, "rows of the sample are dropped by %s(), so that fewer than n can remain" % t.a[0], where)
        return None
    if labelled(t, X):
        chk.bad("sample", subj, "rows are selected by index label: %s" % show(t, 4), where)
        return None
    chk.und("sample", subj, "sampled data not resolved: %s" % show(t, 4), where)
    return None


def benign(cs, n):
    """conditions that only concern n == 0 / n missing"""
    return bool(cs) and all(any(x is n for x in walk(c)) and c.op in ("truth", "isnone", "cmp", "not") and not any(x.op == "len" for x in walk(c)) for c, v in cs)


def raw_uses(t, X, samples, y=None):
    """places where the unsampled data (or target) enter t, other than through column names / types"""
    out = []
    seen = set()
    st = [t]
    while st:
        x = st.pop()
        if x in seen or x in samples:
            continue
        seen.add(x)
        if x is X or (y is not None and x is y):
            out.append(x)
            continue
        if x.op == "attr" and x.a[1] in ("columns", "dtypes", "shape") and x.a[0] is X:
            continue
        if x.op in ("hasattr", "isinstance", "in", "keysof") or (x.op == "m" and x.a[0] in ("_get_numeric_data", "select_dtypes", "keys") and x.a[1] is X):
            if x.op != "in":
                continue
        if x.op in ("combinations", "elem", "pos") and tb.strip_rows(x.a[0]) is X:
            continue
        st.extend(children(x))
    return out


def cuts(t, samples):
    """a term that takes only some rows of the sample"""
    for x in walk(t):
        if x.op == "m" and x.a[0] in PART and strip_conv(x.a[1]) in samples:
            return x
        if x.op == "draw" and x.a[1] == "sample" and x not in samples and x.a[3] and strip_conv(x.a[3][0]) in samples:
            return x
        if x.op in ("rows", "iloc") and x not in samples and strip_conv(x.a[0]) in samples and x.a[1].op == "slice" and not all(y is NONE for y in x.a[1].a):
            return x
    return None


def check_C14(chk):
    """Selector provenance: with n given, the data an operation keeps are the rows of X selected by one draw of exactly n
    positions without replacement; the target is selected from y_true by the very same positional selector on every branch
    (never by index label, never by a second draw); no result, no prediction and no calculator uses the unsampled data.
    Without n the data and target are used as given."""
    X, Y, n = None, None, None
    seen = set()
    for it in S.fit_suite(chk):
        if it.key not in ("friedman", "greenwell", "sejong", "additivity", "imp_pdp", "imp_perm"):
            continue
        chk.guard("sample", it.name, rules, chk, it)


def rules(chk, it):
    s = it.run.s
    X, Y, n = q.param("X", "frame"), q.param("y_true", "any"), q.param("n", "num")
    f = q.fields(it)
    hasn = it.opts.get("n") == "1"
    wh = lambda a: next((e.where() for e in reversed(list(it.run.effects("setattr"))) if e.field == a), "")
    samples = set()
    sel = None
    xs = f.get("X_sampled")
    if xs is None and it.key != "imp_perm":
        chk.und("sample", it.name, "no X_sampled attribute")
        return
    if it.key != "imp_perm":
        for cs, leaf in q.phi_leaves(xs):
            if benign(cs, n):
                continue
            subj = it.name + ": X_sampled"
            if hasn:
                r = frame_sample(chk, it, subj, leaf, X, n, wh("X_sampled"))
                samples.add(leaf)
                sel = r if r is not None else sel
            else:
                ok = leaf is X or tb.strip_rows(leaf) is X and leaf.op == "copy"
                chk.ob("sample", subj, True if ok else (None if any(x.op in ("opaque", "deep") for x in walk(leaf)) else False),
                       "without n the data are not used as given: %s" % show(leaf, 3), wh("X_sampled"))
    if it.key == "sejong":
        ys = f.get("y_sampled")
        for cs, leaf in q.phi_leaves(ys) if ys is not None else ():
            if benign(cs, n):
                continue
            subj = it.name + ": y_sampled"
            if not hasn:
                ok = unwrap(leaf) is Y
                chk.ob("aligned target", subj, True if ok else None, "not resolved: %s" % show(leaf, 3), wh("y_sampled"))
                continue
            samples.add(leaf)
            ysel = select(leaf, Y)
            if unwrap(leaf) is Y:
                chk.bad("aligned target", subj, "the target is not sampled", wh("y_sampled"))
            elif labelled(leaf, Y):
                chk.bad("aligned target", subj, "target values are selected by index label: %s" % show(leaf, 4), wh("y_sampled"))
            elif ysel is not None and sel is not None:
                if ysel is sel:
                    chk.good("aligned target", subj)
                else:
                    d1, d2 = draw_of(sel)[0], draw_of(ysel)[0]
                    if d1 is not None and d2 is not None:
                        chk.bad("aligned target", subj, "data and target are selected by different draws" if d1 is not d2 else
                                "the drawn rows are taken in different orders for data and target", wh("y_sampled"))
                    elif d1 is not None and not any(x.op in ("draw", "opaque") for x in walk(ysel)):
                        chk.bad("aligned target", subj, "the target rows %s are not the drawn ones" % show(ysel, 3), wh("y_sampled"))
                    else:
                        chk.und("aligned target", subj, "selector not resolved", wh("y_sampled"))
            elif leaf.op == "draw" or any(x.op == "draw" and x is not sel and x is not (draw_of(sel)[0] if sel is not None else None) for x in walk(leaf)):
                chk.bad("aligned target", subj, "the target is drawn separately from the data: %s" % show(leaf, 4), wh("y_sampled"))
            else:
                chk.und("aligned target", subj, "target selection not resolved: %s" % show(leaf, 4), wh("y_sampled"))
        if ys is not None:
            samples.add(ys)
    if xs is not None:
        samples.add(xs)
    if not hasn:
        return
    y = Y if it.key == "sejong" else None
    skip = ("X_sampled", "y_sampled", "features_included", "pairs")
    for nme, t in sorted(q.results(it).items()):
        if nme in skip:
            continue
        u = raw_uses(t, X, samples, y)
        c = cuts(t, samples)
        if c is not None and not u:
            chk.bad("on the sample", "%s: %s" % (it.name, nme), "%s is computed from a part of the sample: %s" % (nme, show(c, 3)), wh(nme))
            continue
        chk.ob("on the sample", "%s: %s" % (it.name, nme), not u, "%s is computed from the unsampled %s" % (nme, "target" if u and u[0] is Y else "data"), wh(nme))
    k = 0
    for e in it.run.effects("ext"):
        nm = e.name.split(".")[-1]
        if nm in ("predict", "predict_proba") or e.name == "<value>" or nm in ("calculate",):
            k += 1
            for a in list(e.args or ()) + list((e.kw or {}).values()):
                if isinstance(a, T):
                    u = raw_uses(a, X, samples, y)
                    if u:
                        chk.bad("on the sample", "%s: prediction" % it.name, "the model is given the unsampled data", e.where())
    chk.count("predictions examined", k)
    for e in it.run.effects("raise"):
        for g in e.guards:
            if any(x.op == "m" and x.a[0] == "equals" and {strip_conv(y) for y in [x.a[1]] + list(x.a[2]) + [v for _, v in x.a[3]]} >= {X} and
                   any(strip_conv(y) in samples for y in [x.a[1]] + list(x.a[2]) + [v for _, v in x.a[3]]) for x in walk(g)):
                chk.bad("on the sample", "%s: data check" % it.name, "the sample is compared with the unsampled data, so the call fails", e.where())
    for e in it.run.effects("new"):
        if e.val is not None and e.val.kind == "obj":
            o = s.st.heap.get(e.val.cell)
            if o is not None and "pd_single" in o.fields and "X" in o.fields:
                t = s.snap(o.fields["X"])
                if q.params_in(t) & {"calc_X"}:
                    continue
                u = raw_uses(t, X, samples)
                chk.ob("on the sample", "%s: calculator data" % it.name, not u, "the calculator holds the unsampled data", e.where())
