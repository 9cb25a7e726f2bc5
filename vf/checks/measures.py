"""C17 / C18 / C19: the arithmetic of strengths, importances and the additivity index."""
from .. import pdterms as pt
from .. import perms
from .. import query as q
from .. import suites as S
from .. import tables as tb
from .. import units as un
from ..terms import T, mk, const, NONE, TRUE, is_const, cval, walk, show, strip_conv, subst, assume, add_fact, mk_truth

NAMES = ("Feature", "Feature 1", "Feature 2")


def data_of(it):
    xs = q.fields(it).get("X_sampled")
    return q.param("X", "frame") if xs is None else perms.origin(xs)


def where_table(it, n):
    w = [e for e in it.run.effects("setattr") if e.field == n]
    return w[-1].where() if w else ""


def value_rows(it, tables=("ovo", "ova", "feature_importance")):
    """(table, value term, name terms, problem, where) for the value column of each table"""
    res = q.results(it)
    for n in tables:
        t = res.get(n)
        if t is None:
            continue
        seen = set()
        for cs, leaf in q.phi_leaves(t, 20):
            if leaf is NONE or leaf in seen:
                continue
            seen.add(leaf)
            steps, base = tb.peel(leaf)
            r = tb.records(base)
            wh = where_table(it, n)
            if r is None or r.row is None:
                yield n, None, (), "rows not resolved: %s" % show(base, 3), wh
                continue
            cols = [k for k in r.row if k not in NAMES]
            if len(cols) != 1:
                yield n, None, (), "value column not resolved", wh
                continue
            final = cols[0]
            for st in reversed(steps):
                if st.name == "rename":
                    m = st.kw.get("columns")
                    for a, b in (m.a if m is not None and m.op == "dict" else ()):
                        if isinstance(a, T) and is_const(a) and cval(a) == final and is_const(b):
                            final = cval(b)
            val, prob, _ = tb.final_value(leaf, final)
            names = tuple(strip_conv(r.row[k]) for k in NAMES if k in r.row)
            yield n, val, names, prob, wh


# ---------------------------------------------------------------------------------------------- C17
PD_ITEMS = [("friedman", {}), ("friedman", {"n": "1", "features": "1", "pf": "1"}), ("friedman", {"calc": "1"}), ("greenwell", {}),
            ("greenwell", {"n": "1", "features": "1", "pf": "1"}), ("greenwell", {"calc": "1"}), ("imp_pdp", {}), ("imp_pdp", {"calc": "1"}),
            ("additivity", {}), ("additivity", {"n": "1", "pf": "1"}), ("additivity", {"calc": "1"})]


def pd_items(chk):
    its = list(PD_ITEMS)
    if chk.thorough:
        its += [(k, {a: b for a, b in o.items() if not (k == "additivity" and a == "features")}) for k in ("friedman", "greenwell", "imp_pdp", "additivity") for o in S.PD_MORE]
    out = []
    for k, o in its:
        i = S.fit_item(chk, k, o)
        if i is not None:
            out.append(i)
    return out


def want_degree(it, table, normalized):
    if it.key == "additivity":
        return 0
    if table == "feature_importance":
        return 1
    if it.key == "friedman":
        return 0 if normalized else 1
    return 1


def check_C17(chk):
    """Dimension analysis of every strength, importance and the additivity index down to the model's predictions and stored
    partial dependence values: predictions carry shift 1 and degree 1, the result has to carry shift 0 and degree 1 (0 for
    normalized H and the additivity index).  Values written to the partial dependence store have to carry shift 1, degree 1."""
    for it in pd_items(chk):
        chk.guard("laws", it.name, laws, chk, it)
        chk.guard("stored values", it.name, stored, chk, it)


def judge(chk, subj, u, want, wh):
    if u.s is None:
        chk.und("shift", subj, "not resolved", wh)
    else:
        chk.ob("shift", subj, u.s == {}, "the value changes when a constant is added to the model's output%s" % ((": " + u.why) if u.why else ""), wh)
    if u.d is None:
        chk.und("scale", subj, "not resolved", wh)
    elif u.d == un.MIX:
        chk.bad("scale", subj, "the value is not homogeneous in the model's output: %s" % u.why, wh)
    elif u.d == un.ANY:
        chk.bad("scale", subj, "the value is constantly zero", wh)
    else:
        chk.ob("scale", subj, abs(u.d - want) < 1e-9, "scales with degree %s in the model's output, expected %s" % (u.d, want), wh)


def all_cases(t):
    cs = pt.cases(t, only=lambda c: not un.derived(c))
    return [x for _, x in cs] if cs else [t]


def laws(chk, it):
    X = data_of(it)
    ev = un.Eval(X)
    nrm = q.param("normalized")
    if it.key == "additivity":
        v = q.results(it).get("return value")
        for x in all_cases(v):
            judge(chk, it.name, ev.unit(x), 0, "")
        return
    for n, val, names, prob, wh in value_rows(it):
        subj = "%s: %s" % (it.name, n)
        if val is None or prob:
            chk.und("laws", subj, prob or "?", wh)
            continue
        for b in ((True, False) if it.key == "friedman" and nrm is not None else (None,)):
            v = val if b is None else assume(val, add_fact({}, mk_truth(nrm), b))
            for x in all_cases(v):
                judge(chk, subj + ("" if b is None else (" normalized" if b else " unnormalized")), ev.unit(x), want_degree(it, n, b), wh)


def pd_path(p):
    return isinstance(p, T) and pt.cache_read(p) is not None


def stored(chk, it):
    ev = un.Eval(data_of(it))
    n = 0
    for e in it.run.effects("mutate"):
        if e.how != "setitem" or not pd_path(e.path) or not isinstance(e.value, T):
            continue
        u = ev.unit(e.value)
        subj = "%s: %s" % (it.name, pt.cache_read(e.path)[0])
        n += 1
        if u.s is None or u.d is None:
            chk.und("stored values", subj, "not resolved: %s" % show(e.value, 4), e.where())
        else:
            ok = u.d == 1 and u.s == {(): 1.0}
            chk.ob("stored values", subj, ok, "the stored value does not move one to one with the model's output", e.where())


# ---------------------------------------------------------------------------------------------- C18
class Shape(Exception):
    pass


def vanish(t):
    """(L, even): the value is zero exactly when the linear form L is (even: signs cannot cancel)"""
    even = False
    while True:
        o = t.op
        if o == "pow" and pt.num(t.a[1]) and cval(t.a[1]) > 0:
            if cval(t.a[1]) in (2, 4):
                l = t.a[0]
                # the root of a square: keep looking only if the inside is not yet a difference
                return l, True
            t = t.a[0]
        elif o == "abs":
            return t.a[0], True
        elif o == "bin" and t.a[0] == "/":
            t = t.a[1]
        elif o == "bin" and t.a[0] == "*" and (pt.num(t.a[1]) or pt.num(t.a[2])):
            t = t.a[2] if pt.num(t.a[1]) else t.a[1]
        elif o == "red" and t.a[0] in ("mean", "sum", "median") and not t.a[2]:
            t = t.a[1]
        elif o == "map" and t.a[2] is TRUE:
            t = t.a[1]
        elif o == "conv":
            t = t.a[1]
        elif o in ("copy",):
            t = t.a[0]
        elif o == "call" and t.a[0] in ("numpy.nan_to_num", "numpy.sqrt", "math.sqrt", "float", "numpy.linalg.norm") and t.a[1]:
            even = even or t.a[0].endswith("norm")
            t = t.a[1][0]
            if even:
                return t, True
        elif o == "call" and t.a[0] in ("numpy.divide", "numpy.true_divide") and t.a[1]:
            t = t.a[1][0]
        elif o == "call" and t.a[0] in ("numpy.square", "numpy.abs", "numpy.absolute", "abs") and t.a[1]:
            return t.a[1][0], True
        else:
            return t, False


def check_C18(chk):
    """Affine coefficients: the quantity under the square (absolute value) of every strength is written as a linear form over
    partial dependence reads, predictions or scores.  It has to be joint - first - second (centred), prediction - single -
    complement, score12 - score1 - score2 + score0, prediction - sum over all columns of single effects, and every read has
    to be keyed and indexed by the features of its own row."""
    for it in pd_items(chk):
        if it.key in ("friedman", "additivity"):
            chk.guard("differences", it.name, differences, chk, it)
    for o in ({}, {"n": "1", "features": "1"}):
        for m in (None, "sym", "Accuracy"):
            it = S.fit_item(chk, "sejong", o, **({"metric": m} if m else {}))
            if it is not None:
                chk.guard("differences", it.name, perm_difference, chk, it)


def data_terms(it):
    """the data, and the data of a supplied calculator, which the call has checked to be equal (C05)"""
    X = data_of(it)
    if it.opts.get("calc"):
        c = q.param("calc_X", "frame")
        if c is not None:
            return (X, c)
    return (X,)


def atoms(chk, L, X, subj, wh):
    """{(kind, key set or tuple): coefficient} or None"""
    out = {}
    ok = True
    for a, c in pt.lin(L).items():
        if a is None:
            chk.bad("differences", subj, "a constant %s is added to the difference" % c, wh)
            return None
        b = un.bigsum(a, X[0], True)
        if b is not None and len(b) > 2:
            chk.bad("differences", subj, "sum of single-feature effects: %s" % b[2], wh)
            return None
        if b is not None:
            out[("sum", a)] = (c, b)
            continue
        k = pt.classify(a, X)
        if k is None:
            chk.und("differences", subj, "not resolved: %s" % show(a, 5), wh)
            ok = False
            continue
        if k.problem:
            chk.bad("differences", subj, "%s: %s" % (k.kind, k.problem), wh)
            ok = False
            continue
        kind, key = k.kind, k.key
        if kind == "mean":
            kind = "mean " + k.inner.kind
        key = frozenset(key)
        out[(kind, key)] = out.get((kind, key), 0) + c
    return out if ok else None


def same_form(got, want):
    """got = alpha * want for some alpha != 0"""
    if set(got) != set(want):
        return False
    al = None
    for k, c in want.items():
        r = got[k] / c
        if al is None:
            al = r
        if abs(r - al) > 1e-9:
            return False
    return al is not None and abs(al) > 1e-12


def fmt(form):
    return " ".join("%+g*%s(%s)" % (c, k[0], ",".join(sorted(show(x, 3) for x in k[1]))) for k, c in sorted(form.items(), key=lambda kv: str(kv[0][0])))


def differences(chk, it):
    X = data_terms(it)
    if it.key == "additivity":
        v = q.results(it).get("return value")
        cs = pt.cases(v)
        if cs is None:
            chk.und("differences", it.name, "too many cases")
            return
        for c, t in cs:
            additivity_form(chk, it, t, X)
        return
    for n, val, names, prob, wh in value_rows(it, ("ovo", "ova")):
        subj = "%s: %s" % (it.name, n)
        if val is None or prob:
            chk.und("differences", subj, prob or "?", wh)
            continue
        cs = pt.cases(mk("tuple", val, *names))
        if cs is None:
            chk.und("differences", subj, "too many cases", wh)
            continue
        for c, t in cs:
            v, f = t.a[0], t.a[1:]
            L, even = vanish(v)
            form = atoms(chk, L, X, subj, wh)
            if form is None:
                continue
            if not even:
                chk.bad("differences", subj, "differences of opposite sign cancel: the difference is averaged without square or absolute value", wh)
                continue
            if n == "ovo":
                want = {("pair", frozenset(f)): 1}
                for x in f:
                    want[("single", frozenset([x]))] = -1
            else:
                want = {("pred", frozenset()): 1, ("single", frozenset(f)): -1, ("minus", frozenset(f)): -1}
            full = dict(want)
            for (k, key), co in want.items():
                full[("mean " + k, key)] = -co
            ok = same_form(form, full)
            chk.ob("differences", subj, ok, "the difference is %s" % fmt({k: v for k, v in form.items() if isinstance(v, (int, float))}), wh)


def additivity_form(chk, it, t, X):
    subj = it.name
    if not (t.op == "bin" and t.a[0] == "-" and pt.num(t.a[1]) and cval(t.a[1]) == 1):
        chk.und("differences", subj, "index is not one minus a ratio: %s" % show(t, 3))
        return
    L, even = vanish(t.a[2])
    form = atoms(chk, L, X, subj, "")
    if form is None:
        return
    if not even:
        chk.bad("differences", subj, "residuals of opposite sign cancel")
        return
    sums = {k: v for k, v in form.items() if k[0] == "sum"}
    rest = {k: v for k, v in form.items() if k[0] != "sum"}
    if len(sums) != 1:
        chk.ob("differences", subj, None if sums else False, "no sum of single-feature effects in the residual: %s" % fmt(rest))
        return
    (k, (co, (src, body))), = sums.items()
    fs = tb.feature_source(src, q.param("X", "frame"), None)
    if fs is not True:
        chk.ob("differences", subj, fs, "effects are summed over %s" % show(src, 4))
        return
    inner = {}
    el = mk("elem", src, 0)
    for a, c in pt.lin(body).items():
        kk = pt.classify(a, X) if a is not None else None
        if kk is None:
            chk.und("differences", subj, "effect not resolved: %s" % (show(a, 5) if a is not None else "constant"))
            return
        if kk.problem:
            chk.bad("differences", subj, "effect: %s" % kk.problem)
            return
        kd = "mean " + kk.inner.kind if kk.kind == "mean" else kk.kind
        inner[(kd, kk.key)] = inner.get((kd, kk.key), 0) + c
    sing = [(k, c) for k, c in inner.items() if k[0] == "single"]
    other = [(k, c) for k, c in inner.items() if k[0] != "single"]
    ok = len(sing) == 1 and len(sing[0][0][1]) == 1 and sing[0][0][1][0].op == "elem" and strip_conv(sing[0][0][1][0].a[0]) is strip_conv(src)
    ok = ok and len(other) == 1 and other[0][0][0] in ("mean pred", "mean single") and abs(other[0][1] + sing[0][1]) < 1e-9
    if ok:
        b = sing[0][1] * co
        want = {("pred", frozenset()): 1, ("mean pred", frozenset()): -1}
        ok = same_form(rest, want) and abs(rest[("pred", frozenset())] + b) < 1e-9
    chk.ob("differences", subj, bool(ok), "the residual is %s %+g * sum of (%s)" % (fmt(rest), co, fmt({(k[0], frozenset(k[1])): c for k, c in inner.items()})))


# ---------------------------------------------------------------------------------------------- scores
PREDPH = mk("placeholder", "pred")


def score_atom(a, X, frames):
    """(columns permuted, metric shape) of a score term"""
    while a.op == "red" and a.a[0] == "mean" and not a.a[2] and strip_conv(a.a[1]).op == "map" and strip_conv(strip_conv(a.a[1]).a[0]).op == "range":
        a = strip_conv(a.a[1]).a[1]
    ps = perms.predictions(a)
    ps = [(p, frozenset(frames.frame(arg))) for p, arg in dict(ps).items()]
    if any(k.op == "prev" for p, d in ps for k in d):
        return None
    if len(ps) > 1:
        dirty = [x for x in ps if x[1]]
        ps = dirty if len(dirty) == 1 else ps
    if len(ps) != 1:
        return None
    p, d = ps[0]
    return d, subst(a, {p: PREDPH})


def score_form(chk, rule, L, it, X, subj, wh):
    frames = perms.Frames(X, it.run.loops)
    form, shapes = {}, {}
    for a, c in pt.lin(L).items():
        if a is None:
            chk.bad(rule, subj, "a constant %s is added to the score difference" % c, wh)
            return None, None
        try:
            s = score_atom(a, X, frames)
        except perms.Unresolved as ex:
            s = None
        if s is None:
            chk.und(rule, subj, "score not resolved: %s" % show(a, 5), wh)
            return None, None
        form[s[0]] = form.get(s[0], 0) + c
        shapes.setdefault(s[1], a)
    return {k: v for k, v in form.items() if abs(v) > 1e-12}, shapes


def fmt_scores(form):
    return " ".join("%+g*score(%s)" % (c, "+".join(sorted(show(x, 3) for x in k)) or "reference") for k, c in form.items())


def perm_difference(chk, it):
    X = data_of(it)
    for n, val, names, prob, wh in value_rows(it, ("ovo",)):
        subj = "%s: %s" % (it.name, n)
        if val is None or prob or len(names) != 2:
            chk.und("differences", subj, prob or "?", wh)
            continue
        cs = pt.cases(mk("tuple", val, *names))
        if cs is None:
            chk.und("differences", subj, "too many cases", wh)
            continue
        for c, t in cs:
            v, f = t.a[0], t.a[1:]
            L, even = vanish(v)
            form, shapes = score_form(chk, "differences", L, it, X, subj, wh)
            if form is None:
                continue
            if len(shapes) > 1:
                chk.bad("differences", subj, "scores are computed differently: %s" % " / ".join(show(s, 5) for s in shapes), wh)
                continue
            want = {frozenset(f): 1, frozenset(f[:1]): -1, frozenset(f[1:]): -1, frozenset(): 1}
            chk.ob("differences", subj, same_form(form, want), "the score difference is %s" % fmt_scores(form), wh)


# ---------------------------------------------------------------------------------------------- C19
def orientation(F):
    """+1 when larger F means worse (error), -1 when larger means better, None unknown; F contains the placeholder once"""
    sign = 1
    t = F
    while True:
        o = t.op
        if o == "red" and t.a[0] in ("mean", "sum", "median", "max"):
            t = t.a[1]
        elif o == "map" and t.a[2] is TRUE:
            t = t.a[1]
        elif o == "conv":
            t = t.a[1]
        elif o == "neg":
            sign, t = -sign, t.a[0]
        elif o == "pow" and pt.num(t.a[1]) and cval(t.a[1]) > 0:
            if cval(t.a[1]) in (2, 4):
                return sign if residual(t.a[0]) else None
            t = t.a[0]
        elif o == "abs":
            return sign if residual(t.a[0]) else None
        elif o == "bin" and t.a[0] in "+-" and pt.num(t.a[1]):
            sign, t = (-sign if t.a[0] == "-" else sign), t.a[2]
        elif o == "bin" and t.a[0] in "+-" and pt.num(t.a[2]):
            t = t.a[1]
        elif o == "bin" and t.a[0] in "*/" and pt.num(t.a[2]):
            sign, t = (sign if cval(t.a[2]) > 0 else -sign), t.a[1]
        elif o == "bin" and t.a[0] == "/" and t.a[2].op == "len":
            t = t.a[1]
        elif o == "cmp" and t.a[0] == "==":
            return -sign if any(x is PREDPH for x in walk(t)) else None
        elif o == "not":
            sign, t = -sign, t.a[0]
        elif o == "call" and t.a[0] == "numpy.equal":
            return -sign
        elif o == "call" and t.a[0] == "numpy.not_equal":
            return sign
        elif o == "call" and t.a[0].startswith("sklearn.metrics."):
            n = t.a[0].split(".")[-1]
            return sign if ("error" in n or "loss" in n) else (-sign if "score" in n else None)
        else:
            return None


def residual(t):
    l = pt.lin(t)
    return any(k is not None and any(x is PREDPH for x in walk(k)) for k in l) and len(l) == 2


def metric_case(cs, metric):
    """orientation the conditions of a case imply for a symbolic metric: +1 error, -1 accuracy, None: none, 0: not understood"""
    r = None
    for c, v in cs:
        if not any(x is metric for x in walk(c)):
            continue
        x = c.a[0] if c.op == "truth" else c
        kind = None
        if x.op == "m" and x.a[0] == "applicable_to" and x.a[2] and is_const(x.a[2][0]):
            kind = cval(x.a[2][0])
        elif x.op == "cmp" and x.a[0] == "==":
            for y in x.a[1:]:
                if is_const(y):
                    kind = cval(y)
        if kind == "classification":
            r = -1 if v else 1
        elif kind == "regression":
            r = 1 if v else -1
        else:
            return 0
    return r


def check_C19(chk):
    """Signs: permutation importance is written as a linear form over scores.  It has to be alpha * (score of the permuted
    data - reference score) with alpha positive for metrics whose value falls as predictions improve, negative otherwise,
    with the same score expression (metric and targets) in both terms and nothing that drops the sign around it."""
    for key in ("imp_perm", "sejong"):
        for m in (None, "MSE", "Accuracy", "sym"):
            for o in ({}, {"features": "1"}) if chk.thorough else ({},):
                it = S.fit_item(chk, key, o, **({"metric": m} if m else {}))
                if it is not None:
                    chk.guard("sign", it.name, sign_rule, chk, it, m)


def sign_rule(chk, it, m):
    X = data_of(it)
    metric = q.param("metric", "any")
    for n, val, names, prob, wh in value_rows(it, ("feature_importance",)):
        subj = it.name
        if val is None or prob or len(names) != 1:
            chk.und("sign", subj, prob or "?", wh)
            continue
        cs = pt.cases(mk("tuple", val, *names))
        if cs is None:
            chk.und("sign", subj, "too many cases", wh)
            continue
        for c, t in cs:
            v, f = t.a
            lossy = None
            for _ in range(6):
                if v.op == "abs" or (v.op == "pow" and pt.num(v.a[1])):
                    lossy, v = "the sign is dropped (%s)" % v.op, v.a[0]
                elif v.op == "call" and v.a[0] in ("max", "numpy.maximum", "numpy.abs", "abs", "numpy.square", "numpy.clip") and v.a[1]:
                    nv = [x for x in v.a[1] if not pt.num(x)]
                    if not nv:
                        break
                    lossy, v = "the sign is dropped (%s)" % v.a[0], nv[0]
                elif v.op == "m" and v.a[0] == "clip":
                    lossy, v = "the sign is dropped (clip)", v.a[1]
                else:
                    break
            form, shapes = score_form(chk, "sign", v, it, X, subj, wh)
            if form is None:
                continue
            if lossy:
                chk.bad("sign", subj, lossy, wh)
                continue
            if len(shapes) > 1:
                chk.bad("same score", subj, "the two scores are computed differently: %s" % " / ".join(show(s, 6) for s in shapes), wh)
                continue
            chk.good("same score", subj)
            want = {frozenset([f]): 1, frozenset(): -1}
            if not same_form(form, want):
                chk.bad("sign", subj, "importance is %s" % fmt_scores(form), wh)
                continue
            al = form[frozenset([f])]
            shape = next(iter(shapes))
            if m == "sym":
                o = metric_case(c, metric)
                if o == 0:
                    chk.und("sign", subj, "condition on the metric not understood", wh)
                    continue
                if o is None:
                    chk.bad("sign", subj, "the same sign is used for error metrics and for accuracy-like metrics", wh)
                    continue
            else:
                o = orientation(shape)
                if o is None:
                    chk.und("sign", subj, "metric not resolved: %s" % show(shape, 6), wh)
                    continue
            chk.ob("sign", subj, al * o > 0, "importance is %s although %s values of this metric are better" % (fmt_scores(form), "smaller" if o > 0 else "larger"), wh)
