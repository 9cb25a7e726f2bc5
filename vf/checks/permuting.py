"""C16: permutations perturb only the measured features."""
from .. import perms
from .. import query as q
from .. import suites as S
from .. import tables as tb
from ..terms import T, mk, const, NONE, TRUE, is_const, cval, walk, show, strip_conv

RNG_NEW = ("numpy.random.default_rng", "numpy.random.RandomState", "numpy.random.Generator", "random.Random")


def data_of(it):
    """the data terms an operation may score on"""
    xs = q.fields(it).get("X_sampled")
    return q.param("X", "frame") if xs is None else perms.origin(xs)


def rep_source(t, n):
    t = strip_conv(t)
    return t.op == "range" and is_const(t.a[0]) and cval(t.a[0]) == 0 and t.a[1] is n and (len(t.a) < 3 or not isinstance(t.a[2], T) or cval(t.a[2]) == 1)


def enclosing_maps(t, target):
    """map nodes of t that contain target"""
    return [x for x in walk(t) if x.op in ("map", "sum") and any(y is target for y in walk(x.a[1]))]


def items(chk):
    out = [S.fit_item(chk, "sejong", {}), S.fit_item(chk, "sejong", {"n": "1", "features": "1"}), S.fit_item(chk, "imp_perm", {}),
           S.fit_item(chk, "imp_perm", {"features": "1"}), S.fit_item(chk, "sejong", {}, metric="sym"), S.fit_item(chk, "imp_perm", {}, metric="sym"),
           S.fit_item(chk, "sejong", {}, metric="Accuracy"), S.fit_item(chk, "imp_perm", {}, metric="Accuracy")]
    if chk.thorough:
        out += [S.fit_item(chk, k, {"features": "1"}, metric=m) for k in ("sejong", "imp_perm") for m in ("MSE", "sym", "Accuracy")]
    return [x for x in out if x is not None]


def value_rows(it):
    """(table, row value, features of the row) of each permutation table"""
    for n, t in q.results(it).items():
        if n not in ("ovo", "feature_importance"):
            continue
        for cs, leaf in q.phi_leaves(t, 20):
            st, base = tb.peel(leaf)
            r = tb.records(base)
            if r is None or r.row is None:
                yield n, None, None, base
                continue
            if n == "ovo":
                val = next((v for k, v in r.row.items() if k not in ("Feature 1", "Feature 2")), None)
                f = (r.row.get("Feature 1"), r.row.get("Feature 2"))
            else:
                val = r.row.get("Importance")
                f = (r.row.get("Feature"),)
            yield n, val, tuple(strip_conv(x) if x is not None else None for x in f), base


def check_C16(chk):
    """Dirty-column analysis of every frame that reaches model.predict in a permutation score: it has to be the data with
    exactly the measured feature's column (for a pair: both columns, by one and the same draw) replaced by a permutation of
    that very column; the draw and the score lie inside the repetition loop over range(n_repeat), and the generator is not
    rebuilt or reseeded in a loop."""
    for it in items(chk):
        chk.guard("frames", it.name, frames_rule, chk, it)
        chk.guard("fresh draws", it.name, draws_rule, chk, it)


def frames_rule(chk, it):
    X = data_of(it)
    n = q.param("n_repeat", "num")
    preds = {}
    frames = perms.Frames(X, it.run.loops)
    drawn = {}
    for e in it.run.effects("draw"):
        drawn.setdefault(e.result.a[0], e)
    own = {x for x in walk(X) if x.op == "draw"}
    for e in it.run.effects("ext"):
        if e.name.split(".")[-1] in ("predict", "predict_proba") and e.args:
            preds.setdefault(e.args[0], e)
    for table, val, feats, base in value_rows(it):
        subj = "%s: %s" % (it.name, table)
        if val is None or any(f is None for f in feats):
            chk.und("frames", subj, "rows not resolved: %s" % show(base, 3))
            continue
        got = {}
        resolved = True
        for p, arg in perms.predictions(val):
            e = preds.get(arg)
            wh = e.where() if e is not None else ""
            try:
                d = frames.frame(arg)
            except perms.Broken as ex:
                chk.bad("frames", subj, str(ex), wh)
                resolved = False
                continue
            except perms.Unresolved as ex:
                chk.und("frames", subj, "data given to the model not resolved: %s" % ex, wh)
                resolved = False
                continue
            bad = False
            for k, c in d.items():
                if k.op == "prev":
                    chk.bad("frames", subj, "column %s of an earlier iteration is not restored when %s is measured" % (show(k.a[0], 3), ", ".join(show(f, 3) for f in feats)), wh)
                    bad = True
                elif c.src is not None and c.src is not k:
                    chk.bad("frames", subj, "column %s is filled with values of column %s" % (show(k, 3), show(c.src, 3)), wh)
                    bad = True
                elif c.verdict is False:
                    chk.bad("frames", subj, "column %s: %s" % (show(k, 3), c.why), wh)
                    bad = True
                elif c.verdict is None:
                    chk.und("frames", subj, "column %s: %s" % (show(k, 3), c.why), wh)
                    resolved = False
                    bad = True
            if bad:
                continue
            cols = frozenset(d)
            extra = [k for k in cols if k not in feats]
            if extra:
                same = all(x.op in ("elem", "proj", "const", "param") for x in extra)
                chk.ob("frames", subj, False if same else None, "the model is given data in which %s is permuted while %s is measured" % (
                    ", ".join(show(k, 3) for k in extra), ", ".join(show(f, 3) for f in feats)), wh)
                continue
            if len(cols) == 2:
                s = {d[k].sel for k in cols}
                if len(s) != 1:
                    chk.bad("joint permutation", subj, "the two columns of a pair are permuted by different draws", wh)
                    continue
                chk.good("joint permutation", subj)
            got[cols] = got.get(cols, 0) + 1
            chk.good("frames", "%s: %s" % (subj, "+".join(sorted(show(k, 2) for k in cols)) or "reference"))
            for x in {x for k in cols if d[k].sel is not None for x in walk(d[k].sel) if x.op == "draw" and x not in own}:
                fresh(chk, it, subj, drawn.get(x.a[0]), n, feats)
            if cols:
                ms = enclosing_maps(val, p)
                srcs = [m.a[0] for m in ms]
                if any(rep_source(x, n) for x in srcs):
                    m = next(m for m in ms if rep_source(m.a[0], n))
                    if m.op == "map" and len(m.a) > 2 and m.a[2] is not TRUE:
                        chk.bad("repetitions", subj, "a repetition only counts if %s" % show(m.a[2], 4), wh)
                    else:
                        chk.good("repetitions", subj)
                elif any(strip_conv(x).op == "range" for x in srcs):
                    r = next(x for x in srcs if strip_conv(x).op == "range")
                    chk.bad("repetitions", subj, "scored over %s instead of n_repeat times" % show(r, 4), wh)
                elif not srcs:
                    chk.bad("repetitions", subj, "the permuted score is computed once, not n_repeat times", wh)
                else:
                    chk.und("repetitions", subj, "repetition loop not resolved: %s" % show(srcs[0], 3), wh)
        if resolved:
            want = [frozenset([f]) for f in feats] + ([frozenset(feats)] if len(feats) == 2 else [])
            miss = [w for w in want if w not in got]
            chk.ob("all scored", subj, not miss, "no score with exactly %s permuted" % " / ".join("+".join(sorted(show(k, 2) for k in w)) for w in miss))


def fresh(chk, it, subj, e, n, feats):
    """the permutation is drawn anew in every repetition"""
    if e is None:
        chk.und("fresh draws", subj, "draw not found")
        return
    srcs = [l[0] for l in e.loops]
    if any(rep_source(x, n) for x in srcs):
        chk.good("fresh draws", subj)
    elif all(strip_conv(x).op in ("combinations", "param", "attr", "range", "conv", "list", "elem", "loc", "$field") for x in srcs):
        chk.bad("fresh draws", subj, "the permutation is drawn outside the repetition loop, so repetitions share it", e.where())
    else:
        chk.und("fresh draws", subj, "loops not resolved", e.where())


def draws_rule(chk, it):
    for e in it.run.effects("ext"):
        if e.loops and (e.name in RNG_NEW or e.name in ("numpy.random.seed", "random.seed")):
            args = list(e.args or ()) + list((e.kw or {}).values())
            varies = any(isinstance(a, T) and any(x.op in ("elem", "pos", "loopin") for x in walk(a)) for a in args)
            none = not args or all(a is NONE for a in args)
            if not varies and not none:
                chk.bad("fresh draws", it.name, "the generator is rebuilt inside a loop, so every repetition draws the same permutation", e.where())
                return
    chk.good("fresh draws", it.name)
