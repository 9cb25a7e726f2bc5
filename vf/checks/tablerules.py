"""C08 / C09: what result tables contain and how they are ordered."""
from .. import query as q
from .. import suites as S
from .. import tables as tb
from ..terms import T, const, NONE, TRUE, FALSE, is_const, cval, walk, show, strip_conv, subst, assume, mk_not, add_fact

TABLES = ("ovo", "ova", "feature_importance")
ROWBASED = ("friedman", "greenwell", "sejong", "imp_pdp", "imp_perm")
INTER_METRICS = ("sum_gain", "sum_cover", "mean_gain", "mean_cover", "mean_depth")
IMP_METRICS = INTER_METRICS + ("mean_weighted_depth", "root_frequency", "weighted_root_frequency")


def tables_of(it):
    """(name, conditions, term) of every table an operation leaves"""
    r = q.results(it)
    for n in TABLES + ("return value",):
        t = r.get(n)
        if t is None or (n == "return value" and it.key not in ("imp_pdp", "imp_perm", "imp_split", "imp_depth")):
            continue
        for cs, leaf in q.phi_leaves(t, 60):
            if leaf is NONE:
                continue
            yield n, cs, leaf


def distinct_leaves(tabs):
    seen = set()
    for n, cs, t in tabs:
        k = (n, q.erase_ids(t))
        if k not in seen:
            seen.add(k)
            yield n, cs, t


def pair_rows(row, names):
    """[(a, b)] the two name columns of a row under every condition"""
    out = []
    for cs, a in q.phi_leaves(row[names[0]], 20):
        f = {}
        for c, v in cs:
            f = add_fact(f, c, v)
        for cs2, b in q.phi_leaves(assume(row[names[1]], f), 20):
            out.append((strip_conv(a), strip_conv(b)))
    return out


def where_table(it, n):
    w = [e for e in it.run.effects("setattr") if e.field == n]
    return w[-1].where() if w else ""


def check_C08(chk):
    """Table construction: every table of a partial dependence or permutation based operation is traced back to the rows it
    is built from.  Its rows have to be one per element of combinations(requested features, 2), respectively of the
    requested features (the columns of the data when none are requested), unconditionally, named by that element, and no
    later step may remove or duplicate rows.  For conditional minimal depth: one record per ordered pair of model features
    in every tree, grouped by exactly these two, minus the pairs of a feature with itself."""
    for it in S.fit_suite(chk):
        if it.key in ROWBASED:
            for n, cs, t in distinct_leaves(tables_of(it)):
                chk.guard("rows", "%s: %s" % (it.name, n), rows_rule, chk, it, n, t)
        elif it.key == "cmd":
            for n, cs, t in tables_of(it):
                if n == "ovo":
                    chk.guard("ordered pairs", it.name, cmd_rule, chk, it, t)


def rows_rule(chk, it, n, t):
    subj = "%s: %s" % (it.name, n)
    wh = where_table(it, n)
    X = q.param("X")
    F = q.param("features") if it.opts.get("features") == "1" else None
    steps, base = tb.peel(t)
    for st in steps:
        if st.kind in ("fewer", "filter"):
            chk.bad("rows", subj, "%s may remove rows: %s" % (st.name, show(st.args[0], 3) if st.args else ""), wh)
            return
    cases = tb.record_cases(base)
    if len(cases) > 1:
        for cs, case in cases:
            one_rowset(chk, it, n, case, subj + " if " + " and ".join(("%s" if v else "not %s") % show(c, 3) for c, v in cs)[:120], wh, X, F)
    else:
        one_rowset(chk, it, n, base, subj, wh, X, F)


def one_rowset(chk, it, n, base, subj, wh, X, F):
    r = tb.records(base)
    if r is None:
        chk.und("rows", subj, "construction not resolved: %s" % show(base, 3), wh)
        return
    if r.n != 1:
        chk.bad("rows", subj, "%d rows are added per iteration" % r.n, wh)
        return
    src = strip_conv(r.srcs[0])
    if n == "ovo":
        names = ("Feature 1", "Feature 2")
        if len(r.srcs) == 1 and src.op == "call" and src.a[0] in ("itertools.permutations", "itertools.product", "itertools.combinations_with_replacement"):
            chk.bad("rows", subj, "rows come from %s, not from unordered pairs" % src.a[0], wh)
            return
        if len(r.srcs) == 1 and src.op == "combinations":
            ok = tb.feature_source(src.a[0], X, F)
            el = [x for x in walk(base) if x.op == "elem" and strip_conv(x.a[0]) is src]
            k = src.a[1]
            if (cval(k) if isinstance(k, T) and is_const(k) else k) != 2:
                ok = False
        elif len(r.srcs) == 1 and (src.op == "zip" or tb.feature_source(src, X, F) is not None):
            chk.bad("rows", subj, "rows are made for %s, not for every pair of requested features" % show(src, 4), wh)
            return
        else:
            chk.und("rows", subj, "row source not resolved: %s" % show(src, 4), wh)
            return
    else:
        names = ("Feature",)
        if strip_conv(r.srcs[0]).op == "combinations":
            chk.bad("rows", subj, "rows are made per pair of features, so a feature has several rows or, alone, none", wh)
            return
        if len(r.srcs) != 1:
            chk.und("rows", subj, "row source not resolved: %s" % show(src, 4), wh)
            return
        ok = tb.feature_source(src, X, F)
    if ok is None:
        chk.und("rows", subj, "row source not resolved: %s" % show(src, 4), wh)
        return
    if ok is False:
        chk.bad("rows", subj, "rows are not built for exactly the requested features but for %s" % show(src, 4), wh)
        return
    if r.cond is not TRUE:
        if any(x.op in ("opaque", "deep") for x in walk(r.cond)):
            chk.und("rows", subj, "row condition not resolved", wh)
        else:
            chk.bad("rows", subj, "a row is only added if %s" % show(r.cond, 4), wh)
        return
    if r.row is None or any(x not in r.row for x in names):
        chk.und("rows", subj, "name columns not resolved", wh)
        return
    if n == "ovo":
        for a, b in pair_rows(r.row, names):
            good = a.op == "proj" and b.op == "proj" and a.a[0] is b.a[0] and {a.a[1], b.a[1]} == {0, 1} and strip_conv(a.a[0].a[0]) is src
            if not good:
                chk.ob("rows", subj, False if names_resolved(a) and names_resolved(b) else None,
                       "a row is not named by its own pair: %s, %s" % (show(a, 4), show(b, 4)), wh)
                return
    else:
        for cs, a in q.phi_leaves(r.row["Feature"], 20):
            a = strip_conv(a)
            if not (a.op == "elem" and strip_conv(a.a[0]) is src):
                chk.ob("rows", subj, False if names_resolved(a) else None, "a row is not named by its own feature: %s" % show(a, 4), wh)
                return
    chk.good("rows", subj)


def names_resolved(a):
    return a.op in ("elem", "proj", "const", "param")


def cmd_rule(chk, it, t):
    subj = "%s: ovo" % it.name
    wh = where_table(it, "ovo")
    steps, base = tb.peel(t)
    filt = [st for st in steps if st.kind == "filter"]
    for st in steps:
        if st.kind == "fewer":
            chk.bad("ordered pairs", subj, "%s may remove rows" % st.name, wh)
            return
    selffree = False
    for st in filt:
        m = st.args[0]
        sides = None
        if m.op == "not" and m.a[0].op == "cmp" and m.a[0].a[0] == "==":
            sides = m.a[0].a[1:3]
        cols = {name_col(x) for x in sides} if sides else set()
        if cols == {"variable", "root_variable"} or cols == {"split_variable", "ancestor_variable"}:
            selffree = True
        else:
            chk.ob("ordered pairs", subj, None if any(x.op in ("opaque", "deep") for x in walk(m)) else False,
                   "rows are kept only if %s" % show(m, 4), wh)
            return
    chk.good("ordered pairs", subj + ": no other filter")
    if base.op != "m" or base.a[0] not in ("agg", "aggregate") or base.a[1].op != "m" or base.a[1].a[0] != "groupby":
        chk.und("ordered pairs", subj, "grouping not resolved: %s" % show(base, 3), wh)
        return
    g = base.a[1]
    by = dict(g.a[3]).get("by") or (g.a[2][0] if g.a[2] else None)
    keys = tb.seq_items(by) if by is not None else None
    if keys is None or not all(is_const(k) for k in keys):
        chk.und("ordered pairs", subj, "group keys not resolved", wh)
        return
    keys = [cval(k) for k in keys]
    st1, src = tb.peel(g.a[1])
    for st in st1:
        if st.kind in ("fewer", "filter"):
            chk.bad("ordered pairs", subj, "records are removed by %s before averaging" % st.name, wh)
            return
    frames = per_tree(src)
    if frames is None:
        chk.und("ordered pairs", subj, "per-tree records not resolved: %s" % show(g.a[1], 3), wh)
        return
    names = None
    for fr in frames:
        st2, b2 = tb.peel(fr)
        if any(x.kind in ("fewer", "filter") for x in st2):
            chk.bad("ordered pairs", subj, "records of a tree are removed before averaging", wh)
            return
        r = tb.records(b2)
        if r is None or r.n != 1 or r.row is None:
            chk.und("ordered pairs", subj, "per-tree records not resolved", wh)
            return
        if set(keys) - set(r.row):
            chk.bad("ordered pairs", subj, "grouped by %s" % keys, wh)
            return
        vals = [strip_conv(r.row[k]) for k in keys]
        mn = q.param("model")
        feats = [x for x in r.srcs if x.op == "attr" and x.a[1] == "feature_names_in_"]
        okv = len(keys) == 2 and len(r.srcs) == 2 and len(feats) == 2 and all(v.op == "pos" for v in vals) and vals[0] is not vals[1]
        if okv and r.cond is not TRUE:
            c = r.cond
            if c.op == "not" and c.a[0].op == "cmp" and c.a[0].a[0] == "==" and set(c.a[0].a[1:3]) == set(vals):
                selffree = True
            else:
                chk.bad("ordered pairs", subj, "a record is only made if %s" % show(c, 4), wh)
                return
        if not okv:
            known = all(v.op in ("pos", "elem", "const", "proj") for v in vals) and all(tb.strip_rows(x).op in ("attr", "combinations", "range", "idx", "conv", "param") for x in r.srcs)
            chk.ob("ordered pairs", subj, False if known else None, "records are not made for every ordered pair of model features: %s over %s" % (
                [show(v, 3) for v in vals], [show(x, 3) for x in r.srcs]), wh)
            return
    if not selffree:
        chk.bad("ordered pairs", subj, "pairs of a feature with itself are kept", wh)
        return
    chk.good("ordered pairs", subj)


def name_col(x):
    """the name column a mask operand reads"""
    x = strip_conv(x)
    if x.op == "attr" and x.a[1] == "values":
        x = x.a[0]
    if x.op == "m" and x.a[0] in ("map", "replace", "apply", "astype"):
        x = strip_conv(x.a[1])
    if x.op == "idx" and is_const(x.a[1]):
        return cval(x.a[1])
    if x.op == "attr":
        return x.a[1]
    return None


def per_tree(t):
    """the frames that are concatenated"""
    if t.op == "call" and t.a[0] == "pandas.concat":
        o = dict(t.a[2]).get("objs") or (t.a[1][0] if t.a[1] else None)
        if o is None:
            return None
        o = strip_conv(o)
        if o.op == "map":
            return [o.a[1]] if o.a[2] is TRUE else None
        if o.op == "list" and len(o.a) == 1 and o.a[0].op == "seg" and o.a[0].a[0] == "map":
            b = o.a[0].a[2]
            return list(b) if isinstance(b, tuple) else [b]
    return None


# ---------------------------------------------------------------- C09
def oracle(key, table, metric):
    if table == "feature_importance" or table == "return value":
        if key in ("imp_split", "split"):
            return metric in ("mean_depth", "mean_weighted_depth")
        return key in ("imp_depth", "cmd")
    if key == "split":
        return metric == "mean_depth"
    return key == "cmd"


def truth_of(t):
    if t is None:
        return None
    if is_const(t):
        return bool(cval(t))
    return {TRUE: True, FALSE: False}.get(t)


def declared(it, table):
    s = it.run.s
    o = s.m
    name = "_interactions_ascending_order"
    if table in ("feature_importance", "return value"):
        name = "importance_ascending_order"
        if it.key in S.INTER:
            o = s.field(s.m, "_feature_importance_obj")
            if o is None or o.kind != "obj":
                return None
    return s.snap(s.e.getattr(o, name, s.st, None))


def metric_cases(it, table):
    imp = table in ("feature_importance", "return value")
    if it.key in ("split", "imp_split"):
        p = q.param("importance_metric" if imp else "interaction_metric", "str")
        return [({p: const(m)}, m) for m in (IMP_METRICS if imp else INTER_METRICS)]
    return [({}, None)]


def check_C09(chk):
    """Ordering: the outermost ordering step of every result table has to sort by its value column, in the direction the
    class declares (property evaluated on the fitted object) and in the direction fixed by the meaning of the measure, for
    every selectable metric; conditional minimal depth sorts by occurrences first.  Later steps must preserve the order."""
    for it in S.fit_suite(chk):
        for n, cs, t in distinct_leaves(tables_of(it)):
            chk.guard("order", "%s: %s" % (it.name, n), order_rule, chk, it, n, t)


def order_rule(chk, it, n, t):
    base_subj = "%s: %s" % (it.name, n)
    s = it.run.s
    wh = where_table(it, n)
    imp = n in ("feature_importance", "return value")
    dec = chk.guard("order", base_subj, declared, it, n)
    valcol = "Importance" if imp else q.const_str(s.snap(s.fields(s.m)["method"]))
    for m, metric in metric_cases(it, n):
        subj = base_subj + (" [%s]" % metric if metric else "")
        want = oracle(it.key, n, metric)
        tt = subst(t, m) if m else t
        d = truth_of(subst(dec, m) if m else dec) if dec is not None else None
        if d is None:
            chk.und("declared direction", subj, "not resolved: %s" % (show(dec, 3) if dec is not None else None))
        else:
            chk.ob("declared direction", subj, d == want, "declared %s, but %s values are the strong ones" % ("ascending" if d else "descending", "small" if want else "large"), wh)
        for cs, leaf in q.phi_leaves(tt, 60):
            one_order(chk, it, n, leaf, subj, valcol, want, wh)


def one_order(chk, it, n, t, subj, valcol, want, wh):
    steps, base = tb.peel(t)
    flip = False
    before = []
    for st in steps:
        if st.kind == "flip":
            flip = not flip
        elif st.kind == "sort":
            break
        elif st.kind == "store" and is_const(st.args[0]) and cval(st.args[0]) == valcol:
            chk.und("order", subj, "the value column is rewritten after sorting", wh)
            return
        elif st.kind == "fewer" and st.name in ("nlargest", "nsmallest", "sample"):
            chk.und("order", subj, "ordered by %s" % st.name, wh)
            return
        before.append(st)
    else:
        r = tb.records(base)
        if base.op == "draw" and base.a[1] in ("sample", "permutation"):
            chk.bad("order", subj, "the rows are shuffled after sorting", wh)
            return
        known = (r is not None and not any(x.op == "call" and x.a[0] == "sorted" for x in walk(base))) or \
            (base.op == "m" and base.a[0] in ("agg", "aggregate", "apply", "sum", "mean"))
        chk.ob("order", subj, False if known else None, "the table is not sorted by its values", wh)
        return
    if st.name == "sort_index":
        chk.bad("order", subj, "the table is sorted by its index", wh)
        return
    by, asc = tb.arg(st, 0, "by"), st.kw.get("ascending", TRUE)
    by = tb.seq_items(by) or [by]
    if "axis" in st.kw and not (is_const(st.kw["axis"]) and cval(st.kw["axis"]) in (0, "index")):
        chk.und("order", subj, "sorted along another axis", wh)
        return
    ascs = tb.seq_items(asc) or [asc] * len(by)
    want_cols = [valcol]
    if it.key == "cmd" and n == "ovo":
        want_cols = ["n_occurences", valcol]
    vals = [truth_of(a) for a in ascs]
    for i, wc in enumerate(want_cols):
        wc = tb.rename_back(before, wc)
        if i >= len(by):
            chk.bad("order", subj, "not sorted by %s" % wc, wh)
            return
        b = by[i]
        if not is_const(b):
            if isinstance(wc, T) and b is wc:
                pass
            else:
                chk.und("order", subj, "sort key not resolved: %s" % show(b, 3), wh)
                return
        elif cval(b) != wc:
            chk.bad("order", subj, "sorted by %s instead of %s" % (cval(b), wc), wh)
            return
        w = want if wc != "n_occurences" else False
        if vals[i] is None:
            open_ = any(x.op in ("opaque", "deep", "loopin", "loopout", "call", "m") for x in walk(ascs[i]))
            chk.ob("order", subj, None if open_ else False, "the direction depends on %s" % show(ascs[i], 3), wh)
            return
        if (vals[i] != flip) != w:
            chk.bad("order", subj, "%s is sorted %s, so the weakest entry comes first" % (wc, "ascending" if vals[i] != flip else "descending"), wh)
            return
    key = st.kw.get("key")
    if key is not None and key is not NONE:
        r = tb.records(base)
        v = r.row.get(valcol) if r is not None and r.row else None
        if key is not None and key.op == "ext" and key.a[0] in ("abs", "builtins.abs", "numpy.abs", "numpy.absolute") or show(key) == "abs":
            if v is not None and tb.nonneg(v):
                pass
            else:
                chk.ob("order", subj, None if v is None or any(x.op in ("opaque", "deep") for x in walk(v)) else False, "sorted by absolute values although values can be negative", wh)
                return
        else:
            chk.und("order", subj, "sort key function not resolved", wh)
            return
    for b4 in before:
        if b4.name == "fillna":
            if want:
                chk.bad("order", subj, "missing values are filled after an ascending sort", wh)
                return
            np_ = st.kw.get("na_position")
            if np_ is not None and is_const(np_) and cval(np_) == "first":
                chk.bad("order", subj, "missing values come first", wh)
                return
            fv = b4.kw.get("value") or (b4.args[0] if b4.args else None)
            if fv is None or not is_const(fv) or not isinstance(cval(fv), (int, float)):
                chk.und("order", subj, "filled after sorting with %s" % (show(fv, 2) if fv is not None else "?"), wh)
                return
            if cval(fv) > 0:
                chk.bad("order", subj, "missing values are filled with %s after sorting" % cval(fv), wh)
                return
        elif b4.name in ("abs", "where", "mask", "clip", "replace", "applymap"):
            chk.und("order", subj, "values are changed by %s after sorting" % b4.name, wh)
            return
    chk.good("order", subj)
