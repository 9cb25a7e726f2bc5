"""C22: comparisons match the same pair in both methods; C29: rank correlations pair by pair."""
from .. import query as q
from .. import suites as S
from .. import tables as tb
from ..terms import T, mk, const, NONE, TRUE, FALSE, is_const, cval, walk, show, strip_conv, subst, mk_and, assume
from .tablerules import oracle, metric_cases, truth_of, INTER_METRICS

F1, F2 = "Feature 1", "Feature 2"
KINDS = ("pearson", "kendall", "spearman")


class Und(Exception):
    pass


class Bad(Exception):
    pass


def sh(t):
    return show(t, 4)


def method_name(s, o):
    return q.const_str(s.fieldt(o, "method"))


# ---------------------------------------------------------------- tables
def root(t, d=0):
    """(innermost table, steps) of a comparison table, through grouping"""
    steps, b = tb.peel(t)
    if b.op == "m" and b.a[0] in ("agg", "aggregate") and b.a[1].op == "m" and b.a[1].a[0] == "groupby" and d < 3:
        b2, s2 = root(b.a[1].a[1], d + 1)
        return b2, steps + [tb.Step("group", "groupby", b, (), dict(b.a[3]))] + s2
    if b.op == "group" and d < 3 and isinstance(b.a[0], T):
        b2, s2 = root(b.a[0], d + 1)
        return b2, steps + [tb.Step("group", "groupby", b)] + s2
    return b, steps


def own_table(t, who):
    """the table is the complete pair table of method `who` (m1, m2, self); raises Bad / Und"""
    b, steps = root(t)
    for st in steps:
        if st.kind in ("fewer", "filter"):
            if st.name in ("drop_duplicates", "dropna"):
                continue
            raise Bad("only some of the pairs of the table are considered (%s)" % st.name)
    if b.op == "attr" and b.a[1] == "ovo" and b.a[0].op == "param":
        return b.a[0].a[0]
    if b.op == "param" and b.a[0].endswith(".ovo"):
        return b.a[0][:-4]
    if b.op == "fld" and b.a[1] == "ovo":
        return owner(b.a[0])
    raise Und("table %s" % sh(b))


def owner(t):
    return t.a[0] if t.op == "param" else str(t)


def fld(t):
    """(table, column, row token) of one entry of a table"""
    t = strip_conv(t)
    if t.op == "idx" and is_const(t.a[1]) and isinstance(cval(t.a[1]), str):
        r = t.a[0]
        if r.op == "row":
            return r.a[0], cval(t.a[1]), r.a[1]
        if r.op in ("iloc", "rows") and r.a[1].op not in ("slice", "tuple", "or", "and", "not", "cmp"):
            return r.a[0], cval(t.a[1]), r.a[1]
    e, i = (t.a[0], t.a[1]) if t.op == "proj" else (t, None)
    if e.op == "elem":
        src = strip_conv(e.a[0])
        cols = None
        if i is None:
            c = column(src)
            return (c[0], c[1], mk("pos", mk("rowsof", c[0]), e.a[1])) if c else None
        if src.op == "zip" and isinstance(i, int) and i < len(src.a):
            c = column(src.a[i])
            return (c[0], c[1], mk("pos", mk("rowsof", c[0]), e.a[1])) if c else None
        if src.op == "cols" and isinstance(src.a[1], tuple) and isinstance(i, int) and i < len(src.a[1]):
            n = src.a[1][i]
            n = cval(n) if isinstance(n, T) else n
            return src.a[0], n, mk("pos", mk("rowsof", src.a[0]), e.a[1])
    return None


def column(t):
    """(table, column name) of a whole column"""
    t = strip_conv(t)
    while t.op == "attr" and t.a[1] == "values" or t.op == "m" and t.a[0] in ("tolist", "to_numpy", "to_list") or t.op == "copy":
        t = strip_conv(t.a[0] if t.op != "m" else t.a[1])
    if t.op == "idx" and is_const(t.a[1]) and isinstance(cval(t.a[1]), str) and t.a[0].op not in ("row",):
        return t.a[0], cval(t.a[1])
    if t.op == "rows":
        c = column(t.a[0])
        if c is not None:
            return mk("rows", c[0], t.a[1]), c[1]
    return None


# ---------------------------------------------------------------- selection of one pair
def first_of(t):
    """the table column whose first entry t is"""
    t = strip_conv(t)
    if t.op in ("idx", "iloc") and is_const(t.a[1]) and cval(t.a[1]) in (0, -1):
        return column(t.a[0])
    if t.op == "m" and t.a[0] in ("item", "squeeze", "mean", "max", "min", "first"):
        return column(t.a[1])
    if t.op == "red" and t.a[0] in ("mean", "max", "min"):
        return column(t.a[1])
    if t.op == "call" and t.a[0] in ("next", "float"):
        return first_of(t.a[1][0]) if t.a[1] else None
    if t.op == "conv" and len(t.a) > 1 and isinstance(t.a[1], T):
        return first_of(t.a[1])
    return None


def mask_eval(m, table, a, b, v1, v2):
    """truth of a row mask when the row's features are v1, v2 in {'a', 'b', None} and the wanted features are a, b"""
    if m is TRUE:
        return True
    if m is FALSE:
        return False
    if m.op == "and":
        return all([mask_eval(x, table, a, b, v1, v2) for x in m.a])
    if m.op == "or":
        return any([mask_eval(x, table, a, b, v1, v2) for x in m.a])
    if m.op == "not":
        return not mask_eval(m.a[0], table, a, b, v1, v2)
    if m.op == "bin" and m.a[0] in ("&", "|", "^"):
        l, r = mask_eval(m.a[1], table, a, b, v1, v2), mask_eval(m.a[2], table, a, b, v1, v2)
        return {"&": l and r, "|": l or r, "^": l != r}[m.a[0]]
    want = {a: "a", b: "b"}

    def colval(t):
        c = column(t)
        if c is None or c[0] is not table or c[1] not in (F1, F2):
            raise Und("mask %s" % sh(m))
        return v1 if c[1] == F1 else v2
    if m.op == "cmp" and m.a[0] in ("==", "!="):
        for x, y in ((m.a[1], m.a[2]), (m.a[2], m.a[1])):
            if y in want:
                r = colval(x) == want[y]
                return r if m.a[0] == "==" else not r
        x, y = colval(m.a[1]), colval(m.a[2])
        r = x == y and x is not None
        return r if m.a[0] == "==" else not r
    if m.op in ("m", "in", "call"):
        c = xs = None
        if m.op == "m" and m.a[0] == "isin":
            c = m.a[1]
            xs = m.a[2][0] if m.a[2] else dict(m.a[3]).get("values")
        elif m.op == "in":
            c, xs = m.a
        if c is not None and xs is not None:
            xs = strip_conv(xs)
            if xs.op in ("list", "tuple", "set") and all(x in want for x in xs.a):
                return colval(c) in {want[x] for x in xs.a}
    raise Und("mask %s" % sh(m))


def pair_mask(m, table, a, b):
    """None when the mask holds exactly for the rows of the pair {a, b}; a description of a wrong row otherwise"""
    for v1, v2 in ((x, y) for x in ("a", "b", None) for y in ("a", "b", None)):
        if v1 == v2 and v1 is not None:
            continue
        spec = {v1, v2} == {"a", "b"}
        got = mask_eval(m, table, a, b, v1, v2)
        if got != spec:
            nm = {"a": sh(a), "b": sh(b), None: "another feature"}
            return "a row (%s, %s) is %s when the pair (%s, %s) is looked up" % (nm[v1], nm[v2], "taken" if got else "not taken", sh(a), sh(b))
    return None


def empty_test(c):
    """the selection whose emptiness the condition tests, and the sense"""
    t = c
    neg = False
    while t.op == "not":
        t, neg = t.a[0], not neg
    if t.op == "truth":
        t = t.a[0]
    if t.op == "attr" and t.a[1] == "empty":
        return t.a[0], not neg
    if t.op == "cmp":
        for x, y in ((t.a[1], t.a[2]), (t.a[2], t.a[1])):
            if x.op == "len" and is_const(y) and cval(y) in (0, 1):
                if t.a[0] == "==" and cval(y) == 0:
                    return x.a[0], not neg
                if t.a[0] == "<" and x is t.a[2] and cval(y) == 0:
                    return x.a[0], neg
                if t.a[0] == "<=" and x is t.a[2] and cval(y) == 1:
                    return x.a[0], neg
                if t.a[0] == "<" and x is t.a[1] and cval(y) == 1:
                    return x.a[0], not neg
    if t.op == "len":
        return t.a[0], neg
    if t.op == "red" and t.a[0] == "any":
        return mk("masked", t.a[1]), neg
    return None


def selection(t, a, b, who, name):
    """t is method `who`'s value of the pair {a, b}; raises Bad / Und"""
    leaves = q.phi_leaves(t, 40)
    masks = []
    for cs, leaf in leaves:
        c = first_of(leaf)
        if c is None:
            raise Und("value %s" % sh(leaf))
        tab, col = c
        ren = tb.rename_back([], col)
        if tab.op != "rows":
            if tab.op == "m" and tab.a[0] == "query":
                raise Und("query")
            raise Und("selection %s" % sh(tab))
        base, m = tab.a
        got = own_table(base, who)
        if got != who:
            raise Bad("the value is read from the table of %s, not of %s" % (got, who))
        if col != name:
            raise Bad("the value is read from column %r, not from the strengths (%r)" % (col, name))
        masks.append((base, m, cs))
    if len(masks) == 1:
        r = pair_mask(masks[0][1], masks[0][0], a, b)
        if r:
            raise Bad(r)
        return
    # the table is searched in several steps: every step takes only rows of the pair, together they take all of them
    for base, m, cs in masks:
        if base is not masks[0][0]:
            raise Und("different tables")
        for cc in cs:
            cc = cc[0] if isinstance(cc, tuple) else cc
            if empty_test(cc) is None:
                raise Und("condition %s" % sh(cc))
    tot = FALSE
    from ..terms import mk_or
    for base, m, cs in masks:
        for v1, v2 in (("a", None), ("b", None), (None, "a"), (None, "b"), (None, None)):
            if mask_eval(m, base, a, b, v1, v2):
                raise Bad("a row of another pair is taken")
        tot = mk_or(tot, m)
    r = pair_mask(tot, masks[0][0], a, b)
    if r:
        raise Bad(r)


def decide(chk, rule, subj, where, f, *a):
    try:
        f(*a)
    except Bad as e:
        chk.bad(rule, subj, str(e), where)
        return False
    except Und as e:
        chk.und(rule, subj, str(e), where)
        return None
    chk.good(rule, subj)
    return True


def value_rule(chk, it):
    s = it.run.s
    a, b = q.param("f1", "str"), q.param("f2", "str")
    t = s.snap(s.ret)
    if a not in set(walk(t)):
        ps = {x.a[0]: x for x in walk(t) if x.op == "param" and x.a[0] in ("f1", "f2")}
        a, b = ps.get("f1", a), ps.get("f2", b)
    decide(chk, "lookup", it.name, it.name, selection, t, a, b, "self", method_name(s, s.m))


# ---------------------------------------------------------------- comparison plot
def points(t):
    """(source, value per row) of plotted coordinates"""
    t = strip_conv(t)
    if t.op == "map":
        if t.a[2] is not TRUE:
            raise Bad("pairs are left out of the plot when not %s" % sh(t.a[2]))
        return t.a[0], t.a[1]
    c = column(t)
    if c:
        return mk("rowsof", c[0]), mk("idx", mk("row", c[0], mk("pos", mk("rowsof", c[0]), 0)), const(c[1]))
    if t.op == "list" and len(t.a) == 1 and t.a[0].op == "seg" and t.a[0].a[0] == "map" and len(t.a[0].a[2]) == 1:
        seg = t.a[0]
        if seg.a[3] is not TRUE:
            raise Bad("pairs are left out of the plot when not %s" % sh(seg.a[3]))
        return seg.a[1], seg.a[2][0]
    raise Und("coordinates %s" % sh(t))


def src_table(t):
    t = strip_conv(t)
    if t.op == "rowsof":
        return t.a[0]
    if t.op == "zip":
        cs = [column(x) for x in t.a]
        if all(cs) and len({c[0] for c in cs}) == 1:
            return cs[0][0]
    if t.op == "range" and is_const(t.a[0]) and cval(t.a[0]) == 0 and t.a[1].op == "len":
        return t.a[1].a[0]
    raise Und("plotted rows %s" % sh(t))


def x_value(x, tab, n1):
    f = fld(x)
    if f is None:
        raise Und("x coordinate %s" % sh(x))
    if f[0] is not tab:
        raise Und("x coordinate from %s" % sh(f[0]))
    if f[1] != n1:
        raise Bad("the x coordinate is column %r instead of the first method's strength" % f[1])
    return f[2]


def row_fields(t, tab):
    """the entries of the first method's row used in a term"""
    return [x for x in walk(t) if (fld(x) or (None,))[0] is tab and fld(x)[1] in (F1, F2)]


def coords(xs, ys, n1, n2, both_same):
    sx, bx = points(xs)
    sy, by = points(ys)
    if sx is not sy:
        if src_table(sx) is not src_table(sy):
            raise Und("x and y run over different rows")
    tab = src_table(sx)
    w = own_table(tab, "m1")
    if w != "m1":
        raise Bad("the plotted pairs are those of %s" % w)
    tok = x_value(bx, tab, n1)
    y_value(by, tab, tok, n2)


def y_value(by, tab, tok, n2):
    fs = {}
    for x in row_fields(by, tab):
        f = fld(x)
        if f[2] is not tok:
            raise Bad("the second method's value belongs to another row than the first method's")
        fs[f[1]] = x
    g = fld(by)
    if g is not None and g[0] is tab:
        raise Bad("the y coordinate is read from the first method's row")
    if set(fs) != {F1, F2}:
        if len(fs) == 1:
            raise Bad("the second method's value is looked up by %s only" % list(fs)[0])
        if by.op == "iloc" and by.a[1].op == "rowidx" and column(by.a[0]) is not None:
            raise Bad("the second method's value is taken by row number, not by pair: %s" % sh(by))
        f = first_of(by)
        if f is not None:
            raise Und("lookup without the row's features")
        raise Und("y coordinate %s" % sh(by))
    selection(by, fs[F1], fs[F2], "m2", n2)


def inverted(it, axis, m):
    """condition under which an axis ends up reversed, evaluated under a metric"""
    state = False
    for e in it.run.log:
        if e.kind != "ext":
            continue
        n = e.name.split(".")[-1]
        gs = [subst(g, m) if m else g for g in e.guards if g.op != "looped"]
        vals = [truth_of(g) if g not in (TRUE, FALSE) else g is TRUE for g in gs]
        if n == "invert_%saxis" % axis:
            if False in vals:
                continue
            if None in vals:
                raise Und("the axis is reversed when %s" % " and ".join(sh(g) for g, v in zip(gs, vals) if v is None))
            if e.loops:
                raise Und("reversed in a loop")
            state = not state
        elif n == "set_inverted" and e.recv is not None and any(x.op == "attr" and x.a[1] == axis + "axis" for x in walk(e.recv)):
            if False in vals:
                continue
            a = truth_of(subst(e.args[0], m) if m else e.args[0]) if e.args else None
            if None in vals or a is None:
                raise Und("set_inverted(%s)" % (sh(e.args[0]) if e.args else ""))
            state = a
        elif n in ("set_%slim" % axis, "%slim" % axis, "axis", "set_%sbound" % axis) and False not in vals:
            raise Und("axis limits are set")
    return state


def directions(chk, it):
    for axis, key, o in (("x", it.k1, it.run.s.m1), ("y", it.k2, it.run.s.m2)):
        cases = [({}, None)]
        if key == "split" or "split" in (it.k1, it.k2):
            p = q.param("interaction_metric", "str")
            cases = [({p: const(m)}, m) for m in INTER_METRICS]
        for m, metric in cases:
            subj = "%s: %s axis%s" % (it.name, axis, " [%s]" % metric if metric else "")
            want = oracle(key, "ovo", metric)

            def f():
                got = inverted(it, axis, m)
                if got != want:
                    raise Bad("the %s axis is %s although %s values of %s are the strong ones" % (axis, "reversed" if got else "not reversed", "small" if want else "large", method_name(it.run.s, o)))
            decide(chk, "axis", subj, axis_where(it, axis), f)


def axis_where(it, axis):
    for e in it.run.log:
        if e.kind == "ext" and e.name.split(".")[-1] in ("invert_%saxis" % axis, "set_inverted"):
            return e.where()
    for e in it.run.log:
        if e.kind == "ext" and e.name.split(".")[-1] == "scatter":
            return e.where()
    return it.name


def plot_rule(chk, it):
    s = it.run.s
    n1, n2 = method_name(s, s.m1), method_name(s, s.m2)
    ev = [e for e in it.run.log if e.kind == "ext"]
    sc = [e for e in ev if e.name.split(".")[-1] in ("scatter", "plot") and (len(e.args) >= 2 or "x" in e.kw)]
    if not sc:
        chk.und("points", it.name, "no scatter found")
        return
    for e in sc:
        xs, ys = e.args[0] if e.args else e.kw["x"], e.args[1] if len(e.args) > 1 else e.kw.get("y")
        if ys is None:
            chk.und("points", it.name, "no y coordinates", e.where())
            continue
        if e.loops:
            decide(chk, "points", it.name, e.where(), one_point, xs, ys, n1, n2)
        else:
            decide(chk, "points", it.name, e.where(), coords, xs, ys, n1, n2, it.k1 == it.k2)
        if sc.index(e) == 0 and not e.loops:
            for an in ev:
                if an.name.split(".")[-1] in ("annotate",) and an.loops:
                    decide(chk, "annotation", "%s: %s" % (it.name, "annotate"), an.where(), annotation, an, xs, ys, n1)
    for e in ev:
        n = e.name.split(".")[-1]
        if n in ("set_xlabel", "xlabel", "set_ylabel", "ylabel") and e.args and is_const(e.args[0]):
            want, other = (n1, n2) if "x" in n.replace("set_", "")[0] else (n2, n1)
            got = cval(e.args[0])
            if want != other:
                chk.ob("axis label", "%s: %s" % (it.name, n), True if got == want else (False if got == other else None), "the axis shows %r but is labelled %r" % (want, got), e.where())
    directions(chk, it)


def one_point(x, y, n1, n2):
    f = fld(x)
    if f is None:
        raise Und("x coordinate %s" % sh(x))
    w = own_table(f[0], "m1")
    if w != "m1":
        raise Bad("the plotted pairs are those of %s" % w)
    y_value(y, f[0], x_value(x, f[0], n1), n2)


def annotation(e, xs, ys, n1):
    xy = e.kw.get("xy") if "xy" in e.kw else (e.args[1] if len(e.args) > 1 else None)
    if xy is None or xy.op != "tuple" or len(xy.a) != 2:
        raise Und("annotated point")
    sx, bx = points(xs)
    sy, by = points(ys)
    tab = src_table(sx)
    if xy.a[0] is by and xy.a[1] is bx:
        raise Bad("the labelled point has its coordinates exchanged")
    if xy.a[0] is not bx or xy.a[1] is not by:
        raise Und("labelled point %s" % sh(xy))
    text = e.args[0] if e.args else e.kw.get("text")
    fs = {fld(x)[1] for x in row_fields(text, tab)}
    tok = {fld(x)[2] for x in row_fields(text, tab)}
    if not fs:
        raise Und("label text %s" % sh(text))
    if fs != {F1, F2}:
        raise Bad("the label of a point names %s only" % list(fs)[0])
    if tok != {fld(bx)[2]}:
        raise Bad("the label of a point names the pair of another row")


# ---------------------------------------------------------------- correlations
def corr_calls(t):
    """correlation computations inside a term: (node, kind term, operands)"""
    out = []
    for x in walk(t):
        if x.op == "m" and x.a[0] in ("corr", "corrwith"):
            kw = dict(x.a[3])
            k = kw.get("method")
            args = list(x.a[2])
            other = kw.get("other")
            if k is None:
                if args and not (other is None and args and args[0].op not in ("const", "param", "idx", "elem", "attr")):
                    k = args[-1] if len(args) > 1 or args[0].op in ("const", "param") else None
            if other is None and args and args[0] is not k:
                other = args[0]
            out.append((x, k if k is not None else const("pearson"), other))
    return out


KEEP = ("dropna", "astype", "copy", "set_axis", "rename", "sort_index", "sort_values")
MIXES = ("cumsum", "cumprod", "cummax", "cummin", "diff", "shift", "rolling", "expanding", "ewm", "pct_change", "interpolate", "ffill", "bfill")


def peel_rows(t):
    """drop steps after which every pair still has its own numbers"""
    b = strip_conv(t)
    while True:
        if b.op == "copy":
            b = strip_conv(b.a[0])
        elif b.op == "m" and b.a[0] in KEEP:
            b = strip_conv(b.a[1])
        elif b.op == "m" and b.a[0] == "reset_index" and truth_of(dict(b.a[3]).get("drop", FALSE)) and strip_conv(b.a[1]).op == "call" and strip_conv(b.a[1]).a[0] == "pandas.concat":
            b = strip_conv(b.a[1])
        elif b.op == "m" and b.a[0] == "reset_index" and truth_of(dict(b.a[3]).get("drop", FALSE)) and peel_rows(b.a[1]).op == "call" and peel_rows(b.a[1]).a[0] == "pandas.concat":
            b = strip_conv(b.a[1])
        elif b.op == "m" and b.a[0] in MIXES or b.op == "red" and b.a[0] in MIXES:
            raise Bad("%s mixes the ranks of different pairs" % b.a[0])
        elif b.op == "m" and b.a[0] == "fillna":
            raise Bad("pairs that only one method ranks are given a made-up rank")
        elif b.op == "m" and b.a[0] in ("head", "tail", "sample", "nlargest", "nsmallest") or b.op in ("iloc", "rows") and b.a[1].op == "slice" and peel_rows(b.a[0]).op == "call":
            raise Bad("only a part of the pairs is compared")
        else:
            return b


def operands(x, other):
    """the two rank series a correlation relates, in order, and whether they are aligned by index"""
    recv = x.a[1]
    if other is not None:
        return [peel_rows(recv), peel_rows(other)], True
    b = peel_rows(recv)
    if b.op == "call" and b.a[0] == "pandas.concat":
        kw = dict(b.a[2])
        objs = kw.get("objs") or (b.a[1][0] if b.a[1] else None)
        ax = kw.get("axis")
        if ax is None or not is_const(ax) or cval(ax) not in (1, "columns"):
            raise Bad("the rankings are put below each other instead of side by side")
        ig = kw.get("ignore_index")
        xs = tb.seq_items(objs)
        if xs is None or len(xs) != 2:
            raise Und("rankings %s" % sh(objs))
        return xs, True
    if b.op == "call" and b.a[0] == "pandas.DataFrame" or b.op == "conv" and b.a[0] == "DataFrame":
        d = dict(b.a[2]).get("data") if b.op == "call" else b.a[1]
        if d is None and b.op == "call" and b.a[1]:
            d = b.a[1][0]
        if d is not None and d.op == "dict" and len(d.a) == 2:
            vs = [v for _, v in d.a]
            bare = [bare_values(v) for v in vs]
            if all(x is not None for x in bare):
                if all(x.op == "call" and x.a[0] == "pandas.Series" for x in bare):
                    raise Bad("the pairs are dropped: the rankings are put side by side by position")
                raise Und("rankings %s" % sh(b))
            return [v for _, v in d.a], True
    raise Und("rankings %s" % sh(b))


def bare_values(v):
    """the series when v is its bare values"""
    if v.op == "attr" and v.a[1] == "values":
        return strip_conv(v.a[0])
    if v.op == "m" and v.a[0] in ("to_numpy", "tolist", "to_list"):
        return strip_conv(v.a[1])
    if v.op == "call" and v.a[0] in ("list", "numpy.array", "numpy.asarray", "tuple") and len(v.a[1]) == 1:
        return strip_conv(v.a[1][0])
    if v.op == "conv":
        return strip_conv(v.a[1])
    return None


def owners(t):
    out = set()
    for x in walk(t):
        if x.op == "attr" and x.a[1] in ("ovo",) and x.a[0].op == "param":
            out.add(x.a[0].a[0])
        if x.op == "param" and str(x.a[0]).endswith(".ovo"):
            out.add(x.a[0][:-4])
    return out & {"m1", "m2"}


def corr_pair(t, node, other):
    """the correlation relates method 1 with method 2"""
    xs, _ = operands(node, other)
    os_ = [owners(x) for x in xs]
    if any(len(o) != 1 for o in os_):
        if any(not o for o in os_):
            raise Und("ranking of %s" % sh(xs[0]))
        raise Und("a ranking mixes both methods")
    if os_[0] == os_[1]:
        raise Bad("both rankings are those of %s" % list(os_[0])[0])
    if other is not None:
        return
    # the off-diagonal entry
    got = None
    for x in walk(t):
        if x.op in ("iloc", "idx", "loc") and x.a[0] is node:
            got = x.a[1]
    if got is None:
        raise Und("entry of the correlation matrix")
    ij = [cval(i) for i in got.a] if got.op == "tuple" and all(is_const(i) for i in got.a) else None
    if ij is None:
        raise Und("entry %s of the correlation matrix" % sh(got))
    if len(ij) != 2 or ij[0] == ij[1] or {i % 2 for i in ij if isinstance(i, int)} == {ij[0] % 2 if isinstance(ij[0], int) else None}:
        raise Bad("the entry %s of the correlation matrix is a ranking's correlation with itself" % (tuple(ij),))


def table_records(t):
    """[(method term, value term)] of the correlations table"""
    steps, b = tb.peel(t)
    if b.op == "call" and b.a[0].startswith("pandas.DataFrame"):
        kw = dict(b.a[2])
        d = kw.get("data") or kw.get("records") or (b.a[1][0] if b.a[1] else None)
        cols = kw.get("columns")
        if d is not None and d.op == "dict":
            m = {cval(k): v for k, v in d.a if isinstance(k, T) and is_const(k)}
            a, v = (tb.seq_items(m[k]) if k in m else None for k in ("method", "value"))
            if a is not None and v is not None and len(a) == len(v):
                return list(zip(a, v))
            if "method" in m and "value" in m and m["value"].op == "map":
                return None
        xs = tb.seq_items(d) if d is not None else None
        if xs is not None:
            rows = [tb.as_row(strip_conv(x), cols) for x in xs]
            if all(r is not None and "method" in r and "value" in r for r in rows):
                return [(r["method"], r["value"]) for r in rows]
    return None


def requested(cs, want):
    """the case is selected by the requested kind itself"""
    return any(want in set(walk(c)) for c, _ in cs)


def corr_table(chk, it, t, where, what):
    rs = table_records(t)
    if rs is None:
        chk.und("correlations", "%s: %s" % (it.name, what), "table %s" % sh(t), where)
        return
    kinds = []
    for m, v in rs:
        if not is_const(m):
            chk.und("correlations", "%s: %s" % (it.name, what), "kind %s" % sh(m), where)
            return
        kinds.append(cval(m))

        def f():
            cs = corr_calls(v)
            if not cs:
                raise Und("value %s" % sh(v))
            for node, k, other in cs:
                if not is_const(k):
                    for _, kk in q.phi_leaves(k):
                        if is_const(kk) and cval(kk) != cval(m):
                            raise Bad("the %s correlation is computed as %s in some cases: %s" % (cval(m), cval(kk), sh(k)))
                    raise Und("kind %s" % sh(k))
                if cval(k) != cval(m):
                    raise Bad("the %s correlation is computed as %s" % (cval(m), cval(k)))
                corr_pair(v, node, other)
        decide(chk, "correlation", "%s: %s %s" % (it.name, what, cval(m)), where, f)
    subj = "%s: %s kinds" % (it.name, what)
    if sorted(kinds) == sorted(KINDS):
        chk.good("kinds", subj)
    else:
        chk.bad("kinds", subj, "the table reports %s" % kinds, where)


def corr_rule(chk, it):
    s = it.run.s
    if it.op == "correlations":
        corr_table(chk, it, s.snap(s.ret), it.name, "returned")
    elif it.op == "summary":
        t = s.fieldt(s.cmp, "correlations_df")
        if t is None or t is NONE:
            chk.bad("kinds", it.name, "summary stores no correlations", it.name)
        else:
            corr_table(chk, it, t, it.name, "stored")
        p = s.fieldt(s.cmp, "ovo_profiles_comparison_plot")
        chk.ob("summary", it.name, False if p is None or p is NONE else True, "summary stores no comparison plot", it.name)
    elif it.op == "correlation":
        t = s.snap(s.ret)
        want = q.param("correlation_method", "str")

        def f():
            cs = corr_calls(t)
            if not cs:
                raise Und("value %s" % sh(t))
            for node, k, other in cs:
                if k is not want:
                    if is_const(k):
                        raise Bad("the requested kind is ignored: always %s" % cval(k))
                    if k.op == "phi" and any(is_const(kk) and not requested(cs, want) for cs, kk in q.phi_leaves(k)):
                        raise Bad("the requested kind is ignored in some cases: %s" % sh(k))
                    raise Und("kind %s" % sh(k))
                corr_pair(t, node, other)
        decide(chk, "correlation", it.name, it.name, f)
    if it.op in ("summary", "comparison_plot"):
        boxes(chk, it)


def boxes(chk, it):
    """every line of the correlation box shows the value of the kind it names"""
    for e in it.run.log:
        if e.kind != "ext" or e.name.split(".")[-1] not in ("text", "annotate", "figtext"):
            continue
        for a in list(e.args) + list(e.kw.values()):
            for x in walk(a):
                if x.op != "fstr":
                    continue
                names = {cval(y).lower() for y in walk(x.a[0]) if is_const(y) and isinstance(cval(y), str) and cval(y).lower() in KINDS} if isinstance(x.a[0], T) else set()
                got = set()
                for y in walk(x):
                    if y.op == "rows":
                        for z in walk(y.a[1]) if y.a[1].op == "cmp" else ():
                            if is_const(z) and isinstance(cval(z), str) and cval(z) in KINDS and z in y.a[1].a[1:]:
                                got.add(cval(z))
                if len(names) == 1 and len(got) == 1:
                    chk.ob("box", "%s: %s" % (it.name, list(names)[0]), names == got, "the line %s shows the %s correlation" % (list(names)[0], list(got)[0]), e.where())


def check_C22(chk):
    """Relational analysis of comparisons: the row mask of interaction_value is compared with its specification over every
    way a row's features can relate to the wanted pair; plotted coordinates, labels and axis directions are traced to the
    method, row and column they come from; every correlation is traced to its kind and its two methods."""
    for it in S.value_suite(chk):
        if it.name.endswith(".interaction_value"):
            chk.seen(it.run)
            chk.guard("lookup", it.name, value_rule, chk, it)
    for it in S.cmp_suite(chk, ("summary", "comparison_plot", "correlations", "correlation")):
        chk.seen(it.run)
        if it.op in ("summary", "comparison_plot"):
            chk.guard("points", it.name, plot_rule, chk, it)
        chk.guard("correlation", it.name, corr_rule, chk, it)


# ---------------------------------------------------------------- C29
def series(t):
    """(data, index) of a rank series"""
    t = strip_conv(t)
    while t.op == "m" and t.a[0] in ("rename", "astype", "copy", "dropna", "sort_index") or t.op == "copy":
        t = strip_conv(t.a[1] if t.op == "m" else t.a[0])
    if t.op == "call" and t.a[0] == "pandas.Series":
        kw = dict(t.a[2])
        d = kw.get("data") or (t.a[1][0] if t.a[1] else None)
        i = kw.get("index") or (t.a[1][1] if len(t.a[1]) > 1 else None)
        return t, d, i
    return t, None, None


def index_values(i):
    i = strip_conv(i)
    if i.op == "call" and i.a[0] in ("pandas.Index", "pandas.MultiIndex.from_tuples"):
        kw = dict(i.a[2])
        return index_values(kw.get("data") or kw.get("tuples") or i.a[1][0])
    return i


def uniq(t):
    """pairs without the later duplicates"""
    t = strip_conv(t)
    while True:
        if t.op == "m" and t.a[0] in ("drop_duplicates", "tolist", "unique", "to_list", "copy") or t.op == "call" and t.a[0] in ("list", "tuple", "pandas.unique") and t.a[1]:
            if t.op == "m" and t.a[0] == "drop_duplicates" and "keep" in dict(t.a[3]) and cval(dict(t.a[3])["keep"]) == "last":
                raise Und("duplicates keep the last rank")
            t = strip_conv(t.a[1] if t.op == "m" else t.a[1][0])
        elif t.op == "call" and t.a[0] == "pandas.Series":
            kw = dict(t.a[2])
            d = kw.get("data") or (t.a[1][0] if t.a[1] else None)
            if d is None:
                return t
            t = strip_conv(d)
        elif t.op == "attr" and t.a[1] in ("values", "array"):
            t = strip_conv(t.a[0])
        elif t.op == "unique" and isinstance(t.a[0], T):
            t = strip_conv(t.a[0])
        else:
            return t


def pair_rows(t):
    """(table, pair term per row)"""
    t = uniq(t)
    if t.op == "m" and t.a[0] == "apply":
        kw = dict(t.a[3])
        f = kw.get("func") or (t.a[2][0] if t.a[2] else None)
        if f is not None and f.op == "lam":
            return t.a[1], f.a[-1]
    if t.op == "map" and t.a[2] is TRUE:
        return src_table(t.a[0]), t.a[1]
    if t.op == "along" and isinstance(t.a[2], T):
        return t.a[0], t.a[2]
    u = None
    if t.op == "m" and t.a[0] == "sort_values" and "by" not in dict(t.a[3]) and "key" not in dict(t.a[3]) and not t.a[2]:
        u = t.a[1]
    elif t.op == "call" and t.a[0] in ("sorted", "numpy.sort") and len(t.a[1]) == 1 and not any(k == "key" for k, _ in t.a[2]):
        u = t.a[1][0]
    elif t.op == "sortvals":
        u = t.a[0]
    if u is not None:
        try:
            pair_rows(u)
        except Und:
            u = None
        if u is not None:
            raise Bad("the ranks are positions among the pairs sorted by name")
    raise Und("pairs %s" % sh(t))


def pair_key(b, tab):
    """'pair' when the key identifies the unordered pair; raises Bad / Und"""
    k = b
    conv = None
    while k.op == "conv" or k.op == "call" and k.a[0] in ("tuple", "frozenset", "list", "sorted") and k.a[1]:
        if k.op == "conv":
            conv = k.a[0] if k.a[0] in ("frozenset", "set", "sorted") else conv
            k = k.a[1]
        else:
            conv = k.a[0] if k.a[0] in ("frozenset", "sorted") else conv
            k = k.a[1][0]
    srt = conv is not None
    if k.op == "sorted":
        srt = True
        k = k.a[0]
    if k.op == "setof":
        srt = True
        k = k.a[0]
    if k.op == "set":
        srt = True
    items = None
    if k.op in ("tuple", "list", "set") and len(k.a) == 2:
        # (min, max) of the two names
        ms = [x.a[0] if x.op == "call" and x.a[0] in ("min", "max") else x.op if x.op in ("min", "max") else None for x in k.a]
        if set(ms) == {"min", "max"}:
            srt = True
            x = k.a[0]
            k = mk("tuple", *(x.a[1] if x.op == "call" else x.a))
        items = k.a
    elif k.op == "row":
        # a whole row of the feature columns
        base = k.a[0]
        if base.op == "cols":
            cs = base.a[1]
            cs = [cval(c) if isinstance(c, T) else c for c in (cs if isinstance(cs, tuple) else ())]
            if set(cs) == {F1, F2}:
                if not srt:
                    raise Bad("a pair is identified by its features in table order, which differs between methods")
                return
        raise Und("key %s" % sh(b))
    elif k.op == "elem" and strip_conv(k.a[0]).op == "zip":
        cs = [(column(x) or (None, None))[1] for x in strip_conv(k.a[0]).a]
        if set(cs) == {F1, F2}:
            if not srt:
                raise Bad("a pair is identified by its features in table order, which differs between methods")
            return
        raise Und("key %s" % sh(b))
    elif k.op == "phi":
        for _, leaf in q.phi_leaves(k, 8):
            if leaf.op != "tuple" or len(leaf.a) != 2 or {(fld(x) or (0, None))[1] for x in leaf.a} != {F1, F2}:
                raise Und("key %s" % sh(b))
        c = k.a[0]
        if c.op == "cmp" and c.a[0] in ("<", "<=") and {(fld(x) or (0, None))[1] for x in c.a[1:]} == {F1, F2}:
            return
        raise Und("key %s" % sh(b))
    else:
        raise Und("key %s" % sh(b))
    fs = [(fld(x) or (None, None))[1] for x in items]
    if None in fs:
        raise Und("key %s" % sh(b))
    if set(fs) != {F1, F2}:
        raise Bad("a pair is identified by %s only" % fs[0])
    if not srt:
        raise Bad("a pair is identified by its features in table order, which differs between methods")


def sort_step(t, name, key, m, flip=False):
    """the ranking table is ordered strongest first"""
    b, steps = root(t)
    for st in steps:
        if st.kind == "flip":
            flip = not flip
        elif st.kind == "sort":
            by, asc = tb.arg(st, 0, "by"), st.kw.get("ascending", TRUE)
            if st.name != "sort_values" or by is None:
                raise Und("ordered by %s" % st.name)
            if by.op in ("list", "tuple") and len(by.a):
                if asc.op in ("list", "tuple"):
                    asc = asc.a[0]
                by = by.a[0]
            if not is_const(by):
                raise Und("ordered by %s" % sh(by))
            if cval(by) != name:
                raise Bad("ranks follow %r, not the strengths" % cval(by))
            a = truth_of(subst(asc, m) if m else asc)
            if a is None:
                raise Und("direction %s" % sh(asc))
            return a != flip
        elif st.kind == "group":
            raise Bad("ranks follow the order of the grouped keys, that is the names")
        elif st.kind in ("fewer", "filter") and st.name not in ("drop_duplicates", "dropna"):
            raise Bad("only some of the pairs are ranked (%s)" % st.name)
    return None


NAMEY = ("hash", "ord", "pandas.factorize", "id")


def from_names(t):
    """the term computes a number from names"""
    return any(x.op == "attr" and x.a[1] == "codes" or x.op == "call" and x.a[0] in NAMEY or x.op == "m" and x.a[0] in ("factorize", "cumcount_by_name") for x in walk(t))


def judge_numbers(d):
    """the correlated numbers are positions or ranks"""
    if d.op in ("range", "pos") or d.op == "map" and d.a[1].op == "pos" or d.op == "call" and d.a[0] == "numpy.arange":
        return
    if d.op == "m" and d.a[0] == "rank":
        c = column(d.a[1])
        if c is None:
            raise Und("ranks of %s" % sh(d.a[1]))
        if c[1] in (F1, F2):
            raise Bad("the ranks are those of the names in %r" % c[1])
        return
    if from_names(d):
        raise Bad("the numbers compared are codes of the names, not ranks")
    if d.op == "map":
        b = d.a[1]
        if any(x.op == "elem" or (fld(x) or (0, None))[1] in (F1, F2) for x in walk(b)) and b.op in ("len", "call", "bin") and not any(x.op == "pos" and x.a[0] is d.a[0] for x in walk(b)):
            raise Bad("the numbers compared are computed from the names: %s" % sh(b))
    raise Und("numbers %s" % sh(d))


def judge_direction(d, tab, name, key, m):
    """True: small numbers belong to small strengths"""
    neg = False
    if d.op == "neg":
        neg, d = True, d.a[0]
    if d.op == "m" and d.a[0] == "rank":
        kw = dict(d.a[3])
        asc = truth_of(subst(kw.get("ascending", TRUE), m) if m else kw.get("ascending", TRUE))
        c = column(d.a[1])
        if c is None or asc is None or c[0] is not tab:
            raise Und("ranks %s" % sh(d))
        if c[1] != name:
            raise Bad("the ranks are those of column %r" % c[1])
        return asc != neg
    step = 1
    if d.op == "range":
        step = cval(d.a[2]) if len(d.a) > 2 and isinstance(d.a[2], T) and is_const(d.a[2]) else 1
    elif not (d.op == "pos" or d.op == "map" and d.a[1].op == "pos" or d.op == "call" and d.a[0] == "numpy.arange"):
        raise Und("numbers %s" % sh(d))
    asc = sort_step(tab, name, key, m)
    if asc is None:
        b, _ = root(tab)
        if key == "cmd":
            raise Und("rank in the stored table")
        asc = oracle(key, "ovo", cval(list(m.values())[0]) if m else None)     # the stored table is in order (C09)
    return (asc != (step < 0)) != neg


def rank_series(chk, t, who, name, key, metrics, subj, where):
    """obligations of one operand: it holds, for every pair of the method, its rank"""
    t0 = strip_conv(t)
    while t0.op == "m" and t0.a[0] in ("rename", "astype", "copy") or t0.op == "copy":
        t0 = strip_conv(t0.a[1] if t0.op == "m" else t0.a[0])
    if t0.op == "m" and t0.a[0] == "reset_index" and series(t0.a[1])[1] is not None:
        dr = dict(t0.a[3]).get("drop")
        if dr is not None and truth_of(dr):
            chk.bad("aligned", subj, "the pairs are dropped: the rankings are aligned by position", where)
            return
    node, d, i = series(t)
    if d is None:
        if from_names(t):
            chk.bad("numbers", subj, "the numbers compared are codes of the names, not ranks", where)
        else:
            chk.und("numbers", subj, "ranking %s" % sh(t), where)
        return
    d0 = strip_conv(d)
    st = {}

    def data():
        d1 = d0
        if d1.op == "dict" and i is None:
            st["i"], d1 = dict_series(d1)
        else:
            st["i"] = i
        while d1.op == "call" and d1.a[0] in ("list", "numpy.array", "tuple") and d1.a[1]:
            d1 = strip_conv(d1.a[1][0])
        st["d"] = d1
        judge_numbers(d1)
    if decide(chk, "numbers", subj, where, data) is False:
        return

    def aligned():
        if "i" not in st:
            raise Und("index")
        if st["i"] is None:
            raise Bad("the rankings are aligned by position, not by pair")
        st["rows"] = pair_rows(index_values(st["i"]))
        pair_key(st["rows"][1], st["rows"][0])
    decide(chk, "aligned", subj, where, aligned)

    def table():
        if "rows" not in st:
            raise Und("rows")
        got = own_table(st["rows"][0], who)
        if got != who:
            raise Bad("the ranks of %s are taken from the table of %s" % (who, got))
    decide(chk, "own pairs", subj, where, table)
    for m, metric in metrics:
        def order():
            if "rows" not in st:
                raise Und("rows")
            if judge_direction(st["d"], st["rows"][0], name, key, m) != oracle(key, "ovo", metric):
                raise Bad("the pairs of %s are ranked weakest first" % name)
        decide(chk, "order", subj + (" [%s]" % metric if metric else ""), where, order)


def dict_series(d):
    """(keys, ranks) of {pair: rank} built by enumeration"""
    if len(d.a) != 1:
        raise Und("ranking %s" % sh(d))
    k, v = d.a[0]
    if k.op == "seg" and k.a[0] == "map" and v.op == "ents" and len(v.a) == 1 and v.a[0].op == "kv":
        kk, vv = v.a[0].a
        src = k.a[1]
        if vv.op == "pos":
            if kk.op == "elem":
                return kk.a[0], vv
            return mk("map", src, kk, TRUE), vv
    raise Und("ranking %s" % sh(d))


def corr_ranks(chk, it):
    s = it.run.s
    t = s.snap(s.ret)
    names = {"m1": (method_name(s, s.m1), it.k1), "m2": (method_name(s, s.m2), it.k2)}
    cs = corr_calls(t)
    if not cs:
        chk.und("ranks", it.name, "no correlation found in %s" % sh(t), it.name)
        return
    metrics = [({}, None)]
    if "split" in (it.k1, it.k2):
        p = q.param("interaction_metric", "str")
        metrics = [({p: const(m)}, m) for m in INTER_METRICS]
    for node, k, other in cs:
        try:
            xs, _ = operands(node, other)
        except Bad as e:
            chk.bad("ranks", it.name, str(e), corr_where(it))
            continue
        except Und as e:
            chk.und("ranks", it.name, str(e), corr_where(it))
            continue
        chk.ob("both methods", it.name, True if set().union(*[owners(x) for x in xs]) == {"m1", "m2"} else (False if all(owners(x) for x in xs) else None), "both rankings belong to one method", corr_where(it))
        for x in xs:
            o = owners(x)
            if len(o) != 1:
                chk.und("ranks", it.name, "ranking %s" % sh(x), corr_where(it))
                continue
            who = o.pop()
            nm, key = names[who]
            chk.guard("ranks", it.name, rank_series, chk, x, who, nm, key, metrics, "%s: ranks of %s" % (it.name, who), corr_where(it))


def corr_where(it):
    for e in it.run.log:
        if e.kind == "ext" and e.name.split(".")[-1] in ("corr", "corrwith", "spearmanr", "kendalltau"):
            return e.where()
    return it.name


def check_C29(chk):
    """Provenance of the numbers that are correlated: each operand must be a series of positions in the method's own pair
    table, ordered strongest first, indexed by a key that identifies the unordered pair, and the operands must be joined
    on that index; a number computed from names (codes, hashes) is a violation."""
    for it in S.cmp_suite(chk, ("correlation",)):
        chk.seen(it.run)
        chk.guard("ranks", it.name, corr_ranks, chk, it)
