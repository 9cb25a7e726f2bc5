"""C10: plots show the method's own data, direction and labels; summary panels equal the stand-alone plots."""
from .. import query as q
from .. import suites as S
from .. import tables as tb
from ..canon import mk_idx
from ..terms import T, mk, const, NONE, TRUE, FALSE, is_const, cval, walk, show, strip_conv, subst, mk_and
from .tablerules import oracle, truth_of, INTER_METRICS, IMP_METRICS

COLS = {"cmd": ("root_variable", "variable")}
PANELS = ("heatmap", "graph", "bar_chart", "bar_chart_ova")
ACCEPT = {k: ("heatmap", "graph", "bar_chart", "summary") for k in S.INTER}
AX = mk("axes")


class Und(Exception):
    pass


class Bad(Exception):
    pass


def sh(t):
    return show(t, 3)[:160] if isinstance(t, T) else str(t)


def types_of(key):
    return ("heatmap", "graph", "bar_chart", "summary") + {"friedman": ("bar_chart_ova",), "cmd": ("bar_chart_conditional",), "split": ("lollipop",)}.get(key, ())


# ---------------------------------------------------------------- events
class Ev:
    """one drawing call: name, bound arguments, the axes it acts on"""

    def __init__(self, e, name, args, kw, recv, axes):
        self.e, self.name, self.args, self.kw, self.recv, self.axes = e, name, args, kw, recv, axes

    def arg(self, i, *names):
        for n in names:
            if n in self.kw:
                return self.kw[n]
        return self.args[i] if i is not None and i < len(self.args) else None

    def where(self):
        return self.e.where()


def is_fig(t):
    return t.op == "call" and t.a[0] == "matplotlib.pyplot.figure" or t.op == "call" and t.a[0] == "matplotlib.pyplot.gcf" or \
        t.op == "idx" and t.a[0].op == "call" and t.a[0].a[0] == "matplotlib.pyplot.subplots" and t.a[1] is const(0) or \
        t.op == "attr" and t.a[1] == "figure"


def is_axes(t):
    if t.op == "idx":
        return t.a[0].op == "call" and t.a[0].a[0] == "matplotlib.pyplot.subplots" and t.a[1] is const(1) or is_axes(t.a[0])
    if t.op == "m":
        return t.a[0] in ("add_subplot", "add_axes") or t.a[0] in ("gca", "subplots") and is_fig(t.a[1])
    if t.op == "call":
        return t.a[0] in ("matplotlib.pyplot.gca", "matplotlib.pyplot.subplot", "matplotlib.pyplot.axes", "seaborn.barplot", "seaborn.heatmap")
    return t.op == "elem" and is_axes(t.a[0])


PYPLOT_FIG = {"figure", "subplots", "show", "tight_layout", "gcf", "close", "suptitle", "savefig", "subplots_adjust"}


def events(it, facts=None):
    """drawing calls of the operation, in order, with the axes each acts on (current axes resolved)"""
    out = []
    cur = None
    made = {}
    for e in it.run.log[it.run.marks["op"]:]:
        if e.kind != "ext":
            continue
        name, kw, args, recv = e.name, dict(e.kw), tuple(e.args), e.recv
        if facts:
            kw = {k: subst(v, facts) for k, v in kw.items()}
            args = tuple(subst(v, facts) for v in args)
            recv = subst(recv, facts) if isinstance(recv, T) else recv
            g = TRUE
            for x in e.guards:
                g = mk_and(g, subst(x, facts))
            if g is FALSE:
                continue
        res = e.result if isinstance(e.result, T) else None
        if facts and res is not None:
            res = subst(res, facts)
        if name == "matplotlib.pyplot.subplots":
            cur = mk("idx", res, const(1)) if res is not None else None
            out.append(Ev(e, name, args, kw, recv, None))
            continue
        if name == "matplotlib.pyplot.figure":
            cur = None
            out.append(Ev(e, name, args, kw, recv, None))
            continue
        if name in (".add_subplot", ".add_axes", "matplotlib.pyplot.subplot", "matplotlib.pyplot.axes"):
            cur = res
            out.append(Ev(e, name, args, kw, recv, res))
            continue
        if name in ("matplotlib.pyplot.sca",):
            cur = args[0] if args else kw.get("ax")
            continue
        if name in ("matplotlib.pyplot.gca", ".gca"):
            continue
        base = name.rsplit(".", 1)[-1]
        ax = None
        if name.startswith("matplotlib.pyplot."):
            if base in PYPLOT_FIG:
                out.append(Ev(e, name, args, kw, recv, None))
                continue
            if base in ("Normalize", "get_cmap", "clf", "cla", "rc", "rcParams"):
                continue
            ax = kw.get("ax") or cur
        elif name.startswith(("seaborn.", "networkx.draw")):
            ax = kw.get("ax") or cur
            ax = cur if ax is NONE else ax
        elif name.startswith("networkx.from_"):
            ax = None
        elif isinstance(recv, T) and name.startswith("."):
            r = strip_conv(recv)
            if r.op == "call" and r.a[0] == "matplotlib.pyplot.gca" or r.op == "m" and r.a[0] == "gca":
                ax = cur
            elif r.op == "call" and r.a[0].startswith("seaborn."):
                ax = made.get(r, cur)
            elif is_axes(r):
                ax = r
            elif r.op == "attr" and r.a[1] == "plot" or base == "plot" and "kind" in kw:
                ax = kw.get("ax") or cur
            elif is_fig(r):
                out.append(Ev(e, name, args, kw, recv, None))
                continue
            else:
                continue
        else:
            continue
        if res is not None:
            made[res] = ax
        out.append(Ev(e, name, args, kw, recv, ax))
    return out


def titles(evs):
    """(text, event) of everything that sets a title"""
    for v in evs:
        b = v.name.rsplit(".", 1)[-1]
        if b == "title" and v.name.startswith("matplotlib.pyplot"):
            yield "title", v.arg(0, "label"), v
        elif b == "set_title":
            yield "title", v.arg(0, "label"), v
        elif b == "suptitle":
            yield "suptitle", v.arg(0, "t"), v
        elif v.name.startswith(".") and "title" in v.kw:
            yield "title", v.kw["title"], v
        elif b == "set" and "title" in v.kw:
            yield "title", v.kw["title"], v


# ---------------------------------------------------------------- ownership of data
def root_of(t):
    """name of the stored table a term leaf stands for: ('self', 'ovo') or None"""
    if t.op == "param" and "." in t.a[0]:
        return tuple(t.a[0].split(".", 1))
    if t.op == "attr" and t.a[0].op == "param":
        return (t.a[0].a[0], t.a[1])
    return None


TABLES = ("ovo", "ova", "feature_importance", "full_result", "_compare_ovo")


def roots(t):
    out = set()
    for x in walk(t):
        r = root_of(x)
        if r and r[1] in TABLES:
            out.add(r[1])
    return out


def column(t, name, d=0):
    """the term of column `name` of frame t, through assignments and renames"""
    c = const(name)
    if t.op == "copy":
        return column(t.a[0], name, d)
    if t.op == "store":
        if t.a[1] is c:
            return t.a[2]
        if is_const(t.a[1]):
            return column(t.a[0], name, d)
        raise Und("assignment to %s" % sh(t.a[1]))
    if t.op == "m" and t.a[0] in ("reset_index", "sort_values", "copy", "head", "tail", "sort_index", "dropna", "drop_duplicates", "astype"):
        return column(t.a[1], name, d)
    if t.op == "m" and t.a[0] == "assign":
        kw = dict(t.a[3])
        if name in kw:
            return kw[name]
        return column(t.a[1], name, d)
    if t.op == "m" and t.a[0] == "rename":
        m = dict(t.a[3]).get("columns")
        if m is None or m.op != "dict":
            raise Und("rename %s" % sh(t))
        back = {}
        for k, v in m.a:
            if not (isinstance(k, T) and is_const(k) and is_const(v)):
                raise Und("rename %s" % sh(m))
            back[cval(v)] = cval(k)
        if name in back:
            return column(t.a[1], back[name], d)
        if name in back.values():
            raise Bad("column %r is renamed away" % name)
        return column(t.a[1], name, d)
    if t.op == "m" and t.a[0] == "set_axis":
        raise Und("set_axis")
    if t.op in ("iloc", "rows", "cols"):
        return column(t.a[0], name, d)
    if t.op == "storeloc":
        if t.a[2] is c:
            raise Und("partly overwritten column %r" % name)
        if is_const(t.a[2]):
            return column(t.a[0], name, d)
        raise Und("partly overwritten table")
    return mk_idx(t, c)


def own_col(t, table, name):
    """t is column `name` of the method's own stored `table`"""
    t = strip_conv(t)
    if t.op == "attr" and t.a[1] == "values":
        t = t.a[0]
    if t.op != "idx" or not is_const(t.a[1]):
        return None
    r = root_of(tb.peel(t.a[0])[1])
    if r is None:
        return None
    return r[1] == table and cval(t.a[1]) == name


def whose(t):
    """(table, column) of a column term of a stored table, or None"""
    t = strip_conv(t)
    if t.op == "attr" and t.a[1] == "values":
        t = t.a[0]
    if t.op == "idx" and is_const(t.a[1]):
        steps, b = tb.peel(t.a[0])
        r = root_of(b)
        if r and all(s.kind in ("neutral", "sort") for s in steps):
            return (r[1], cval(t.a[1]))
    return None


# ---------------------------------------------------------------- the check
class Ctx:
    pass


def ctx(chk, it, key, facts, tag, im, fm):
    c = Ctx()
    c.chk, c.it, c.key, c.facts = chk, it, key, facts
    c.f1, c.f2 = COLS.get(key, ("Feature 1", "Feature 2"))
    s = it.run.s
    c.method = q.const_str(s.fieldt(s.m, "method"))
    c.directed = key == "cmd"
    c.asc = oracle(key, "ovo", im)
    c.imp_asc = oracle(key, "feature_importance", fm)
    c.subj = it.name + tag
    return c


def cases(key):
    """(facts, tag, interaction metric, importance metric)"""
    if key != "split":
        return [({}, "", None, None)]
    pi, pf = q.param("interaction_metric", "str"), q.param("importance_metric", "str")
    out = []
    seen = set()
    for a in INTER_METRICS:
        for b in IMP_METRICS:
            k = (oracle(key, "ovo", a), oracle(key, "feature_importance", b))
            if a in [x[0] for x in seen] and b in [x[1] for x in seen] and k in [x[2] for x in seen]:
                continue
            seen.add((a, b, k))
            f = {}
            if pi is not None:
                f[pi] = const(a)
            if pf is not None:
                f[pf] = const(b)
            out.append((f, " [%s, %s]" % (a, b), a, b))
    return out


def check_C10(chk):
    """Drawing: every drawing call reached from plot(vis_type) is bound to its arguments and traced back to the stored tables.
    Heatmap: pivot of the method's own pair table over its own feature columns, mirrored iff the measure is undirected,
    diagonal from its own importance table, rows and columns in one common order in the measure's direction, colour maps
    reversed iff small values are the strong ones.  Graph: edges of the own table, directed iff the measure is, weak edges
    erased on the side of the weak values, widths growing with strength.  Bar charts: the first rows of the own table,
    strongest on top.  Title and figure size are the caller's.  Every panel of a summary makes exactly the calls of the
    stand-alone plot on its own axes (the current axes of pyplot calls are resolved)."""
    for key in S.INTER:
        items = {}
        for vt in types_of(key):
            it = S.plot_item(chk, key, vt, kw=False)
            if it is None:
                chk.und("plot", "%s.plot(%s)" % (key, vt), "not analysed")
                continue
            items[vt] = it
            chk.guard("title", it.name, title_rule, chk, it, vt)
            chk.guard("figure size", it.name, figsize_rule, chk, it, vt)
            for facts, tag, im, fm in cases(key):
                c = ctx(chk, it, key, facts, tag, im, fm)
                c.subj = it.name + tag
                if vt != "summary":
                    chk.guard("data", c.subj, RULES[vt], c, events(it, facts))
        if "summary" in items:
            chk.guard("panels", items["summary"].name, panels_rule, chk, items)
            if key == "friedman":
                it = S.plot_item(chk, key, "summary", ova="none", kw=False)
                if it is not None:
                    chk.guard("panels", it.name, panels_rule, chk, dict(items, summary=it), False)
    for it in S.profile_suite(chk):
        chk.guard("figure size", it.name, figsize_rule, chk, it, "profile")
    it = S.pdvis_item(chk)
    if it is not None:
        chk.guard("title", it.name, title_rule, chk, it, "pdvis")
        chk.guard("figure size", it.name, figsize_rule, chk, it, "pdvis")


def decide(c, rule, what, fn, where=None):
    """run fn; Bad → violation, Und → undecided, else discharged"""
    try:
        fn()
    except Bad as b:
        c.chk.ob(rule, "%s: %s" % (c.subj, what), False, str(b), where)
    except Und as u:
        c.chk.und(rule, "%s: %s" % (c.subj, what), str(u), where)
    else:
        c.chk.ob(rule, "%s: %s" % (c.subj, what), True, "", where)


# ---------------------------------------------------------------- titles and sizes
def title_rule(chk, it, vt):
    p = q.param("title", "str")
    n = 0
    want = "suptitle" if vt == "summary" else "title"
    last = None
    for kind, t, v in titles(events(it)):
        if kind != want and vt != "pdvis":
            continue
        if vt == "pdvis" and v.name.endswith(".set_title"):
            pass
        n += 1
        last = (t, v)
        sub = "%s: %s" % (it.name, v.name.rsplit(".", 1)[-1])
        if t is None or p is None:
            chk.und("title", sub, "title not resolved")
            continue
        r = q.facts_of((mk_eq(p, const("default")), False), (mk("isnone", p), False))
        from ..terms import assume
        u = strip_conv(assume(t, r))
        if u is p:
            chk.ob("title", sub, True, "", v.where())
        elif any(x.op in ("opaque", "deep", "havoc") for x in walk(u)) or len(q.phi_leaves(u, 20)) > 1:
            chk.und("title", sub, "title %s" % sh(u), v.where())
        else:
            chk.ob("title", sub, False, "a caller's title is not shown: the title is %s" % sh(u), v.where())
    if n == 0:
        e = events(it)
        chk.ob("title", it.name, False, "the plot never sets a title", e[0].where() if e else "")


def mk_eq(a, b):
    from ..terms import mk_cmp
    return mk_cmp("==", a, b)


def figsize_rule(chk, it, vt):
    p = q.param("figsize", "tuple")
    n = 0
    for v in events(it):
        b = v.name.rsplit(".", 1)[-1]
        t = None
        if v.name in ("matplotlib.pyplot.subplots", "matplotlib.pyplot.figure"):
            t = v.arg(0 if b == "figure" and False else None, "figsize")
        elif b == "set_size_inches":
            t = v.arg(0, "w")
        elif "figsize" in v.kw:
            t = v.kw["figsize"]
        else:
            continue
        n += 1
        sub = "%s: %s" % (it.name, b)
        if t is None:
            chk.ob("figure size", sub, False, "the figure is created without the requested size", v.where())
            continue
        r = scaled(t, p)
        if r is None:
            known = not any(x.op in ("opaque", "deep", "havoc") for x in walk(t))
            if known and p not in set(walk(t)):
                chk.ob("figure size", sub, False, "the figure size is %s, whatever the caller asks for" % sh(t), v.where())
            else:
                chk.und("figure size", sub, "size %s" % sh(t), v.where())
        elif r != 1 and vt != "summary":
            chk.ob("figure size", sub, False, "the figure is %s times the requested size" % r, v.where())
        else:
            chk.ob("figure size", sub, True, "", v.where())
    if n == 0:
        chk.und("figure size", it.name, "no figure creation found")


def scaled(t, p):
    """k when t is k times the size p, else None"""
    t = strip_conv(t)
    if t is p:
        return 1
    if t.op == "map":
        b, e = t.a[1], mk("elem", t.a[0], 0)
        if strip_conv(t.a[0]) is not p:
            return None
        es = [x for x in walk(b) if x.op == "elem"]
        return factor(b, es[0]) if es and t.a[2] is TRUE else None
    if t.op in ("tuple", "list") and len(t.a) == 2:
        ks = []
        for i, x in enumerate(t.a):
            if x.op == "seg":
                return None
            k = factor(x, mk_idx(p, const(i)))
            if k is None:
                return None
            ks.append(k)
        return ks[0] if ks[0] == ks[1] else None
    if t.op == "list" and len(t.a) == 1 and t.a[0].op == "seg" and t.a[0].a[0] == "map" and strip_conv(t.a[0].a[1]) is p and len(t.a[0].a[2]) == 1:
        b = t.a[0].a[2][0]
        es = [x for x in walk(b) if x.op == "elem"]
        return factor(b, es[0]) if es else None
    return None


def factor(t, x):
    if t is x:
        return 1
    if t.op == "bin" and t.a[0] == "*":
        for a, b in ((t.a[1], t.a[2]), (t.a[2], t.a[1])):
            if a is x and is_const(b) and isinstance(cval(b), (int, float)) and cval(b) > 0:
                return cval(b)
    return None


# ---------------------------------------------------------------- heatmap
def mask_kind(m):
    """'off' when the diagonal is hidden, 'diag' when only the diagonal is shown"""
    neg = False
    m = strip_conv(m)
    while True:
        if m.op == "un" and m.a[0] in ("~", "not"):
            neg, m = not neg, strip_conv(m.a[1])
        elif m.op == "not":
            neg, m = not neg, strip_conv(m.a[0])
        elif m.op == "call" and m.a[0] in ("numpy.logical_not", "numpy.invert"):
            neg, m = not neg, strip_conv(m.a[1][0])
        elif m.op == "m" and m.a[0] == "astype":
            m = m.a[1]
        elif m.op == "cmp" and m.a[0] == "==" and any(is_const(x) and cval(x) in (0, False) for x in m.a[1:]):
            neg, m = not neg, [x for x in m.a[1:] if not is_const(x)][0]
        else:
            break
    if m.op == "call" and m.a[0] in ("numpy.eye", "numpy.identity"):
        return "diag" if neg else "off"
    parts = m.a[1] if m.op == "call" and m.a[0] in ("numpy.logical_or", "numpy.logical_and") else \
        m.a[1:3] if m.op in ("bin", "cmp") and m.a[0] in ("|", "&") else m.a if m.op in ("or", "and", "band", "bor") else ()
    for x in parts:
        # a test of the shown values themselves: some cells then fall on the wrong side of the mask
        if isinstance(x, T) and x.op == "cmp" and any(y.op == "m" and y.a[0] in ("pivot_table", "pivot") for y in walk(x)) \
                and not any(y.op in ("isnone", "isna", "isnan") for y in walk(x)):
            raise Bad("cells are hidden by their value: %s" % sh(x))
    raise Und("mask %s" % sh(m))


def shape_steps(t):
    """(row order terms, column order terms, core) of a displayed matrix: peel reindexing"""
    rows, cols = [], []
    while True:
        t = strip_conv(t)
        if t.op == "copy":
            t = t.a[0]
        elif t.op == "m" and t.a[0] == "reindex":
            kw = dict(t.a[3])
            a = t.a[2]
            lab = kw.get("labels") or (a[0] if a else None)
            if "index" in kw:
                rows.append(kw["index"])
            if "columns" in kw:
                cols.append(kw["columns"])
            if lab is not None:
                ax = kw.get("axis")
                if ax is None or is_const(ax) and cval(ax) in (0, "index"):
                    rows.append(lab)
                elif is_const(ax) and cval(ax) in (1, "columns"):
                    cols.append(lab)
                else:
                    raise Und("reindex along %s" % sh(ax))
            t = t.a[1]
        elif t.op == "m" and t.a[0] == "sort_index" and dict(t.a[3]).get("axis", const(0)) in (const(0), const("index")):
            rows.append(mk("attr", t, "index"))
            t = t.a[1]
        elif t.op == "m" and t.a[0] in ("transpose",) or t.op == "attr" and t.a[1] == "T":
            raise Und("transposed matrix")
        elif t.op == "locidx" and t.a[1].op == "tuple" and len(t.a[1].a) == 2:
            r, cc = t.a[1].a
            if r.op != "slice":
                rows.append(r)
            if cc.op != "slice":
                cols.append(cc)
            t = t.a[0]
        elif t.op == "rows" and t.a[1].op not in ("slice", "cmp", "and", "or", "not", "in"):
            rows.append(t.a[1])
            t = t.a[0]
        elif t.op == "cols":
            raise Und("literal column selection")
        elif t.op == "idx":
            cols.append(t.a[1])
            t = t.a[0]
        else:
            return rows, cols, t


def order_dir(t, d=0):
    """True ascending / False descending order of a label sequence"""
    t = strip_conv(t)
    if t.op == "attr" and t.a[1] in ("index", "values"):
        return order_dir(t.a[0], d)
    if t.op == "m" and t.a[0] in ("tolist", "to_list", "copy"):
        return order_dir(t.a[1], d)
    if t.op in ("idx", "iloc") and tb.flip_slice(t.a[1]):
        return not order_dir(t.a[0], d)
    if t.op == "call" and t.a[0] == "reversed":
        return not order_dir(t.a[1][0], d)
    if t.op == "m" and t.a[0] in ("sort_index", "sort_values"):
        kw = dict(t.a[3])
        a = kw.get("ascending", TRUE)
        v = truth_of(a)
        if v is None:
            raise Und("ascending=%s" % sh(a))
        k = kw.get("key")
        if k is not None:
            return v == (key_sign(k) > 0)
        if t.a[0] == "sort_index":
            raise Bad("the rows are ordered by feature name")
        return v
    if t.op == "call" and t.a[0] == "sorted":
        kw = dict(t.a[2])
        v = truth_of(kw.get("reverse", FALSE))
        if v is None:
            raise Und("reverse=%s" % sh(kw["reverse"]))
        if "key" not in kw:
            raise Bad("the rows are ordered by feature name")
        return (not v) == (key_sign(kw["key"]) > 0)
    raise Und("order %s" % sh(t))


def key_sign(k):
    """+1 when the sort key grows with the scores"""
    if k.op == "lam":
        b = strip_conv(k.a[-1])
        if b.op == "map":
            b = b.a[1]
        if b.op == "list" and len(b.a) == 1 and b.a[0].op == "seg" and b.a[0].a[0] == "map" and len(b.a[0].a[2]) == 1:
            b = b.a[0].a[2][0]
        return sign(b)
    if k.op == "m" and k.a[0] in ("get", "__getitem__") or k.op == "attr" and k.a[1] in ("get", "__getitem__"):
        return 1
    raise Und("sort key %s" % sh(k))


def sign(b):
    b = strip_conv(b)
    if b.op == "neg" or b.op == "un" and b.a[0] == "-":
        return -sign(b.a[-1])
    if b.op == "bin" and b.a[0] == "*":
        for x, y in ((b.a[1], b.a[2]), (b.a[2], b.a[1])):
            if is_const(x) and isinstance(cval(x), (int, float)) and cval(x) != 0:
                return sign(y) * (1 if cval(x) > 0 else -1)
        return 1
    if b.op == "bin" and b.a[0] == "+":
        s = {sign(b.a[1]), sign(b.a[2])}
        if len(s) == 1:
            return s.pop()
        raise Und("sort key of mixed direction")
    if b.op == "bin" and b.a[0] == "-":
        if sign(b.a[2]) > 0 and is_const(b.a[1]):
            return -1
        raise Und("sort key of mixed direction")
    if b.op == "bin" and b.a[0] == "/":
        if is_const(b.a[1]) and not is_const(b.a[2]):
            return -sign(b.a[2])
        return sign(b.a[1])
    if b.op == "bin":
        raise Und("sort key %s" % sh(b))
    return 1


def parts(t):
    """the frames a concatenation stacks"""
    t = strip_conv(t)
    if t.op == "copy":
        return parts(t.a[0])
    if t.op == "call" and t.a[0] == "pandas.concat":
        kw = dict(t.a[2])
        o = kw.get("objs") or t.a[1][0]
        items = tb.seq_items(o)
        if items is None:
            raise Und("stacked tables %s" % sh(o))
        ax = kw.get("axis")
        if ax is not None and not (is_const(ax) and cval(ax) in (0, "index")):
            raise Und("concatenation along columns")
        return [p for x in items for p in parts(x)]
    if t.op == "m" and t.a[0] in ("reset_index", "drop_duplicates"):
        return parts(t.a[1])
    return [t]


def classify(c, t):
    """'direct' | 'mirrored' (rows of the own pair table) | 'diag' (own importance on the diagonal)"""
    if t.op == "call" and t.a[0].startswith("pandas.DataFrame"):
        return diag_part(c, t)
    steps, b = tb.peel(t)
    r = root_of(b)
    if r is None:
        raise Und("part %s" % sh(b))
    if r[1] not in ("ovo", "_compare_ovo") or r[0] != "self":
        raise Bad("values come from %s" % ".".join(r))
    for st in steps:
        if st.kind in ("fewer", "filter") and st.name not in ("drop_duplicates", "dropna"):
            raise Bad("only some of the pairs are shown (%s)" % st.name)
    a, b2, v = (whose(column(t, n)) for n in (c.f1, c.f2, c.method))
    if a is None or b2 is None or v is None:
        raise Und("columns of %s" % sh(t))
    if v != (r[1], c.method):
        raise Bad("the values are those of column %r" % (v[1],))
    if (a[1], b2[1]) == (c.f1, c.f2):
        return "direct"
    if (a[1], b2[1]) == (c.f2, c.f1):
        return "mirrored"
    raise Bad("rows labelled with %r and %r" % (a[1], b2[1]))


def diag_part(c, t):
    kw = dict(t.a[2])
    data = kw.get("data") or kw.get("records") or (t.a[1][0] if t.a[1] else None)
    if data is None:
        raise Und("diagonal %s" % sh(t))
    d = strip_conv(data)
    bodies = []
    if d.op == "map":
        bodies = [d.a[1]]
    elif d.op == "list" and d.a and all(x.op == "seg" and x.a[0] == "map" for x in d.a):
        bodies = [b for x in d.a for b in x.a[2]]
    elif d.op == "dict":
        # column-wise: the feature names twice and their importances
        r = {cval(k): v for k, v in d.a if isinstance(k, T) and is_const(k)}
        if not {c.f1, c.f2, c.method} <= set(r):
            raise Und("diagonal %s" % sh(t))
        f, g, v = whose(r[c.f1]), whose(r[c.f2]), whose(r[c.method])
        if None in (f, g, v):
            raise Und("diagonal %s" % sh(t))
        if f == g == ("feature_importance", "Feature") and v == ("feature_importance", "Importance"):
            return "diag"
        raise Bad("the diagonal holds %s of %s/%s" % (v, f, g))
    if not bodies:
        raise Und("diagonal %s" % sh(t))
    for b in bodies:
        row = tb.as_row(b, kw.get("columns"))
        if row is None or not {c.f1, c.f2, c.method} <= set(row):
            if row is not None and all(isinstance(k, str) for k in row):
                raise Bad("the diagonal rows have columns %s" % sorted(map(str, row)))
            raise Und("diagonal row %s" % sh(b))
        if row[c.f1] is not row[c.f2]:
            raise Bad("the importances are placed at %s, %s" % (sh(row[c.f1]), sh(row[c.f2])))
        v = row[c.method]
        e = row[c.f1]
        if "feature_importance" not in roots(v):
            if q.opaques(v):
                raise Und("diagonal value %s" % sh(v))
            raise Bad("the diagonal does not show the feature importance: %s" % sh(v))
        w = whose(e)
        cols = {cval(x.a[1]) for x in walk(v) if x.op == "idx" and is_const(x.a[1]) and root_of(strip_frame(x.a[0])) and root_of(strip_frame(x.a[0]))[1] == "feature_importance"}
        if "Importance" not in cols and cols:
            raise Bad("the diagonal shows column %s" % sorted(map(str, cols)))
        if not any(x is e for x in walk(v)):
            raise Bad("the diagonal value does not depend on the feature")
    return "diag"


def strip_frame(t):
    return tb.peel(t)[1]


def pivot_of(c, t):
    """(values, index, columns, frame) of the pivot call"""
    if t.op != "m" and not (t.op == "call" and t.a[0] in ("pandas.pivot_table", "pandas.pivot")):
        raise Und("matrix %s" % sh(t))
    if t.op == "call":
        name, args, kw = t.a[0].rsplit(".", 1)[-1], t.a[1], dict(t.a[2])
        fr = kw.get("data") or args[0]
    else:
        name, args, kw = t.a[0], t.a[2], dict(t.a[3])
        fr = t.a[1]
        if name not in ("pivot_table", "pivot"):
            raise Und("matrix %s" % sh(t))
    agg = kw.get("aggfunc")
    if agg is not None and is_const(agg) and cval(agg) in ("count", "nunique", "size", "std", "var"):
        raise Bad("the cells hold the %s of the values" % cval(agg))
    for n in ("fill_value",):
        if n in kw and kw[n] is not NONE:
            raise Und("fill_value")

    def one(n):
        x = kw.get(n)
        if x is None:
            raise Und("pivot without %s" % n)
        y = tb.seq_items(x)
        if y and len(y) == 1:
            x = y[0]
        if not is_const(x):
            raise Und("pivot %s %s" % (n, sh(x)))
        return cval(x)
    return one("values"), one("index"), one("columns"), fr


def heatmap_rule(c, evs):
    hs = [v for v in evs if v.name == "seaborn.heatmap"]
    if not hs:
        c.chk.und("data", c.subj, "no heatmap call")
        return
    shown = set()
    ok = True
    for v in hs:
        w = v.where()
        try:
            m = v.arg(None, "mask")
            kind = mask_kind(m) if m is not None and m is not NONE else "all"
        except Und as u:
            c.chk.und("data", c.subj, str(u), w)
            ok = False
            continue
        except Bad as u:
            c.chk.bad("data", c.subj, str(u), w)
            ok = False
            continue
        shown.add(kind)
        d = v.arg(0, "data")
        decide(c, "data", kind, lambda: matrix_rule(c, d), w)
        decide(c, "order", kind, lambda: order_rule(c, d), w)
        cm = v.arg(None, "cmap")
        if cm is not None and kind in ("diag", "off"):
            asc = c.imp_asc if kind == "diag" else c.asc
            if is_const(cm) and isinstance(cval(cm), str):
                c.chk.ob("colours", "%s: %s" % (c.subj, kind), cval(cm).endswith("_r") == asc,
                         "colour map %r although %s values are the strong ones" % (cval(cm), "small" if asc else "large"), w)
            else:
                c.chk.und("colours", "%s: %s" % (c.subj, kind), "colour map %s" % sh(cm), w)
        if kind == "off":
            lab = v.kw.get("cbar_kws")
            if lab is not None and lab.op == "dict":
                l = [y for x, y in lab.a if isinstance(x, T) and is_const(x) and cval(x) == "label"]
                if l and is_const(l[0]):
                    c.chk.ob("labels", "%s: colour bar" % c.subj, cval(l[0]) == c.method, "the colour bar of the interactions is labelled %r" % (cval(l[0]),), w)
    if ok:
        c.chk.ob("data", "%s: both parts" % c.subj, {"diag", "off"} <= shown or "all" in shown,
                 "the heatmap never shows the %s" % ("interactions" if "off" not in shown else "importances"), hs[0].where())


def matrix_rule(c, d):
    rows, cols, core = shape_steps(d)
    val, i, j, fr = pivot_of(c, core)
    if val != c.method:
        raise Bad("the cells hold column %r" % (val,))
    if {i, j} != {c.f1, c.f2}:
        raise Bad("the axes are %r and %r" % (i, j))
    kinds = [classify(c, p) for p in parts(fr)]
    if "direct" not in kinds and "mirrored" not in kinds:
        raise Bad("the pair table is not shown")
    if c.directed and "mirrored" in kinds and "direct" in kinds:
        raise Bad("a directed measure is drawn symmetrically")
    if c.directed and "direct" not in kinds:
        raise Bad("the features of a pair are interchanged")
    if not c.directed and not {"direct", "mirrored"} <= set(kinds):
        raise Bad("each pair fills only one of its two cells")
    if "diag" not in kinds:
        raise Bad("the feature importances are missing")
    if kinds[-1] != "diag" and c.directed:
        pass


def order_rule(c, d):
    rows, cols, core = shape_steps(d)
    if not rows and not cols:
        raise Bad("the features are not ordered")
    if not rows or not cols:
        raise Bad("rows and columns are in different orders")
    if len(rows) != 1 or len(cols) != 1:
        raise Und("order %s / %s" % (len(rows), len(cols)))
    a, b = label_core(rows[0]), label_core(cols[0])
    if a is not b:
        if q.opaques(a) or q.opaques(b):
            raise Und("order")
        da, db = order_dir(rows[0]), order_dir(cols[0])
        if da != db:
            raise Bad("rows and columns are in opposite orders")
        raise Und("rows %s, columns %s" % (sh(a), sh(b)))
    if order_dir(rows[0]) != c.asc:
        raise Bad("features are ordered %s although %s values are the strong ones" % ("ascending" if not c.asc else "descending", "small" if c.asc else "large"))


def label_core(t):
    t = strip_conv(t)
    while t.op == "m" and t.a[0] in ("tolist", "to_list", "copy") or t.op == "attr" and t.a[1] == "values":
        t = strip_conv(t.a[1] if t.op == "m" else t.a[0])
    return t


# ---------------------------------------------------------------- graph
def col_history(t, col):
    """[(mask or None, value)] applied to column col of a frame, first applied first, and the root frame"""
    out = []
    c = const(col)
    while True:
        if t.op == "copy":
            t = t.a[0]
        elif t.op == "store":
            if t.a[1] is c:
                out.append((None, t.a[2], t.a[0]))
            elif not is_const(t.a[1]):
                raise Und("assignment %s" % sh(t.a[1]))
            t = t.a[0]
        elif t.op == "storeloc":
            if t.a[2] is c:
                out.append((t.a[1], t.a[3], t.a[0]))
            elif not is_const(t.a[2]):
                raise Und("assignment %s" % sh(t.a[2]))
            t = t.a[0]
        elif t.op == "m" and t.a[0] in ("copy", "reset_index", "sort_values", "astype"):
            t = t.a[1]
        elif t.op == "m" and t.a[0] == "assign":
            kw = dict(t.a[3])
            if col in kw:
                out.append((None, kw[col], t.a[1]))
            t = t.a[1]
        else:
            return out[::-1], t


def mono(t, prev):
    """direction in which t changes with prev (a set of equal terms): 1, -1, 0 (does not depend)"""
    t = strip_conv(t)
    if any(t is p for p in prev):
        return 1
    if t.op == "rows":
        return mono(t.a[0], prev)
    if t.op == "red" or is_const(t) or t.op == "param":
        return 0
    if t.op == "m" and t.a[0] in ("min", "max", "sum", "mean"):
        return 0
    if t.op == "neg":
        return -mono(t.a[0], prev)
    if t.op == "bin":
        op, a, b = t.a[0], t.a[1], t.a[2]
        x, y = mono(a, prev), mono(b, prev)
        if op == "+":
            if x and y and x != y:
                raise Und("width %s" % sh(t))
            return x or y
        if op == "-":
            if x and y and x == y:
                raise Und("width %s" % sh(t))
            return x or -y
        if op == "*":
            if x and y:
                raise Und("width %s" % sh(t))
            k = b if x else a
            if is_const(k) and isinstance(cval(k), (int, float)) and cval(k) < 0:
                return -(x or y)
            return x or y
        if op == "/":
            if y:
                raise Und("width %s" % sh(t))
            return x
    if t.op == "idx" and is_const(t.a[1]):
        # a column of a frame that still holds prev
        return 0 if not any(p in set(walk(t)) for p in prev) else und_w(t)
    return und_w(t)


def und_w(t):
    raise Und("width %s" % sh(t))


def graph_rule(c, evs):
    es = [v for v in evs if v.name.startswith("networkx.from_")]
    if len(es) != 1 or es[0].name != "networkx.from_pandas_edgelist":
        c.chk.und("data", c.subj, "graph construction not recognised")
        return
    v = es[0]
    w = v.where()
    df = v.arg(0, "df")

    def nm(i, n):
        t = v.arg(i, n)
        if t is None or not is_const(t):
            raise Und("%s %s" % (n, sh(t)))
        return cval(t)

    def cols():
        a, b, m = nm(1, "source"), nm(2, "target"), nm(3, "edge_attr")
        if m != c.method:
            raise Bad("edges carry column %r" % (m,))
        if {a, b} != {c.f1, c.f2}:
            raise Bad("edges join %r and %r" % (a, b))
        if c.directed and (a, b) != (c.f1, c.f2):
            raise Bad("edges point from %r to %r" % (a, b))
        for n in (c.f1, c.f2):
            x = whose(column(df, n))
            if x is None:
                raise Und("column %s" % n)
            if x != ("ovo", n) and x != ("_compare_ovo", n):
                raise Bad("column %r holds %r" % (n, x))
    decide(c, "data", "edges", cols, w)

    def directed():
        t = v.arg(4, "create_using")
        d = None
        if t is None or t is NONE:
            d = False
        else:
            s = show(t, 3)
            if "MultiDiGraph" in s or "DiGraph" in s:
                d = True
            elif "Graph" in s and "Di" not in s:
                d = False
        if d is None or t is not None and t.op == "phi":
            raise Und("graph kind %s" % sh(t))
        if d != c.directed:
            raise Bad("a %s measure is drawn as a %s graph" % ("directed" if c.directed else "undirected", "directed" if d else "undirected"))
    decide(c, "directedness", "graph", directed, w)

    def weak():
        hist, root = own_history(c, df)
        zeros = [(m, val, fr) for m, val, fr in hist if m is not None and is_const(val) and cval(val) == 0]
        if not zeros:
            raise Und("no erased edges found")
        for m, val, fr in zeros:
            small = erased_side(c, m, fr)
            if small == c.asc:
                raise Bad("the %s values are erased although they are the strong ones" % ("small" if small else "large"))
    decide(c, "direction", "weak interactions", weak, w)

    def widths():
        hist, root = own_history(c, df)
        s = 1
        for m, val, fr in hist:
            if is_const(val):
                continue
            d = mono(val, {mk_idx(fr, const(c.method)), column_or(fr, c.method)})
            if d == 0:
                raise Bad("edge widths do not depend on the interaction: %s" % sh(val))
            s *= d
        if (s < 0) != c.asc:
            raise Bad("edge widths %s with the value although %s values are the strong ones" % ("shrink" if s < 0 else "grow", "small" if c.asc else "large"))
    decide(c, "direction", "edge widths", widths, w)
    draws = [x for x in evs if x.name in ("networkx.draw", "networkx.draw_networkx", "networkx.draw_networkx_edges", "networkx.draw_networkx_nodes", "networkx.draw_circular")]
    for x in draws:
        wd = x.kw.get("width")
        if wd is not None:
            def width_arg():
                if q.opaques(wd):
                    raise Und("width %s" % sh(wd))
                if not any(y is const(c.method) for y in walk(wd)):
                    raise Bad("edge widths are %s" % sh(wd))
            decide(c, "data", "drawn widths", width_arg, x.where())
        nl, ns = x.kw.get("nodelist"), x.kw.get("node_size")
        if ns is not None and x.name != "networkx.draw_networkx_edges":
            def nodes():
                if nl is None or nl is NONE:
                    if "feature_importance" in roots(ns):
                        raise Bad("node sizes are given for the importance table's order, but the nodes are not")
                    return
                y = whose(nl)
                if y is None:
                    nz = strip_conv(nl)
                    inner = nz.a[1][0] if nz.op == "call" and nz.a[0] in ("sorted", "reversed") and nz.a[1] else None
                    if inner is not None and whose(inner) and whose(ns_src(ns)):
                        raise Bad("node names and node sizes are in different orders")
                    raise Und("nodes %s" % sh(nl))
                if y != ("feature_importance", "Feature"):
                    raise Bad("nodes are %s" % (y,))
                src = ns_src(ns)
                y2 = whose(src)
                if y2 is None:
                    raise Und("node sizes %s" % sh(src))
                if y2 != ("feature_importance", "Importance"):
                    raise Bad("node sizes come from %s" % (y2,))
                if tb.peel(strip_conv(nl).a[0])[1] is not tb.peel(strip_conv(src).a[0])[1]:
                    raise Und("nodes and sizes of different tables")
                f1, f2 = strip_conv(nl).a[0], strip_conv(src).a[0]
                if f1 is not f2:
                    s1, s2 = [st for st in tb.peel(f1)[0] if st.kind in ("sort", "flip")], [st for st in tb.peel(f2)[0] if st.kind in ("sort", "flip")]
                    if [st.term.n for st in s1] != [st.term.n for st in s2]:
                        raise Bad("node names and node sizes are in different orders")
            decide(c, "data", "nodes", nodes, x.where())
    if not draws:
        c.chk.und("data", "%s: nodes" % c.subj, "no drawing call")
    labs = [x for x in evs if x.name == "networkx.draw_networkx_edge_labels"]
    if not c.asc:
        c.chk.ob("labels", "%s: edge labels" % c.subj, bool(labs), "the strongest interactions are not labelled", w)
    for x in labs:
        decide(c, "labels", "edge labels", lambda: edge_labels(c, x.arg(2, "edge_labels"), evs), x.where())


def ns_src(ns):
    """the column node sizes are computed from, element by element"""
    z = strip_conv(ns)
    if z.op == "map":
        return z.a[0]
    if z.op == "list" and len(z.a) == 1 and z.a[0].op == "seg" and z.a[0].a[0] == "map":
        return z.a[0].a[1]
    cols = {x for x in walk(z) if x.op == "idx" and whose(x)}
    if z.op == "bin" and len(cols) == 1:
        return cols.pop()
    raise Und("node sizes %s" % sh(ns))


def column_or(fr, name):
    try:
        return column(fr, name)
    except (Und, Bad):
        return mk_idx(fr, const(name))


def own_history(c, df):
    hist, root = col_history(df, c.method)
    steps, b = tb.peel(root)
    r = root_of(b)
    if r is None:
        raise Und("edge table %s" % sh(root))
    if r not in (("self", "ovo"), ("self", "_compare_ovo")):
        raise Bad("edges come from %s" % ".".join(r))
    for st in steps:
        if st.kind in ("fewer", "filter") and st.name not in ("drop_duplicates", "dropna"):
            raise Und("only some pairs (%s)" % st.name)
    return hist, root


def erased_side(c, m, fr):
    """True when small values satisfy the mask"""
    m = strip_conv(m)
    if m.op == "not":
        return not erased_side(c, m.a[0], fr)
    if m.op == "un" and m.a[0] == "~":
        return not erased_side(c, m.a[1], fr)
    if m.op == "cmp" and m.a[0] in ("<", "<=", ">", ">="):
        op, a, b = m.a
        x = mk_idx(fr, const(c.method))
        if a is x and b is not x:
            small = op in ("<", "<=")
        elif b is x and a is not x:
            small = op in (">", ">=")
        else:
            raise Und("mask %s" % sh(m))
        return small
    raise Und("mask %s" % sh(m))


def edge_labels(c, t, evs):
    if t is None:
        raise Bad("no labels given")
    t = strip_conv(t)
    if t.op != "dict" or len(t.a) != 1:
        raise Und("labels %s" % sh(t))
    k, v = t.a[0]
    if not (isinstance(k, T) and k.op == "seg" and k.a[0] == "map"):
        raise Und("labels %s" % sh(t))
    src = k.a[1]
    kv = v.a[0] if isinstance(v, T) and v.a else None
    if kv is None or kv.op != "kv" or len(v.a) != 1:
        raise Und("label entries")
    kk, vv = kv.a

    def rowcol(x):
        x = strip_conv(x)
        while x.op in ("round",) or x.op == "call" and x.a[0] in ("round", "numpy.round", "float") or x.op == "m" and x.a[0] == "round":
            x = strip_conv(x.a[0] if x.op == "round" else (x.a[1][0] if x.op == "call" else x.a[1]))
        if x.op == "idx" and is_const(x.a[1]) and x.a[0].op == "row":
            return x.a[0].a[0], cval(x.a[1])
        raise Und("label entry %s" % sh(x))
    if kk.op != "tuple" or len(kk.a) != 2:
        raise Und("label key %s" % sh(kk))
    fr, a = rowcol(kk.a[0])
    fr2, b = rowcol(kk.a[1])
    fr3, m = rowcol(vv)
    if not (fr is fr2 and fr is fr3):
        raise Und("labels of different tables")
    if {a, b} != {c.f1, c.f2} or c.directed and (a, b) != (c.f1, c.f2):
        raise Bad("labels are placed on %r–%r" % (a, b))
    if m != c.method:
        raise Bad("labels show column %r" % (m,))
    steps, base = tb.peel(fr)
    r = root_of(base)
    if r is None:
        raise Und("labelled table %s" % sh(base))
    if r not in (("self", "ovo"), ("self", "_compare_ovo")):
        raise Bad("labels come from %s" % ".".join(r))
    taken = None
    for st in steps:
        if st.kind == "fewer" and taken is None:
            taken = st
        elif st.kind == "sort" and taken is not None:
            by = st.kw.get("by")
            if by is None or not is_const(by):
                raise Und("labels sorted by %s" % sh(by))
            asc = truth_of(st.kw.get("ascending", TRUE))
            if cval(by) != c.method:
                raise Bad("the labelled interactions are chosen by %r" % (cval(by),))
            if asc is None:
                raise Und("ascending")
            first = taken.name in ("head", "slice", "iloc")
            if not first and taken.name != "tail":
                raise Und("labelled rows %s" % taken.name)
            if (asc == c.asc) != first:
                raise Bad("the weakest interactions are labelled")
            break
    hist, _ = col_history(tb_root(fr), c.method)
    for mm, val, frx in hist:
        if not is_const(val):
            raise Bad("labels show rescaled values: %s" % sh(val))


def tb_root(t):
    while True:
        if t.op == "m" and t.a[0] in ("head", "tail", "sort_values", "reset_index", "copy", "nlargest"):
            t = t.a[1]
        elif t.op in ("rows", "iloc", "copy", "idx"):
            t = t.a[0]
        else:
            return t


# ---------------------------------------------------------------- bars
def top_rows(t):
    """strip the selection of the first rows; (frame, flipped)"""
    flip = False
    while True:
        if t.op == "copy":
            t = t.a[0]
        elif t.op == "m" and t.a[0] in ("head", "reset_index", "copy"):
            t = t.a[1]
        elif t.op == "m" and t.a[0] in ("tail", "nsmallest", "sample"):
            raise Bad("not the first rows of the table are shown (%s)" % t.a[0])
        elif t.op in ("iloc", "idx", "rows") and t.a[1].op == "slice":
            k = t.a[1]
            if tb.flip_slice(k):
                flip = not flip
            elif k.a[0] is not NONE and not (is_const(k.a[0]) and cval(k.a[0]) == 0):
                raise Bad("the first rows of the table are not shown")
            elif len(k.a) > 2 and k.a[2] is not NONE and not (is_const(k.a[2]) and cval(k.a[2]) == 1):
                raise Bad("not all of the first rows are shown")
            t = t.a[0]
        else:
            return t, flip


def bar_rule(table):
    def rule(c, evs):
        bs = [v for v in evs if v.name in (".barh", ".bar") or v.name == ".plot" and "kind" in v.kw]
        bs = [v for v in bs if isinstance(v.recv, T) and (v.recv.op == "attr" and v.recv.a[1] == "plot" or v.name == ".plot")]
        if len(bs) != 1:
            c.chk.und("data", c.subj, "bar chart not recognised")
            return
        v = bs[0]
        w = v.where()
        fr = v.recv.a[0] if v.recv.op == "attr" and v.recv.a[1] == "plot" else v.recv
        horizontal = v.name == ".barh" or is_const(v.kw.get("kind", NONE)) and cval(v.kw["kind"]) == "barh"

        def data():
            f, _ = top_rows(fr)
            x, y = v.arg(0, "x"), v.arg(1, "y")
            if x is None or y is None or not is_const(x) or not is_const(y):
                raise Und("x %s, y %s" % (sh(x), sh(y)))
            steps, b = tb.peel(f)
            r = root_of(b)
            if r is None:
                raise Und("table %s" % sh(b))
            if r not in (("self", table), ("self", "_compare_" + table)):
                raise Bad("the bars show %s" % ".".join(r))
            for st in steps:
                if st.kind in ("fewer", "filter") and st.name not in ("drop_duplicates", "dropna"):
                    raise Bad("only some of the rows are considered (%s)" % st.name)
                if st.kind == "sort":
                    by, asc = st.kw.get("by"), truth_of(st.kw.get("ascending", TRUE))
                    if by is not None and is_const(by) and cval(by) == c.method and asc is not None:
                        if asc != c.asc:
                            raise Bad("the weakest interactions are shown first")
                    else:
                        raise Und("sorted by %s" % sh(by))
            if whose(column(f, cval(y))) is None:
                raise Und("bar values %s" % sh(column(f, cval(y))))
            if whose(column(f, cval(y)))[1] != c.method:
                raise Bad("the bars show column %r" % (cval(y),))
            lab = column(f, cval(x))
            names = (c.f1, c.f2) if table == "ovo" else ("Feature",)
            used = [whose(z)[1] for z in concat_parts(lab) if whose(z)]
            if any(not is_const(z) and whose(z) is None for z in concat_parts(lab)):
                raise Und("bar labels %s" % sh(lab))
            if used != list(names) and (c.directed or sorted(used) != sorted(names)):
                raise Bad("the bars are labelled with %s" % (used,))
        decide(c, "data", "bars", data, w)

        def top():
            _, flip = top_rows(fr)
            n = sum(1 for x in evs if x.name == ".invert_yaxis" and x.axes is v.axes)
            if any(x.name == ".invert_yaxis" and x.e.loops for x in evs):
                raise Und("axis inverted in a loop")
            if not horizontal:
                return
            if (n % 2 == 1) == flip:
                raise Bad("the strongest interaction is drawn at the bottom")
        decide(c, "direction", "bars", top, w)
    return rule


def concat_parts(t):
    t = strip_conv(t)
    if t.op == "bin" and t.a[0] == "+":
        return concat_parts(t.a[1]) + concat_parts(t.a[2])
    if t.op == "m" and t.a[0] == "astype":
        return concat_parts(t.a[1])
    return [t]


# ---------------------------------------------------------------- conditional bar chart and lollipop
def conditional_rule(c, evs):
    bs = [v for v in evs if v.name == "seaborn.barplot"]
    if len(bs) != 1:
        c.chk.und("data", c.subj, "bar chart not recognised")
        return
    v = bs[0]
    d = v.arg(0, "data")

    def split():
        """(pair frame, importance frame, on)"""
        t = d
        while t.op == "m" and t.a[0] in ("rename", "reset_index", "copy") or t.op == "copy":
            t = t.a[1] if t.op == "m" else t.a[0]
        if t.op != "m" or t.a[0] not in ("join", "merge"):
            raise Und("data %s" % sh(t))
        kw = dict(t.a[3])
        other = kw.get("other") or kw.get("right")
        return t, t.a[1], other, kw

    def data():
        t, left, other, kw = split()
        f, _ = top_rows(left)
        r = root_of(tb.peel(f)[1])
        if r is None:
            raise Und("table %s" % sh(f))
        if r != ("self", "ovo"):
            raise Bad("the bars show %s" % ".".join(r))
        y = v.kw.get("y")
        if y is None or not is_const(y):
            raise Und("y %s" % sh(y))
        if cval(y) != c.method:
            raise Bad("the bars show column %r" % (cval(y),))
        x = v.kw.get("x")
        if x is None or not is_const(x):
            raise Und("x %s" % sh(x))
        lab = column(f, cval(x))
        used = [whose(z)[1] for z in concat_parts(lab) if whose(z)]
        if any(not is_const(z) and whose(z) is None for z in concat_parts(lab)):
            raise Und("labels %s" % sh(lab))
        if used != [c.f1, c.f2]:
            raise Bad("the bars are labelled with %s" % (used,))
    decide(c, "data", "bars", data, v.where())

    def imp():
        t, left, other, kw = split()
        if other is None or roots(other) != {"feature_importance"}:
            raise Bad("the reference importances come from %s" % sorted(roots(other) if other is not None else ()))
        on = kw.get("on") or kw.get("left_on")
        if on is None or not is_const(on):
            raise Und("join on %s" % sh(on))
        if cval(on) != c.f2:
            raise Bad("a bar is compared with the importance of its %r" % (cval(on),))
        o = other
        if t.a[0] == "join":
            k = dict(o.a[3]).get("keys") if o.op == "m" and o.a[0] == "set_index" else None
            if k is None or not is_const(k):
                raise Und("join with %s" % sh(o))
            if cval(k) != "Feature":
                raise Bad("joined on %r" % (cval(k),))
    decide(c, "data", "reference importance", imp, v.where())
    for x in evs:
        b = x.name.rsplit(".", 1)[-1]
        if b == "vlines":
            a = (x.arg(0, "x"), x.arg(1, "ymin"), x.arg(2, "ymax"))
            want = (("Interaction",), (c.method, "unconditional_importance", "Importance"), (c.method, "unconditional_importance", "Importance"))
        elif b == "scatter":
            a = (x.arg(0, "x"), x.arg(1, "y"))
            want = (("Interaction",), ("unconditional_importance", "Importance"))
        else:
            continue

        def marks(a=a, want=want):
            got = []
            for t in a:
                if t is None:
                    raise Und("missing argument")
                t = strip_conv(t)
                if t.op != "idx" or not is_const(t.a[1]):
                    raise Und("%s" % sh(t))
                got.append((t.a[0], cval(t.a[1])))
            if len({g[0] for g in got}) != 1:
                raise Bad("the marks combine different tables")
            if got[0][0] is not d:
                raise Und("another table")
            for (f, n), w in zip(got[1:], want[1:]):
                if n not in w:
                    raise Bad("the marks show column %r" % (n,))
            if len(got) == 3 and got[1][1] == got[2][1]:
                raise Bad("both ends of the line show %r" % (got[1][1],))
        decide(c, "data", b, marks, x.where())


def lollipop_rule(c, evs):
    n = 0
    for x in evs:
        b = x.name.rsplit(".", 1)[-1]
        if b not in ("plot", "scatter", "annotate", "xticks", "stem", "vlines"):
            continue
        if b in ("plot", "scatter", "stem"):
            a, y = x.arg(0, "x"), x.arg(1, "y")
            n += 1

            def xy(a=a, y=y):
                if a is None or y is None:
                    raise Und("arguments")
                fa, ca, k = tree_plus(a)
                fy, cy, k2 = tree_plus(y)
                if fa is None or fy is None:
                    raise Und("%s, %s" % (sh(a), sh(y)))
                for f in (fa, fy):
                    r = root_of(tb.peel(f)[1])
                    if r is None:
                        raise Und("table %s" % sh(f))
                    if r != ("self", "full_result"):
                        raise Bad("the points come from %s" % ".".join(r))
                if ca != "tree" or cy != "gain":
                    raise Bad("the points show %r against %r" % (cy, ca))
                if k2 != 0:
                    raise Bad("the gains are shifted by %s" % k2)
                if fa is not fy:
                    raise Bad("tree numbers and gains come from different rows")
            decide(c, "data", b, xy, x.where())
        elif b == "annotate":
            txt, pos = x.arg(0, "text"), x.arg(1, "xy")

            def lab(txt=txt, pos=pos):
                if txt is None or pos is None or pos.op != "tuple" or len(pos.a) != 2:
                    raise Und("label %s" % sh(pos))
                rx, cx, _ = tree_plus(pos.a[0])
                ry, cy, _ = tree_plus(pos.a[1])
                t = strip_conv(txt)
                if rx is None or ry is None or t.op != "idx" or not is_const(t.a[1]):
                    raise Und("label %s" % sh(txt))
                if not (rx is ry and t.a[0] is rx):
                    raise Bad("the label and its position belong to different rows")
                if (cx, cy) != ("tree", "gain"):
                    raise Bad("labels are placed at %r, %r" % (cx, cy))
                if cval(t.a[1]) not in ("pair_name", "split_feature"):
                    raise Bad("points are labelled with %r" % (cval(t.a[1]),))
            decide(c, "labels", "annotation", lab, x.where())
    if not n:
        c.chk.und("data", c.subj, "no points drawn")


def tree_plus(t):
    """(frame or row, column, added constant)"""
    t = strip_conv(t)
    k = 0
    if t.op == "bin" and t.a[0] in ("+", "-"):
        for x, y in ((t.a[1], t.a[2]), (t.a[2], t.a[1])):
            if is_const(y) and isinstance(cval(y), (int, float)):
                f, cc, k0 = tree_plus(x)
                return f, cc, k0 + (cval(y) if t.a[0] == "+" else -cval(y))
    if t.op == "idx" and is_const(t.a[1]) and isinstance(cval(t.a[1]), str):
        return t.a[0], cval(t.a[1]), 0
    return None, None, 0


RULES = {"heatmap": heatmap_rule, "graph": graph_rule, "bar_chart": bar_rule("ovo"), "bar_chart_ova": bar_rule("ova"),
         "bar_chart_conditional": conditional_rule, "lollipop": lollipop_rule}


# ---------------------------------------------------------------- summary panels
MAIN = {"heatmap": ("seaborn.heatmap",), "graph": ("networkx.draw", "networkx.draw_networkx"), "bar_chart": (".barh", ".bar", ".plot"), "bar_chart_ova": (".barh", ".bar", ".plot")}


def sigs(evs, axes):
    """normalised drawing calls on `axes`: {signature: event}"""
    out = {}
    for v in evs:
        if v.axes is not axes or v.name in (".add_subplot", ".add_axes", "matplotlib.pyplot.subplot"):
            continue
        b = v.name.rsplit(".", 1)[-1]
        if b in ("title", "set_title"):
            t = v.arg(0, "label")
            out.setdefault(("title", t), []).append(v)
            continue
        kw = {k: x for k, x in v.kw.items() if k not in ("ax",)}
        if "title" in kw and v.name.startswith("."):
            out.setdefault(("title", kw.pop("title")), []).append(v)
        args = tuple(x for x in v.args)
        recv = None
        if isinstance(v.recv, T) and not is_axes(strip_conv(v.recv)):
            recv = v.recv
        er = lambda t: q.erase_ids(subst(t, {axes: AX})) if isinstance(t, T) else t
        name = {"matplotlib.pyplot." + b: b, "." + b: b}.get(v.name, v.name)
        g = TRUE
        for x in v.e.guards:
            g = mk_and(g, x)
        key = (name, tuple(er(a) for a in args), tuple(sorted((k, er(x)) for k, x in kw.items())), er(recv) if recv is not None else None, er(g), len(v.e.loops))
        out.setdefault(key, []).append(v)
    return out


def main_axes(evs, vt, c_table=None):
    out = []
    for v in evs:
        if v.name in MAIN[vt] and v.axes is not None and v.axes not in out:
            if vt.startswith("bar_chart"):
                r = roots(v.recv) if isinstance(v.recv, T) else set()
                if (("ova" in r) != (vt == "bar_chart_ova")):
                    continue
            out.append(v.axes)
    return out


def panels_rule(chk, items, ova=True):
    summ = items["summary"]
    p = q.param("title", "str")
    ev_s = events(summ)
    for vt in PANELS:
        if vt not in items or vt == "bar_chart_ova" and not ova:
            continue
        sub = "%s: %s panel" % (summ.name, vt)
        ev_a = events(items[vt], {p: const("default")} if p is not None else None)
        a = main_axes(ev_a, vt)
        b = main_axes(ev_s, vt)
        if len(a) != 1:
            chk.und("panels", sub, "stand-alone plot has %d axes" % len(a))
            continue
        if len(b) == 0:
            known = all(v.axes is not None for v in ev_s if v.name in MAIN[vt])
            if known:
                chk.ob("panels", sub, False, "the summary has no such panel", ev_s[0].where() if ev_s else "")
            else:
                chk.und("panels", sub, "axes of the panel not resolved")
            continue
        if len(b) > 1:
            chk.und("panels", sub, "summary draws %d such panels" % len(b))
            continue
        sa, sb = sigs(ev_a, a[0]), sigs(ev_s, b[0])
        # directions of the graph: calls without axes (graph construction)
        only_a = [k for k in sa if len(sa[k]) != len(sb.get(k, ())) and not (k[0] == "title" and k in sb)]
        only_b = [k for k in sb if len(sb[k]) != len(sa.get(k, ())) and not (k[0] == "title" and k in sa)]
        if not only_a and not only_b:
            chk.ob("panels", sub, True, "", None)
            continue
        bad = only_b or only_a
        v = (sb if only_b else sa)[bad[0]][0]
        ops = [x for k in only_a + only_b for y in k for z in (y if isinstance(y, tuple) else (y,)) for w in (z if isinstance(z, tuple) else (z,))
               if isinstance(w, T) for x in q.opaques(w)]
        msg = "differs from the stand-alone plot: %s" % diff(sorted(only_a, key=str0), sorted(only_b, key=str0))
        if ops:
            chk.und("panels", sub, msg, v.where())
        else:
            chk.ob("panels", sub, False, msg, v.where())


def str0(k):
    return str(k[0])


def diff(a, b):
    for x in a:
        for y in b:
            if x[0] == y[0] and x[0] != "title" and len(x) == len(y) and len(x) > 2:
                dx, dy = dict(x[2]), dict(y[2])
                ks = [k for k in sorted(set(dx) | set(dy)) if dx.get(k) is not dy.get(k)]
                if ks:
                    return "%s is called with %s, alone with %s" % (x[0], ", ".join("%s=%s" % (k, sh(dy.get(k))) for k in ks[:3]), ", ".join("%s=%s" % (k, sh(dx.get(k))) for k in ks[:3]))
                return "%s draws other data" % x[0]
    if b:
        return "%s only in the panel" % (b[0][0] if b[0][0] != "title" else "title %s" % sh(b[0][1]))
    return "%s missing in the panel" % (a[0][0] if a[0][0] != "title" else "title %s" % sh(a[0][1]))
