"""Structure of result tables: rows they are built from and the steps applied afterwards."""
from . import query as q
from .terms import (children, T, mk, const, NONE, TRUE, FALSE, is_const, cval, walk, show, strip_conv, assume, subst, mk_and, mk_not, rebuild)

NEUTRAL = {"copy", "fillna", "rename", "astype", "round", "infer_objects", "convert_dtypes", "replace", "assign", "rename_axis", "set_axis", "add_prefix",
           "add_suffix", "abs", "where", "mask", "clip", "pipe_id", "reindex_cols", "applymap"}
ORDER = {"sort_values", "sort_index"}
FEWER = {"head", "tail", "nlargest", "nsmallest", "drop_duplicates", "dropna", "query", "sample", "drop", "filter", "truncate", "first", "last", "groupby"}


class Step:
    def __init__(self, kind, name, term, args=(), kw=None):
        self.kind, self.name, self.term, self.args, self.kw = kind, name, term, args, dict(kw or ())

    def __repr__(self):
        return "%s:%s" % (self.kind, self.name)


def arg(st, i, name):
    if name in st.kw:
        return st.kw[name]
    return st.args[i] if len(st.args) > i else None


def is_slice(k):
    return k.op == "slice"


def flip_slice(k):
    return k.op == "slice" and k.a[0] is NONE and k.a[1] is NONE and len(k.a) > 2 and is_const(k.a[2]) and cval(k.a[2]) == -1


def peel(t):
    """(steps outermost first, innermost term)"""
    out = []
    while True:
        if t.op == "copy":
            t = t.a[0]
        elif t.op == "m":
            name, recv, args, kw = t.a
            kwd = dict(kw)
            if name == "reset_index":
                out.append(Step("neutral", name, t, args, kw))
            elif name in NEUTRAL:
                out.append(Step("neutral", name, t, args, kw))
            elif name in ORDER:
                out.append(Step("sort", name, t, args, kw))
            elif name == "drop" and "columns" in kwd and "index" not in kwd and "labels" not in kwd:
                out.append(Step("neutral", name, t, args, kw))
            elif name in FEWER and name != "groupby":
                out.append(Step("fewer", name, t, args, kw))
            else:
                return out, t
            t = recv
        elif t.op == "rows":
            m = t.a[1]
            if is_slice(m):
                out.append(Step("fewer", "slice", t, (m,)))
            else:
                out.append(Step("filter", "rows", t, (m,)))
            t = t.a[0]
        elif t.op == "iloc":
            k = t.a[1]
            if flip_slice(k):
                out.append(Step("flip", "iloc", t, (k,)))
            elif k.op == "slice":
                out.append(Step("fewer", "iloc", t, (k,)))
            else:
                return out, t
            t = t.a[0]
        elif t.op == "idx" and is_slice(t.a[1]):
            out.append(Step("flip" if flip_slice(t.a[1]) else "fewer", "slice", t, (t.a[1],)))
            t = t.a[0]
        elif t.op == "cols":
            out.append(Step("neutral", "columns", t))
            t = t.a[0]
        elif t.op in ("store", "storeloc"):
            out.append(Step("store", "assign", t, t.a[1:]))
            t = t.a[0]
        else:
            return out, t


class Rows:
    """rows of a freshly built frame: sources (outer loop first), row condition, one row per iteration as {column: term}"""

    def __init__(self, srcs, cond, row, n=1):
        self.srcs, self.cond, self.row, self.n = srcs, cond, row, n


def records(t):
    """Rows of a freshly built frame, or None"""
    if t.op != "call" or not isinstance(t.a[0], str) or not t.a[0].startswith("pandas.DataFrame"):
        return None
    kw = dict(t.a[2])
    data = kw.get("data") or kw.get("records") or (t.a[1][0] if t.a[1] else None)
    cols = kw.get("columns")
    if data is None:
        return None
    return rowset(data, cols)


def record_cases(t):
    """[(conditions, frame term)]: a freshly built frame under every alternative of its data"""
    if t.op == "call" and isinstance(t.a[0], str) and t.a[0].startswith("pandas.DataFrame"):
        kw = dict(t.a[2])
        for k in ("data", "records"):
            d = kw.get(k)
            if d is not None and strip_conv(d).op == "phi":
                out = []
                for cs, leaf in q.phi_leaves(strip_conv(d), 20):
                    out.append((cs, mk("call", t.a[0], t.a[1], tuple(sorted(dict(kw, **{k: leaf}).items())))))
                return out
    return [((), t)]


def seq_items(t):
    """the elements of a list/tuple term without segments"""
    t = strip_conv(t)
    if t.op in ("list", "tuple") and all(x.op != "seg" for x in t.a):
        return list(t.a)
    return None


def rowset(data, cols=None):
    d = strip_conv(data)
    srcs = []
    cond = TRUE
    while True:
        if d.op == "map":
            srcs.append(d.a[0])
            cond = mk_and(cond, d.a[2]) if len(d.a) > 2 else cond
            bodies = (d.a[1],)
        elif d.op == "list" and len(d.a) == 1 and d.a[0].op == "seg" and d.a[0].a[0] == "map":
            seg = d.a[0]
            srcs.append(seg.a[1])
            c = seg.a[3] if len(seg.a) > 3 else TRUE
            cond = mk_and(cond, c if isinstance(c, T) else TRUE)
            bodies = seg.a[2] if isinstance(seg.a[2], tuple) else (seg.a[2],)
        else:
            return None
        while len(bodies) == 1 and bodies[0].op == "seg" and bodies[0].a[0] == "if":
            _, c, th, el = bodies[0].a
            th, el = (x if isinstance(x, tuple) else (x,) for x in (th, el))
            if th and el:
                if not (len(th) == len(el) == 1 and th[0].op == el[0].op == "list" and len(th[0].a) == len(el[0].a)):
                    return None
                bodies = (mk("list", *[x if x is y else mk("phi", c, x, y) for x, y in zip(th[0].a, el[0].a)]),)
            else:
                cond = mk_and(cond, c if th else mk_not(c))
                bodies = th or el
        if len(bodies) != 1:
            return Rows(srcs, cond, None, len(bodies)) if all(x.op in ("dict", "list", "tuple") for x in bodies) else None
        body = bodies[0]
        if body.op in ("dict", "list", "tuple") and not (body.op == "list" and body.a and body.a[0].op == "seg"):
            return Rows(srcs, cond, as_row(body, cols))
        d = mk("list", body) if body.op == "seg" else strip_conv(body)


def as_row(body, cols):
    if body.op == "dict":
        r = {}
        for k, v in body.a:
            if not isinstance(k, T) or not is_const(k):
                return None
            r[cval(k)] = v
        return r
    names = None
    if cols is not None:
        c = seq_items(cols)
        if c is not None and len(c) == len(body.a):
            names = [cval(x) if is_const(x) else x for x in c]
    if names is None:
        return None
    return dict(zip(names, body.a))


def rename_back(steps, name):
    """the name the final column `name` had before the steps (constant renames only)"""
    for st in steps:
        if st.name == "rename":
            m = st.kw.get("columns") or st.kw.get("mapper") or (st.args[0] if st.args else None)
            if m is not None and m.op == "dict":
                for k, v in m.a:
                    if isinstance(k, T) and isinstance(v, T) and is_const(v) and cval(v) == name:
                        name = cval(k) if is_const(k) else k
                        break
    return name


def strip_rows(t):
    """the frame a row selection / copy was taken from (its columns are the same)"""
    while True:
        if t.op == "copy":
            t = t.a[0]
        elif t.op in ("rows", "iloc"):
            t = t.a[0]
        elif t.op == "draw" and t.a[1] == "sample" and t.a[3]:
            t = t.a[3][0]
        elif t.op == "m" and t.a[0] in ("reset_index", "head", "tail", "sort_index", "sort_values", "astype"):
            t = t.a[1]
        else:
            return t


def only_pairs(t):
    """t is computed from the pairs of features alone"""
    found, stack, seen = False, [t], set()
    while stack:
        x = stack.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == "combinations":
            found = True
            continue
        if x.op in ("param", "new", "loopin", "opaque", "field", "call", "callv", "phi") and not (x.op == "call" and x.a[0] in ("sorted", "set", "list", "tuple", "itertools.chain.from_iterable", "numpy.unique", "dict.fromkeys")):
            return False
        stack.extend(children(x))
    return found


def feature_source(t, X, F):
    """does iterating t yield exactly the requested features?  True / False / None.
    X: the data parameter; F: the feature list parameter, None when no features were requested"""
    seen = 0
    while seen < 20:
        seen += 1
        t0 = t
        t = strip_conv(t)
        if t.op == "call" and t.a[0] in ("sorted", "list", "tuple", "reversed", "numpy.array", "numpy.asarray", "numpy.sort", "set", "dict.fromkeys") and t.a[1]:
            t = t.a[1][0]
        elif t.op == "m" and t.a[0] in ("tolist", "to_list", "copy", "to_numpy"):
            t = t.a[1]
        elif t.op in ("copy", "setof"):
            t = t.a[0]
        elif t.op == "attr" and t.a[1] == "values":
            t = t.a[0]
        if t is t0:
            break
    if F is not None:
        if t is F:
            return True
    else:
        if t.op == "attr" and t.a[1] == "columns" and strip_rows(t.a[0]) is X:
            return True
        if strip_rows(t) is X:            # iterating a frame yields its column names
            return True
    if t.op == "phi":
        r = [feature_source(x, X, F) for x in t.a[1:3]]
        return True if r == [True, True] else (False if False in r else None)
    # a different, resolved source
    if t is NONE:
        return False
    if only_pairs(t):                     # whatever is made of the pairs: a single feature is in no pair
        return False
    if t.op == "idx" and t.a[1].op == "slice":
        return False
    if t.op == "map" and (t.a[2] is not TRUE):
        return False
    if F is not None and t.op == "attr" and t.a[1] == "columns" and strip_rows(t.a[0]) is X:
        return False
    if t.op == "m" and t.a[0] in ("intersection", "difference", "union", "append", "drop"):
        return False
    if t.op == "without":
        return False
    return None


def nonneg(t, d=0):
    """syntactically non-negative"""
    if d > 60:
        return False
    o = t.op
    if o == "const":
        return isinstance(cval(t), (int, float)) and cval(t) >= 0
    if o == "abs":
        return True
    if o == "pow":
        return is_const(t.a[1]) and (cval(t.a[1]) in (2, 2.0, 4, 0.5) or nonneg(t.a[0], d + 1))
    if o == "red" and t.a[0] in ("mean", "sum", "max", "min", "median"):
        return nonneg(t.a[1], d + 1)
    if o in ("map",):
        return nonneg(t.a[1], d + 1)
    if o == "conv":
        return nonneg(t.a[1], d + 1)
    if o == "phi":
        return nonneg(t.a[1], d + 1) and nonneg(t.a[2], d + 1)
    if o == "bin":
        if t.a[0] in ("+", "*", "/"):
            return nonneg(t.a[1], d + 1) and nonneg(t.a[2], d + 1)
    if o == "call" and t.a[0] in ("numpy.std", "numpy.var", "statistics.stdev", "statistics.pstdev", "abs", "numpy.abs", "len"):
        return True
    if o == "along":
        return nonneg(t.a[2], d + 1) if isinstance(t.a[-1], T) else False
    return False


def value_of(t, mapping):
    """substitute parameters by constants and fold"""
    return subst(t, mapping)


def final_value(leaf, col):
    """value of column col in one row of the finished table: (term, problem or None, Rows)
    problem: a step whose effect on the value is not followed"""
    from .canon import mk_idx
    steps, base = peel(leaf)
    r = records(base)
    if r is None or r.row is None:
        return None, "rows not resolved: %s" % show(base, 3), r
    name = rename_back(steps, col)
    if name not in r.row:
        return None, "no column %s" % (col,), r
    val = r.row[name]
    for st in reversed(steps):
        if st.kind == "store":
            k = st.args[0]
            if st.term.op == "storeloc":
                if st.args[1] is not NONE and is_const(st.args[1]) and cval(st.args[1]) != name:
                    continue
                return val, "partial assignment to the column", r
            if not is_const(k):
                return val, "assignment to column %s" % show(k, 3), r
            if cval(k) != name:
                continue
            val = subst(st.args[1], {mk_idx(st.term.a[0], k): val})
        elif st.name == "rename":
            m = st.kw.get("columns")
            if m is not None and m.op == "dict":
                for a, b in m.a:
                    if isinstance(a, T) and is_const(a) and cval(a) == name and is_const(b):
                        name = cval(b)
                        break
        elif st.name in ("round",):
            val = mk("m", "round", val, tuple(st.args), tuple(st.kw.items()))
        elif st.name == "abs":
            val = mk("abs", val)
        elif st.name == "fillna":
            v = st.kw.get("value") or (st.args[0] if st.args else None)
            val = val if v is not None and is_const(v) and cval(v) == 0 else mk("m", "fillna", val, tuple(st.args), tuple(st.kw.items()))
        elif st.name == "clip":
            val = mk("m", "clip", val, tuple(st.args), tuple(st.kw.items()))
        elif st.name in ("where", "mask", "replace", "applymap", "assign", "pipe_id"):
            return val, "step %s" % st.name, r
    return val, None, r
