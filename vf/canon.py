"""Canonical constructors for library-level operations (data frames, arrays, reductions)."""
from .terms import (T, mk, const, NONE, TRUE, FALSE, is_const, cval, mk_not, mk_and, mk_or, mk_phi, mk_cmp, mk_in,
                    mk_isnone, mk_bin, mk_neg, mk_len, mk_pow, strip_conv, boolish, boolish_col, contains, REMAKE, walk)

RED = {"mean", "sum", "max", "min", "any", "all", "prod", "median", "amax", "amin"}
RED_CANON = {"amax": "max", "amin": "min"}
ARR_CALLS = {"numpy.zeros", "numpy.ones", "numpy.full", "numpy.empty", "numpy.array", "numpy.asarray", "numpy.arange",
             "numpy.sort", "numpy.unique", "numpy.where", "numpy.concatenate", "numpy.hstack", "numpy.vstack",
             "numpy.linspace", "numpy.zeros_like", "numpy.ones_like", "numpy.full_like", "numpy.empty_like",
             "numpy.copy", "numpy.diff", "numpy.cumsum", "numpy.apply_along_axis", "pandas.DataFrame", "pandas.Series",
             "pandas.concat", "numpy.stack", "numpy.column_stack", "numpy.nan_to_num", "numpy.ravel", "numpy.reshape",
             "numpy.transpose", "numpy.flip", "numpy.log", "numpy.exp", "numpy.repeat", "numpy.tile"}
ARR_METHODS = {"copy", "to_numpy", "sample", "sort_values", "astype", "predict", "predict_proba", "reset_index",
               "rename", "drop", "assign", "fillna", "reindex", "permutation", "ravel", "reshape", "transpose", "head",
               "tail", "apply", "agg", "join", "merge", "pivot_table", "groupby", "flatten", "abs", "map", "replace",
               "trees_to_dataframe", "set_index", "sort_index", "drop_duplicates", "unique", "clip", "round", "T"}


def strish(t):
    """key that names a column: a string constant or a feature-like symbol"""
    if t.op == "const":
        return isinstance(cval(t), str)
    return t.op in ("elem", "proj", "param", "fstr", "phi") and not boolish(t) and not (t.op == "elem" and t.a[0].op == "range")


def arrayish(t, d=0):
    if d > 25:
        return False
    o = t.op
    if o == "param":
        return len(t.a) > 1 and t.a[1] in ("frame", "array", "series", "list")
    if o in ("rows", "store", "storeloc", "copy", "cols", "loc", "storemap", "conv", "map", "callv", "draw", "list", "row"):
        return o != "draw" or True
    if o in ("bin", "pow", "neg", "abs"):
        return any(arrayish(x, d + 1) for x in t.a if isinstance(x, T))
    if o == "phi":
        return arrayish(t.a[1], d + 1) and arrayish(t.a[2], d + 1)
    if o == "idx":
        k = t.a[1]
        if k.op == "slice":
            return arrayish(t.a[0], d + 1)
        if k.op == "tuple" and any(x.op == "slice" for x in k.a):
            return True
        if strish(k) and arrayish(t.a[0], d + 1) and t.a[0].op != "row":
            return True
        return False
    if o == "attr":
        return t.a[1] in ("values", "T", "loc", "iloc") and arrayish(t.a[0], d + 1) or t.a[1] in ("values",)
    if o == "m":
        return t.a[0] in ARR_METHODS
    if o == "call":
        return t.a[0] in ARR_CALLS
    if o == "loopout":
        return arrayish(t.a[1], d + 1)
    if o == "iloc":
        return t.a[1].op == "slice"
    return False


def mk_attr(t, name):
    if t.op == "phi" and t.size < 4000:
        return mk_phi(t.a[0], mk_attr(t.a[1], name), mk_attr(t.a[2], name))
    if name == "values" and t.op == "attr" and t.a[1] == "values":
        return t
    if name in ("columns", "index", "shape") and t.op == "copy":
        return mk_attr(t.a[0], name)
    if name == "columns" and t.op in ("store", "storeloc"):
        # writing an existing column keeps the columns; unknown columns stay symbolic
        return mk("attr", t, name)
    if name == "size" and False:
        pass
    return mk("attr", t, name)


def mk_copy(t):
    if t.op == "copy":
        return t
    return mk("copy", t)


def uncopy(t):
    while t.op == "copy":
        t = t.a[0]
    return t


def colkeys(k):
    """list of column keys if k is a literal list of names"""
    k = strip_conv(k)
    if k.op in ("list",) and k.a and all(strish(x) for x in k.a):
        return list(k.a)
    return None


def mk_idx(t, k):
    if t.op == "copy":
        return mk_idx(t.a[0], k)
    if t.op == "conv" and t.a[0] in ("list", "tuple", "array", "asarray") and is_const(k):
        return mk_idx(t.a[1], k)
    if is_const(k) and isinstance(cval(k), int) and not isinstance(cval(k), bool):
        i = cval(k)
        if t.op in ("tuple", "list") and all(x.op != "seg" for x in t.a) and -len(t.a) <= i < len(t.a):
            return t.a[i]
        if t.op == "elem" and i >= 0:
            return mk("proj", t, i)
        if t.op == "attr" and t.a[1] == "shape" and i == 0:
            return mk_len(t.a[0])
        if t.op == "phi":
            return mk_phi(t.a[0], mk_idx(t.a[1], k), mk_idx(t.a[2], k))
        if t.op == "call" and t.a[0] == "zip" and False:
            pass
    if t.op == "phi" and (is_const(k) or t.size < 400):
        return mk_phi(t.a[0], mk_idx(t.a[1], k), mk_idx(t.a[2], k))
    if k.op == "phi" and k.size < 200 and False:
        return mk_phi(k.a[0], mk_idx(t, k.a[1]), mk_idx(t, k.a[2]))
    if t.op == "dict" and is_const(k):
        for kk, v in t.a:
            if kk is k:
                return v
    if t.op == "store":
        b, k2, v = t.a
        if k2 is k:
            return v
        if strish(k) and strish(k2) and is_const(k) and is_const(k2):
            return mk_idx(b, k)
    if k.op == "pos" and strip_conv(t) is k.a[0]:
        return mk("elem", k.a[0], k.a[1])
    if k.op == "tuple" and len(k.a) == 2 and k.a[0].op == "slice" and all(x is NONE for x in k.a[0].a) and strish(k.a[1]) and False:
        return mk_idx(t, k.a[1])
    ks = colkeys(k)
    if ks is not None:
        return mk("cols", t, tuple(ks))
    if k.op == "slice":
        return mk("idx", t, k)
    if boolish(k) or (k.op in ("not", "and", "or")) or (k.op == "bin" and k.a[0] in ("&", "|")):
        return mk_rows(t, k)
    return mk("idx", t, k)


def mk_rows(t, m):
    if t.op == "copy":
        t = t.a[0]
    if m.op == "slice" and all(x is NONE for x in m.a):
        return t
    return mk("rows", t, m)


def mk_locidx(t, k):
    """t.loc[k]"""
    if t.op == "phi" and t.size < 400:
        return mk_phi(t.a[0], mk_locidx(t.a[1], k), mk_locidx(t.a[2], k))
    if k.op == "tuple" and len(k.a) == 2:
        r, c = k.a
        ks = colkeys(c)
        base = t
        if ks is not None:
            base = mk("cols", uncopy(t), tuple(ks))
        elif c.op == "slice" and all(x is NONE for x in c.a):
            base = t
        elif strish(c):
            base = mk_idx(t, c)
        else:
            return mk("locidx", uncopy(t), k)
        return mk_rows(base, r)
    return mk_rows(t, k)


def mk_store(b, k, v):
    if b.op == "store" and b.a[1] is k:
        return mk_store(b.a[0], k, v)
    sv = v
    while True:
        n = strip_conv(sv)
        if n.op == "copy":
            n = n.a[0]
        if n is sv:
            break
        sv = n
    cur = mk_idx(b, k)
    if sv is strip_conv(cur) or sv is cur:
        return b
    return mk("store", b, k, v)


def mk_storeloc(b, k, v):
    if k.op == "tuple" and len(k.a) == 2:
        r, c = k.a
        if r.op == "slice" and all(x is NONE for x in r.a):
            return mk_store(b, c, v)
        return mk("storeloc", b, r, c, v)
    return mk("storeloc", b, k, NONE, v)


def mk_red(name, x, kw=()):
    name = RED_CANON.get(name, name)
    kw = tuple((k, v) for k, v in kw if not (k == "axis" and v is NONE))
    if x.op == "copy":
        x = x.a[0]
    return mk("red", name, x, kw)


def mk_loopout(itT, n, pre, inn, post):
    if post is inn:
        return pre
    has = contains(post, lambda x: x is inn)
    if not has:
        return mk("last", itT, n, post, pre)
    if post.op == "bin" and post.a[0] == "+":
        a, b = post.a[1], post.a[2]
        for p, q in ((a, b), (b, a)):
            if p is inn and not contains(q, lambda x: x is inn):
                s = mk("sum", itT, q)
                return s if (is_const(pre) and cval(pre) == 0) else mk_bin("+", pre, s)
    if post.op == "store" and post.a[0] is inn:
        k, v = post.a[1], post.a[2]
        if not contains(v, lambda x: x is inn) and not contains(k, lambda x: x is inn):
            if k is mk("pos", itT, n) and pre.op == "call" and pre.a[0] in ("numpy.zeros", "numpy.empty", "numpy.ones", "numpy.full"):
                ln = pre.a[1][0] if pre.a[1] else dict(pre.a[2]).get("shape")
                if ln is mk_len(itT):
                    return mk("conv", "array", mk("map", itT, v, TRUE))
            return mk("storemap", itT, pre, k, v)
    return mk("loopout", itT, pre, post, inn, "")


def tm_names(t):
    """iterating this yields feature-name-like scalars (no aliasing to worry about)"""
    t = strip_conv(t)
    return t.op == "attr" and t.a[1] in ("columns", "index") or t.op in ("range", "combinations", "pos")


def mk_display(kind):
    """list / tuple / set of segments: decided conditional segments are spliced, single comprehensions become maps"""
    def f(*items):
        if not any(x.op == "seg" for x in items):
            return mk(kind, *items)
        out = []

        def go(x):
            if x.op == "seg" and x.a[0] == "if" and x.a[1] in (TRUE, FALSE):
                for y in (x.a[2] if x.a[1] is TRUE else x.a[3]):
                    go(y)
            elif x.op == "seg" and x.a[0] == "map" and x.a[3] is FALSE:
                pass
            else:
                out.append(x)
        for x in items:
            go(x)
        if len(out) == 1 and kind in ("list", "tuple"):
            x = out[0]
            if x.op == "seg" and x.a[0] == "map" and len(x.a[2]) == 1 and x.a[2][0].op != "seg":
                it, body, cond = x.a[1], x.a[2][0], x.a[3]
                return it if cond is TRUE and body.op == "elem" and body.a[0] is it else mk("map", it, body, cond)
            if x.op == "seg" and x.a[0] == "ext":
                return x.a[1] if kind == "list" else mk("conv", kind, x.a[1])
            if x.op == "seg" and x.a[0] == "if" and x.a[2] and x.a[3]:
                return mk_phi(x.a[1], f(*x.a[2]), f(*x.a[3]))
        return mk(kind, *out)
    return f


REMAKE.update({"list": mk_display("list"), "tuple": mk_display("tuple"), "set": mk_display("set"), "idx": mk_idx, "copy": mk_copy, "rows": mk_rows, "store": mk_store,
               "red": lambda n, x, kw=(): mk_red(n, x, kw), "attr": mk_attr, "pow": mk_pow})
