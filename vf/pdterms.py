"""Arithmetic over value-flow terms: case splits, linear forms, and the meaning of partial dependence reads."""
from .perms import base_of, unwrap
from .terms import (T, mk, const, NONE, TRUE, FALSE, is_const, cval, walk, show, strip_conv, assume, add_fact, children)

CACHES = {"pd_single": "single", "pd_pairs": "pair", "pd_minus_single": "minus"}


def first_cond(t, skip=None, only=None):
    """condition of an outermost phi in t"""
    st = [t]
    seen = set()
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if skip is not None and skip(x):
            continue
        if x.op == "phi" and (only is None or only(x.a[0])):
            c = x.a[0]
            while c.op in ("and", "or", "not"):
                c = c.a[0]
            return c
        st.extend(children(x))
    return None


def cases(t, facts=None, limit=64, skip=None, only=None):
    """[(facts, t without conditional values)]; None when there are more than limit cases"""
    out = []

    def go(t, facts, cs):
        c = first_cond(t, skip, only)
        if c is None:
            out.append((cs, t))
            return len(out) <= limit
        for v in (True, False):
            f = add_fact(facts, c, v)
            t2 = assume(t, f)
            if t2 is t:                          # the condition could not be eliminated
                out.append((cs, t))
                return len(out) <= limit
            if not go(t2, f, cs + ((c, v),)):
                return False
        return True
    return out if go(assume(t, facts) if facts else t, dict(facts or {}), ()) else None


def num(t):
    return t.op == "const" and isinstance(cval(t), (int, float)) and not isinstance(cval(t), bool)


def addto(d, k, c):
    d[k] = d.get(k, 0) + c
    if abs(d[k]) < 1e-12:
        del d[k]


def scaled(d, c):
    return {k: v * c for k, v in d.items()} if c else {}


def plus(a, b, c=1):
    d = dict(a)
    for k, v in b.items():
        addto(d, k, v * c)
    return d


def lin(t, depth=0):
    """linear form {atom: coefficient}, atom None: constant.  Reads through means, conversions and elementwise maps"""
    o = t.op
    if depth > 80:
        return {t: 1}
    if num(t):
        return {None: cval(t)} if cval(t) else {}
    if o == "bin":
        op, a, b = t.a
        if op in "+-":
            return plus(lin(a, depth + 1), lin(b, depth + 1), 1 if op == "+" else -1)
        if op == "*":
            for x, y in ((a, b), (b, a)):
                lx = lin(x, depth + 1)
                if not lx or set(lx) == {None}:
                    return scaled(lin(y, depth + 1), lx.get(None, 0))
        if op == "/":
            lb = lin(b, depth + 1)
            if set(lb) == {None}:
                return scaled(lin(a, depth + 1), 1 / lb[None])
        return {t: 1}
    if o == "neg":
        return scaled(lin(t.a[0], depth + 1), -1)
    if o == "call" and t.a[0] in ("numpy.subtract", "numpy.add") and len(t.a[1]) == 2:
        return plus(lin(t.a[1][0], depth + 1), lin(t.a[1][1], depth + 1), 1 if t.a[0].endswith("add") else -1)
    if o == "call" and t.a[0] in ("numpy.negative",) and len(t.a[1]) == 1:
        return scaled(lin(t.a[1][0], depth + 1), -1)
    if o == "conv" and t.a[0] in ("array", "asarray", "list", "tuple", "float", "Series"):
        return lin(t.a[1], depth + 1)
    if o == "copy":
        return lin(t.a[0], depth + 1)
    if o == "attr" and t.a[1] == "values":
        return lin(t.a[0], depth + 1)
    if o == "call" and t.a[0] in ("float", "numpy.float64", "numpy.asarray", "numpy.array", "pandas.Series", "list") and len(t.a[1]) == 1:
        return lin(t.a[1][0], depth + 1)
    if o == "m" and t.a[0] in ("to_numpy", "copy", "flatten", "ravel", "item") and not t.a[2]:
        return lin(t.a[1], depth + 1)
    if o == "red" and t.a[0] == "mean" and not t.a[2]:
        out = {}
        x = strip_conv(t.a[1])
        if x.op == "map" and x.a[2] is TRUE:
            for k, c in lin(x.a[1], depth + 1).items():
                if k is None or not any(y.op in ("elem", "pos") and y.a[0] is x.a[0] for y in walk(k)):
                    addto(out, k, c)               # the mean of a value that does not name the loop variable
                elif k.op == "elem" and k.a[0] is x.a[0]:
                    addto(out, mk("red", "mean", x.a[0], ()), c)
                else:
                    addto(out, mk("red", "mean", mk("map", x.a[0], k, TRUE), ()), c)
            return out
        for k, c in lin(t.a[1], depth + 1).items():
            if k is None or (k.op == "red" and not k.a[2]):
                addto(out, k, c)
            else:
                addto(out, mk("red", "mean", k, ()), c)
        return out
    if o == "map" and t.a[2] is TRUE:
        body = lin(t.a[1], depth + 1)
        out = {}
        for k, c in body.items():
            if k is None or not any(x.op in ("elem", "pos") and x.a[0] is t.a[0] for x in walk(k)):
                addto(out, k, c)
            elif k.op == "elem" and k.a[0] is t.a[0]:
                addto(out, t.a[0], c)
            else:
                addto(out, mk("map", t.a[0], k, TRUE), c)
        return out
    return {t: 1}


# ---------------------------------------------------------------- reads of the caches
def cache_read(t):
    """(kind, key term) of <calculator>.<cache>[key]['pd_values']"""
    while t.op in ("loc", "copy") or (t.op == "conv"):
        t = t.a[1] if t.op == "conv" else t.a[0]
    if t.op == "idx" and is_const(t.a[1]) and cval(t.a[1]) == "pd_values" and t.a[0].op == "idx":
        f = t.a[0].a[0]
        while f.op in ("loc", "copy"):
            f = f.a[0]
        n = f.a[1] if f.op in ("fld", "attr") else None
        if n in CACHES:
            return CACHES[n], t.a[0].a[1]
    return None


def values_axis(t, X):
    """feature whose distinct values the array t enumerates, and the axis name when t is the stored list"""
    t, _ = unwrap(t)
    while t.op in ("loc", "copy", "conv"):
        t = t.a[1] if t.op == "conv" else t.a[0]
    if t.op == "call" and t.a[0] in ("numpy.unique", "numpy.sort", "sorted", "list") and t.a[1]:
        return values_axis(t.a[1][0], X)
    if t.op == "m" and t.a[0] in ("unique", "tolist", "sort_values", "to_numpy"):
        return values_axis(t.a[1], X)
    if t.op in ("unique", "sortvals") and isinstance(t.a[0], T):
        return values_axis(t.a[0], X)
    if t.op == "idx" and is_const(t.a[1]) and cval(t.a[1]) in ("f_values", "f1_values", "f2_values") and t.a[0].op == "idx":
        k = t.a[0].a[1]
        n = cval(t.a[1])
        if n == "f_values":
            return k
        if k.op == "tuple" and len(k.a) == 2:
            return k.a[0 if n == "f1_values" else 1]
        return None
    if t.op == "idx" and (X is None or is_data(base_of(t.a[0]), X)) and t.a[1].op not in ("slice", "tuple"):
        return t.a[1]
    return None


def position_of(t):
    """(values array, element) when t is the position of the element in the array"""
    t0 = t
    while t.op == "idx" and num(t.a[1]) and cval(t.a[1]) == 0:
        t = t.a[0]
    if t.op == "call" and t.a[0] in ("int", "numpy.int64") and len(t.a[1]) == 1:
        return position_of(t.a[1][0])
    if t.op == "m" and t.a[0] in ("item",):
        return position_of(t.a[1])
    if t.op == "call" and t.a[0] in ("numpy.where", "numpy.nonzero", "numpy.flatnonzero", "numpy.argmax", "numpy.argwhere") and t.a[1]:
        c = t.a[1][0]
        if c.op == "conv":
            c = c.a[1]
        if c.op == "cmp" and c.a[0] == "==":
            a, b = c.a[1], c.a[2]
            if elem_src(a) is not None:
                return b, a
            if elem_src(b) is not None:
                return a, b
        return None
    if t.op == "red" and t.a[0] == "argmax" and t.a[1].op == "cmp" and t.a[1].a[0] == "==":
        a, b = t.a[1].a[1], t.a[1].a[2]
        return (b, a) if elem_src(a) is not None else ((a, b) if elem_src(b) is not None else None)
    if t.op == "call" and t.a[0] == "numpy.searchsorted" and len(t.a[1]) == 2:
        return t.a[1]
    if t.op == "m" and t.a[0] in ("index", "searchsorted", "get_loc") and t.a[2]:
        return t.a[1], t.a[2][0]
    return None


def elem_src(e):
    """the sequence whose current element e is"""
    if e.op == "elem":
        return e.a[0]
    if e.op == "proj" and e.a[0].op == "elem":
        s = strip_conv(e.a[0].a[0])
        if s.op == "zip" and isinstance(e.a[1], int) and e.a[1] < len(s.a):
            return s.a[e.a[1]]
        if s.op == "call" and s.a[0] == "zip" and e.a[1] < len(s.a[1]):
            return s.a[1][e.a[1]]
        return mk("projs", s, e.a[1])
    return None


def column_of(t, X):
    """feature whose column (in row order) t is"""
    t, _ = unwrap(t)
    if t.op == "idx" and is_data(base_of(t.a[0]), X) and t.a[1].op not in ("slice", "tuple", "draw"):
        return t.a[1]
    return None


def is_data(t, X):
    """X: the data term, or a tuple of terms known to hold equal data"""
    return t in X if isinstance(X, tuple) else t is X


class Atom:
    """kind: single / pair / minus / pred / mean; key: features; problem: why it is not the read it should be"""

    def __init__(self, kind, key=(), problem=None, inner=None):
        self.kind, self.key, self.problem, self.inner = kind, tuple(key), problem, inner

    def __repr__(self):
        return "%s(%s)%s" % (self.kind, ", ".join(show(k, 3) for k in self.key), " !" + self.problem if self.problem else "")


def is_prediction(t):
    """data term when t is a vector of predictions"""
    if t.op == "idx" and t.a[1].op == "tuple" and t.a[0].op == "m" and t.a[0].a[0] == "predict_proba":
        return t.a[0].a[2][0] if t.a[0].a[2] else None
    if t.op == "m" and t.a[0] == "predict" and t.a[2]:
        return t.a[2][0]
    if t.op == "callv" and t.a[1] and len(t.a[1]) == 2:
        f = t.a[0]
        if f.op == "param" or (f.op in ("fld", "attr") and f.a[1] == "predict_function"):
            return t.a[1][1]
    return None


def classify(t, X):
    """Atom of a linear-form atom, or None"""
    t = strip_conv(t)
    while t.op in ("copy", "loc"):
        t = strip_conv(t.a[0])
    if t.op == "red" and t.a[0] == "mean" and not t.a[2]:
        i = classify(t.a[1], X)
        return Atom("mean", i.key, i.problem, i) if i is not None else None
    if t.op == "red" and t.a[0] in ("median", "min", "max", "std", "var") and not t.a[2]:
        i = classify(t.a[1], X)
        if i is not None and i.kind in ("pred", "single", "pair", "minus"):
            return Atom("mean", i.key, "the %s takes the place of the average" % t.a[0], i)
    p = is_prediction(t)
    if p is not None:
        return Atom("pred", (), None if is_data(strip_conv(p), X) else "prediction on %s" % show(p, 3))
    c = cache_read(t)
    if c is not None:
        kind, key = c
        if kind == "minus":
            return Atom("minus", (key,))
        return Atom("raw " + kind, key.a if key.op == "tuple" else (key,))
    if t.op == "map" and t.a[2] is TRUE:
        b = t.a[1]
        src = t.a[0]
    elif t.op == "idx":
        b, src = t, None
        # a whole-array lookup: pd_values[positions of the column]
        pos = t.a[1]
        c = cache_read(t.a[0])
        if c is not None and pos.op == "call" and pos.a[0] == "numpy.searchsorted" and len(pos.a[1]) == 2 and c[0] == "single":
            f = values_axis(pos.a[1][0], X)
            col = column_of(pos.a[1][1], X)
            if f is not None and col is not None:
                return Atom("single", (c[1],), mismatch(c[1], f, col))
        return None
    else:
        return None
    if b.op != "idx":
        return None
    c = cache_read(b.a[0])
    if c is None:
        # two-step indexing m[i][j]
        if b.a[0].op == "idx":
            c = cache_read(b.a[0].a[0])
            if c is None:
                return None
            ix = (b.a[0].a[1], b.a[1])
        else:
            return None
    else:
        ix = b.a[1].a if b.a[1].op == "tuple" else (b.a[1],)
    kind, key = c
    if kind == "minus":
        if len(ix) == 1 and ix[0].op in ("pos", "elem"):
            return Atom("minus", (key,))
        return None
    keys = key.a if key.op == "tuple" and kind == "pair" else (key,)
    if len(keys) != len(ix):
        return None
    for k, i in zip(keys, ix):
        p = position_of(i)
        if p is None:
            return None
        f = values_axis(p[0], X)
        s = elem_src(p[1])
        col = column_of(s, X) if s is not None else None
        if f is not None and col is None and s is not None:
            r = strip_conv(s)
            if r.op == "call" and r.a[0] in ("numpy.sort", "sorted", "numpy.flip", "reversed") and r.a[1] and column_of(r.a[1][0], X) is not None:
                return Atom(kind, keys, "%s is read at its values in another order than the rows of the data (%s)" % (show(k, 3), r.a[0]))
        if f is None or col is None:
            return None
        m = mismatch(k, f, col)
        if m:
            return Atom(kind, keys, m)
    return Atom(kind, keys)


def mismatch(key, f, col):
    if f is not key:
        return "the axis of %s is searched in the values of %s" % (show(key, 3), show(f, 3))
    if col is not key:
        return "the axis of %s is read at the value of %s" % (show(key, 3), show(col, 3))
    return None
