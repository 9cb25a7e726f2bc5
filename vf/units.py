"""Dimension analysis: how a value reacts when the model's output is shifted by a constant or scaled by a positive factor.

U(d, s): d is the degree of homogeneity (number, ANY for zero, MIX for a resolved sum of different degrees, None unresolved);
s is the coefficient of the shift, a polynomial {monomial: coefficient} in lengths ({} = invariant), DEP for a resolved
dependence that is not affine, None unresolved."""
from . import pdterms as pt
from .perms import base_of, unwrap
from .terms import (T, mk, const, NONE, TRUE, is_const, cval, walk, show, strip_conv, mk_len)

ANY, MIX, DEP = "any", "mix", "dep"


class U:
    def __init__(self, d, s, why=""):
        self.d, self.s, self.why = d, s, why

    def __repr__(self):
        return "U(%s,%s)" % (self.d, self.s)


UNK = U(None, None)
CONST = U(0, {})
ZERO = U(ANY, {})
PRED = U(1, {(): 1.0})


def clean(s):
    return {k: v for k, v in s.items() if abs(v) > 1e-12}


def add_d(a, b):
    if a == ANY:
        return b
    if b == ANY:
        return a
    if a is None or b is None:
        return None
    if MIX in (a, b):
        return None if a == b else MIX
    return a if a == b else MIX


def add_s(a, b, sign=1):
    if a is None or b is None:
        return None
    if DEP in (a, b):
        return None if a == b else DEP
    r = dict(a)
    for k, v in b.items():
        r[k] = r.get(k, 0) + sign * v
    return clean(r)


def why(*us):
    return next((u.why for u in us if u.why), "")


def add(a, b, sign=1):
    d, s = add_d(a.d, b.d), add_s(a.s, b.s, sign)
    w = why(a, b)
    if d == MIX and MIX not in (a.d, b.d):
        w = w or "a quantity of degree %s is added to one of degree %s" % (a.d, b.d)
    return U(d, s, w)


def join(a, b):
    d = add_d(a.d, b.d)
    s = a.s if a.s == b.s else (None if a.s is None or b.s is None else DEP)
    return U(d, s, why(a, b))


def scalar(t):
    return t.op == "red" and not t.a[2] or pt.num(t) or t.op == "len"


def mul(a, b, ta, tb):
    d = ANY if ANY in (a.d, b.d) else (None if None in (a.d, b.d) else (MIX if MIX in (a.d, b.d) else a.d + b.d))
    if a.s is None or b.s is None:
        s = None
    elif a.s == {} and b.s == {}:
        s = {}
    elif pt.num(ta) and isinstance(b.s, dict):
        s = clean({k: v * cval(ta) for k, v in b.s.items()})
    elif pt.num(tb) and isinstance(a.s, dict):
        s = clean({k: v * cval(tb) for k, v in a.s.items()})
    elif a.s and b.s:
        s = DEP
    elif tb.op == "len" and isinstance(a.s, dict):
        s = {tuple(sorted(k + (tb.n,))): v for k, v in a.s.items()}
    elif ta.op == "len" and isinstance(b.s, dict):
        s = {tuple(sorted(k + (ta.n,))): v for k, v in b.s.items()}
    elif scalar(ta) and scalar(tb):
        s = DEP
    else:
        s = None
    return U(d, s, why(a, b))


def div(a, b, ta, tb):
    d = ANY if a.d == ANY else (None if None in (a.d, b.d) or b.d == ANY else (MIX if MIX in (a.d, b.d) else a.d - b.d))
    if a.s is None or b.s is None:
        s = None
    elif a.s == {} and b.s == {}:
        s = {}
    elif pt.num(tb) and cval(tb) and isinstance(a.s, dict):
        s = clean({k: v / cval(tb) for k, v in a.s.items()})
    elif tb.op == "len" and isinstance(a.s, dict) and all(tb.n in k for k in a.s):
        s = {}
        for k, v in a.s.items():
            k = list(k)
            k.remove(tb.n)
            s[tuple(k)] = v
    elif b.s:
        s = DEP if not (a.s and a.s == b.s == DEP) else None
    elif scalar(tb):
        s = DEP if a.s else {}
    else:
        s = None
    return U(d, s, why(a, b))


def power(a, k):
    d = ANY if a.d == ANY else (None if a.d is None else (MIX if a.d == MIX else a.d * k))
    s = a.s if not a.s or k == 1 else DEP
    return U(d, s, a.why or ("" if s != DEP else "a quantity that moves with the model's output is raised to a power before it is centred"))


def numlen(t):
    """number of elements of a vector term"""
    t = strip_conv(t)
    p = pt.is_prediction(t)
    if p is not None:
        return mk_len(p)
    if t.op in ("bin",):
        for x in t.a[1:]:
            if not scalar(x):
                return numlen(x)
    if t.op in ("pow", "neg", "abs", "copy", "loc"):
        return numlen(t.a[0])
    if t.op == "map":
        return numlen(t.a[0])
    if t.op == "zip":
        return numlen(t.a[0])
    if t.op == "idx" and t.a[0].op in ("param", "draw", "copy") and t.a[1].op not in ("slice", "tuple"):
        return mk_len(base_of(t.a[0]))
    return mk_len(t)


def derived(t, cache={}):
    r = cache.get(t)
    if r is None:
        r = cache[t] = any(pt.is_prediction(x) is not None or pt.cache_read(x) is not None for x in walk(t))
    return r


KEEP = ("mean", "max", "min", "median", "nanmean", "nanmax", "nanmin", "quantile", "mode", "first", "last")
SPREAD = {"numpy.std": 1, "numpy.nanstd": 1, "numpy.ptp": 1, "statistics.stdev": 1, "statistics.pstdev": 1, "numpy.var": 2, "statistics.variance": 2,
          "statistics.pvariance": 2, "numpy.nanvar": 2}


class Eval:
    def __init__(self, X):
        self.X = X
        self.memo = {}

    def unit(self, t):
        r = self.memo.get(t)
        if r is None:
            self.memo[t] = UNK
            r = self.memo[t] = self.go(t)
        return r

    def cond(self, c):
        """(scale ok, shift ok) of a condition: True / False / None"""
        if not derived(c):
            return True, True
        if c.op in ("and", "or", "not"):
            rs = [self.cond(x) for x in c.a]
            f = lambda i: False if any(r[i] is False for r in rs) else (None if any(r[i] is None for r in rs) else True)
            return f(0), f(1)
        if c.op == "cmp":
            a, b = self.unit(c.a[1]), self.unit(c.a[2])
            d = True if ANY in (a.d, b.d) or (a.d == b.d and a.d not in (None, MIX)) else (None if None in (a.d, b.d) else False)
            s = True if a.s == b.s and a.s is not None and a.s != DEP else (None if None in (a.s, b.s) or DEP in (a.s, b.s) else False)
            return d, s
        if c.op in ("isnan", "isnone") or (c.op == "call" and c.a[0] in ("numpy.isnan", "math.isnan", "pandas.isna", "pandas.isnull", "numpy.isfinite", "numpy.isinf")):
            return True, True
        if c.op == "red" and c.a[0] in ("any", "all"):
            return self.cond(c.a[1])
        if c.op == "call" and c.a[0] in ("numpy.isclose", "numpy.allclose") and len(c.a[1]) >= 2:
            a, b = self.unit(c.a[1][0]), self.unit(c.a[1][1])
            u = add(a, b, -1)
            d = None if u.d is None else (u.d in (0, ANY))
            return d, (None if u.s in (None, DEP) else u.s == {})
        if c.op in ("truth",):
            a = self.unit(c.a[0])
            return (True if a.d not in (None, MIX) else None), (True if a.s == {} else (None if a.s is None else False))
        return None, None

    def go(self, t):
        o = t.op
        if pt.num(t):
            return ZERO if cval(t) == 0 else CONST
        if o == "const":
            return CONST
        if pt.is_prediction(t) is not None or pt.cache_read(t) is not None:
            return PRED
        if not derived(t) and not any(x.op in ("opaque", "deep", "havoc") for x in walk(t)):
            return CONST
        if o == "phi":
            u = join(self.unit(t.a[1]), self.unit(t.a[2]))
            d, s = self.cond(t.a[0])
            w = ""
            if d is False:
                w = "a branch compares quantities of different scale: %s" % show(t.a[0], 6)
            elif s is False:
                w = "a branch depends on the level of the model's output: %s" % show(t.a[0], 6)
            return U(u.d if d else (MIX if d is False and u.d is not None else None), u.s if s else (DEP if s is False and u.s is not None else None), u.why or w)
        if o == "bin":
            op, a, b = t.a
            ua, ub = self.unit(a), self.unit(b)
            if op == "+":
                return add(ua, ub)
            if op == "-":
                return add(ua, ub, -1)
            if op == "*":
                return mul(ua, ub, a, b)
            if op == "/":
                return div(ua, ub, a, b)
            return UNK
        if o == "neg":
            a = self.unit(t.a[0])
            return U(a.d, clean({k: -v for k, v in a.s.items()}) if isinstance(a.s, dict) else a.s, a.why)
        if o == "abs":
            a = self.unit(t.a[0])
            return U(a.d, a.s if not a.s else DEP, a.why)
        if o == "pow":
            if not pt.num(t.a[1]):
                return UNK
            return power(self.unit(t.a[0]), cval(t.a[1]))
        if o in ("conv",):
            return self.unit(t.a[1])
        if o in ("copy", "loc"):
            return self.unit(t.a[0])
        if o == "attr":
            return self.unit(t.a[0]) if t.a[1] in ("values", "T", "array", "real") else UNK
        if o in ("slice1d",):
            return self.unit(t.a[0])
        if o in ("idx", "iloc", "rows"):
            return self.unit(t.a[0]) if not derived(t.a[1]) else UNK
        if o == "map":
            return self.unit(t.a[1]) if not derived(t.a[2]) else UNK
        if o == "elem":
            return self.unit(t.a[0])
        if o == "proj" and t.a[0].op == "elem":
            s = pt.elem_src(t)
            return self.unit(s) if s is not None and s.op != "projs" else UNK
        if o in ("list", "tuple", "set"):
            us = [self.unit(x) for x in t.a if x.op != "seg"]
            if len(us) != len(t.a) or not us:
                return UNK
            r = us[0]
            for u in us[1:]:
                r = join(r, u)
            return r
        if o == "along":
            return self.unit(t.a[2]) if len(t.a) > 2 and isinstance(t.a[2], T) else UNK
        if o == "sum":
            return self.total(self.unit(t.a[1]), mk_len(t.a[0]))
        if o == "red":
            return self.red(t.a[0], t.a[1], dict(t.a[2]))
        if o == "callv" and t.a[1]:
            f = t.a[0]
            if f.op in ("func", "ext", "extfn", "const", "name", "builtin", "global"):
                n = str(f.a[0])
                if n in SPREAD:
                    return self.spread(self.unit(t.a[1][0]), SPREAD[n])
            n = show(f, 3)
            if n in SPREAD:
                return self.spread(self.unit(t.a[1][0]), SPREAD[n])
            return UNK
        if o == "call":
            return self.call(t)
        if o == "m":
            return self.method(t)
        if o == "store" and t.a[1].op in ("cmp", "and", "or", "not", "isnan"):
            return self.unit(mk("phi", t.a[1], t.a[2], t.a[0]))       # x[mask] = v, cell by cell
        if o == "storeloc" and t.a[1].op in ("cmp", "and", "or", "not", "isnan") and t.a[2] is NONE:
            return self.unit(mk("phi", t.a[1], t.a[3], t.a[0]))
        if o in ("store", "storemap", "storecols"):
            return UNK
        return UNK

    def spread(self, a, k):
        if a.d is None or a.s is None:
            return U(None if a.d is None else (a.d * k if a.d not in (ANY, MIX) else a.d), None if a.s is None or a.s == DEP else {}, a.why)
        return U(a.d * k if a.d not in (ANY, MIX) else a.d, DEP if a.s == DEP else {}, a.why)

    def total(self, u, n):
        if isinstance(u.s, dict) and u.s:
            if pt.num(n):
                return U(u.d, clean({k: v * cval(n) for k, v in u.s.items()}), u.why)
            return U(u.d, {tuple(sorted(k + (n.n,))): v for k, v in u.s.items()}, u.why)
        return u

    def red(self, name, x, kw):
        if name in KEEP:
            return self.unit(x)
        if name in ("std", "ptp"):
            return self.spread(self.unit(x), 1)
        if name == "var":
            return self.spread(self.unit(x), 2)
        if name in ("sum", "nansum"):
            b = bigsum(mk("red", "sum", x, tuple(kw.items())), self.X)
            if b is not None:
                return self.total(self.unit(b[1]), mk_len(b[0]))
            u = self.unit(x)
            if u.s == {} or u.s == DEP or u.s is None:
                return u
            if not kw:
                return self.total(u, numlen(x))
            return U(u.d, None, u.why)
        if name in ("argmax", "argmin", "count", "size", "len", "any", "all", "nunique"):
            return CONST
        return UNK

    def call(self, t):
        n, a, kw = t.a[0], t.a[1], dict(t.a[2])
        if not isinstance(n, str):
            return UNK
        if n in SPREAD and a:
            return self.spread(self.unit(a[0]), SPREAD[n])
        if n in ("numpy.sqrt", "math.sqrt") and a:
            return power(self.unit(a[0]), 0.5)
        if n in ("numpy.maximum", "numpy.minimum", "max", "min", "numpy.fmax", "numpy.fmin") and len(a) >= 2:
            r = self.unit(a[0])
            for x in a[1:]:
                u = self.unit(x)
                d = add_d(r.d, u.d)
                s = r.s if r.s == u.s else (None if None in (r.s, u.s) else DEP)
                r = U(d, s, why(r, u))
            return r
        if n in ("numpy.array", "numpy.asarray", "float", "list", "pandas.Series", "numpy.nan_to_num", "numpy.squeeze", "numpy.ravel", "numpy.sort", "sorted",
                 "numpy.transpose", "numpy.percentile", "numpy.quantile", "numpy.concatenate", "numpy.hstack", "numpy.vstack", "numpy.average") and a:
            return self.unit(a[0])
        if n in ("numpy.abs", "abs", "math.fabs") and a:
            u = self.unit(a[0])
            return U(u.d, u.s if not u.s else DEP, u.why)
        if n in ("round", "numpy.round", "numpy.around", "numpy.floor", "numpy.ceil", "int", "math.floor", "numpy.trunc") and a:
            u = self.unit(a[0])
            return U(u.d if u.d in (None, 0, ANY) else MIX, u.s if not u.s else DEP, u.why or "the value is rounded to an absolute precision")
        if n in ("numpy.log", "numpy.log1p", "numpy.exp", "math.log", "math.exp", "numpy.log2", "numpy.tanh", "math.tanh", "math.log1p") and a:
            u = self.unit(a[0])
            return U(u.d if u.d in (None, 0) else MIX, u.s if not u.s else DEP, u.why or "a nonlinear function is applied to a quantity with a scale")
        if n in ("numpy.divide", "numpy.true_divide") and len(a) >= 2:
            return div(self.unit(a[0]), self.unit(a[1]), a[0], a[1])
        if n == "numpy.multiply" and len(a) >= 2:
            return mul(self.unit(a[0]), self.unit(a[1]), a[0], a[1])
        if n in ("numpy.subtract", "numpy.add") and len(a) >= 2:
            return add(self.unit(a[0]), self.unit(a[1]), 1 if n.endswith("add") else -1)
        if n in ("numpy.dot", "numpy.inner", "numpy.vdot") and len(a) == 2:
            return mul(self.unit(a[0]), self.unit(a[1]), a[0], a[1])
        if n in ("numpy.diff",) and a:
            u = self.unit(a[0])
            return U(u.d, {} if isinstance(u.s, dict) else u.s, u.why)
        if n == "numpy.linalg.norm" and a:
            u = self.unit(a[0])
            return U(u.d, u.s if not u.s else DEP, u.why)
        if n == "numpy.where" and len(a) == 3:
            u = join(self.unit(a[1]), self.unit(a[2]))
            d, s = self.cond(a[0])
            return U(u.d if d else (MIX if d is False and u.d is not None else None), u.s if s else (DEP if s is False else None), u.why)
        if n in ("numpy.corrcoef", "scipy.stats.pearsonr", "sklearn.metrics.r2_score"):
            us = [self.unit(x) for x in a]
            if all(u.d not in (None, MIX) and isinstance(u.s, dict) for u in us):
                if n.endswith("r2_score"):
                    u = add(us[0], us[1], -1)
                    return U(0 if us[0].d == us[1].d else MIX, {} if u.s == {} else DEP)
                return U(0, {})
        if n in ("sklearn.metrics.mean_squared_error", "sklearn.metrics.mean_absolute_error") and len(a) >= 2:
            u = add(self.unit(a[0]), self.unit(a[1]), -1)
            return power(u, 2 if "squared" in n else 1) if u.s == {} else U(u.d, DEP if u.s is not None else None)
        return UNK

    def method(self, t):
        n, r, a, kw = t.a
        if n in ("copy", "to_numpy", "tolist", "flatten", "ravel", "reshape", "squeeze", "item", "transpose", "fillna", "sort_values", "reset_index", "astype"):
            u = self.unit(r)
            if n == "fillna" and a and not (pt.num(a[0]) and cval(a[0]) == 0):
                return UNK
            return u
        if n == "round":
            u = self.unit(r)
            return U(u.d if u.d in (None, 0, ANY) else MIX, u.s if not u.s else DEP, u.why or "the value is rounded to an absolute precision")
        if n in ("clip",):
            u = self.unit(r)
            for x in list(a) + [v for k, v in kw]:
                if x is NONE:
                    continue
                v = self.unit(x)
                u = U(add_d(u.d, v.d), u.s if u.s == v.s else (None if None in (u.s, v.s) else DEP), why(u, v) or "clipped")
            return u
        if n in ("std", "var"):
            return self.spread(self.unit(r), 1 if n == "std" else 2)
        if n in ("dot",) and a:
            return mul(self.unit(r), self.unit(a[0]), r, a[0])
        return UNK


def bigsum(t, X, partial=False):
    """(source, body): t is the elementwise sum over source of body; None if not recognised"""
    t = strip_conv(t)
    if t.op == "sum":
        return t.a[0], t.a[1]
    if t.op == "call" and t.a[0] == "sum" and t.a[1]:
        x = strip_conv(t.a[1][0])
        if x.op == "map" and x.a[2] is TRUE:
            return x.a[0], x.a[1]
        return None
    if t.op != "red" or t.a[0] not in ("sum",):
        return None
    kw = dict(t.a[2])
    ax = kw.get("axis")
    x = strip_conv(t.a[1])
    if ax is not None and is_const(ax) and cval(ax) == 0:
        if x.op == "map" and x.a[2] is TRUE:
            return x.a[0], x.a[1]
        if x.op == "list" and len(x.a) == 1 and x.a[0].op == "seg" and x.a[0].a[0] == "map":
            seg = x.a[0]
            b = seg.a[2] if isinstance(seg.a[2], tuple) else (seg.a[2],)
            if len(b) == 1:
                return seg.a[1], b[0]
        return None
    if ax is None or not is_const(ax) or cval(ax) not in (1, "columns"):
        return None
    # frame whose columns were all replaced, possibly with further columns cut off again
    extra = 0
    cut = 0
    while True:
        if x.op == "idx" and x.a[1].op == "tuple" and len(x.a[1].a) == 2:
            r, c = x.a[1].a
            if r.op == "slice" and all(y is NONE for y in r.a) and c.op == "slice" and c.a[0] is NONE and is_const(c.a[1]) and isinstance(cval(c.a[1]), int) and cval(c.a[1]) < 0:
                cut += -cval(c.a[1])
                x = strip_conv(x.a[0])
                continue
        if x.op == "iloc" and x.a[1].op == "tuple" and len(x.a[1].a) == 2:
            r, c = x.a[1].a
            if r.op == "slice" and all(y is NONE for y in r.a) and c.op == "slice" and c.a[0] is NONE and is_const(c.a[1]) and isinstance(cval(c.a[1]), int) and cval(c.a[1]) < 0:
                cut += -cval(c.a[1])
                x = strip_conv(x.a[0])
                continue
        if x.op == "m" and x.a[0] == "drop":
            cs = dict(x.a[3]).get("columns") or (x.a[2][0] if x.a[2] else None)
            if cs is None:
                return None
            y = strip_conv(x.a[1])
            names = [cs] if is_const(cs) else list(strip_conv(cs).a) if strip_conv(cs).op == "list" else None
            if y.op == "store" and names == [y.a[1]]:
                x = strip_conv(y.a[0])
                continue
            return None
        if x.op == "store" and is_const(x.a[1]) and isinstance(cval(x.a[1]), str):
            extra += 1
            x = strip_conv(x.a[0])
            continue
        if x.op == "idx" and x.a[1].op in ("attr", "conv", "param") and strip_conv(x.a[1]).op == "attr" and strip_conv(x.a[1]).a[1] == "columns":
            # reading the original columns back
            if x.a[0].op == "store":
                y = x.a[0]
                while y.op == "store" and is_const(y.a[1]):
                    y = y.a[0]
                x = y
                extra = cut = 0
                continue
        if x.op == "copy":
            x = x.a[0]
            continue
        break
    if extra != cut and not partial:
        return None
    if x.op == "storemap":
        src, pre, k, v = x.a[:4]
        s = strip_conv(src)
        if k.op == "elem" and k.a[0] is src and s.op == "attr" and s.a[1] == "columns" and base_of(s.a[0]) is base_of(pre):
            if extra != cut:
                return src, v, "%d of the summed columns are cut off" % (cut - extra) if cut > extra else "%d further columns are added in" % (extra - cut)
            return src, v
    return None
