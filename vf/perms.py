"""Frames given to the model: which columns differ from the data, and how."""
from .tables import strip_rows
from .terms import (T, mk, const, NONE, TRUE, FALSE, is_const, cval, walk, show, strip_conv, mk_len, children)


class Unresolved(Exception):
    pass


def phi_leaves(t):
    if t.op == "phi":
        return phi_leaves(t.a[1]) + phi_leaves(t.a[2])
    return [t]


def unwrap(t):
    """drop wrappers that keep a column's values in order; second result: do the values still carry index labels?"""
    labels = None
    while True:
        t0 = t
        n = strip_conv(t)
        if n is not t:
            t, labels = n, False if labels is None else labels
        if t.op == "copy":
            t = t.a[0]
        elif t.op == "attr" and t.a[1] in ("values", "array"):
            t, labels = t.a[0], False if labels is None else labels
        elif t.op == "m" and t.a[0] in ("to_numpy", "tolist", "to_list"):
            t, labels = t.a[1], False if labels is None else labels
        elif t.op == "m" and t.a[0] == "copy":
            t = t.a[1]
        elif t.op == "call" and t.a[0] in ("numpy.array", "numpy.asarray", "list") and t.a[1]:
            t, labels = t.a[1][0], False if labels is None else labels
        if t is t0:
            return t, labels is None


def same_len(t, X):
    """t is the number of rows of X"""
    if t is mk_len(X):
        return True
    if t.op == "len":
        a = t.a[0]
        while a.op in ("store", "copy", "storeloc"):
            a = a.a[0]
        if a is X:
            return True
        if a.op == "idx" and base_of(a.a[0]) is X:
            return True
        u, _ = unwrap(a)
        if u.op == "idx" and base_of(u.a[0]) is X:
            return True
    if t.op == "idx" and t.a[0].op == "attr" and t.a[0].a[1] == "shape" and base_of(t.a[0].a[0]) is X and is_const(t.a[1]) and cval(t.a[1]) == 0:
        return True
    if t.op == "attr" and t.a[1] == "size" and t.a[0].op == "attr" and t.a[0].a[1] == "index":
        return base_of(t.a[0].a[0]) is X
    return False


def base_of(t):
    while t.op in ("copy", "store", "storeloc", "storecols", "storemap"):
        t = t.a[1] if t.op == "storemap" else t.a[0]
    return t


def origin(t):
    """the frame t was before anything was written into it"""
    while True:
        if t.op in ("copy", "store", "storeloc", "storecols", "storeiloc"):
            t = t.a[0]
        elif t.op in ("storemap", "loopout"):
            t = t.a[1]
        else:
            return t


def positions(t, X):
    """t enumerates all row positions of X"""
    t, _ = unwrap(t)
    if same_len(t, X):
        return True
    if t.op == "range":
        return is_const(t.a[0]) and cval(t.a[0]) == 0 and same_len(t.a[1], X)
    if t.op == "call" and t.a[0] in ("numpy.arange", "range", "pandas.RangeIndex"):
        a = t.a[1] or tuple(v for k, v in t.a[2] if k == "stop")
        return len(a) == 1 and same_len(a[0], X)
    return False


class Col:
    """new content of one column: values of column src of the data, reordered by sel"""

    def __init__(self, src, sel, verdict, why=""):
        self.src, self.sel, self.verdict, self.why = src, sel, verdict, why

    def same(self, o):
        return o is not None and (self.src, self.sel, self.verdict) == (o.src, o.sel, o.verdict)


class Broken(Unresolved):
    """the frame certainly differs from the data in more than single permuted columns"""


def draw_args(d):
    return list(d.a[3]), dict(d.a[4])


def judge_selector(p, X):
    """is the row selector p a permutation of all rows?  (verdict, why, identity)"""
    p, _ = unwrap(p)
    if p.op == "draw":
        how = p.a[1]
        a, kw = draw_args(p)
        pop = kw.get("x") or kw.get("a") or (a[0] if a else None)
        if how == "permutation" or how == "shuffle":
            if pop is not None and positions(pop, X):
                return True, "", p
            return None, "permutation of %s" % (show(pop, 3) if pop is not None else "?"), p
        if how == "choice":
            rep = kw.get("replace") or (a[2] if len(a) > 2 else None)
            if rep is None or (is_const(rep) and cval(rep) is True):
                return False, "rows are drawn with replacement: the column holds no permutation of its values", p
            size = kw.get("size") or (a[1] if len(a) > 1 else None)
            if is_const(rep) and pop is not None and positions(pop, X) and size is not None and same_len(size, X):
                return True, "", p
            return None, "choice not resolved", p
        if how in ("integers", "randint"):
            return False, "rows are drawn with replacement: the column holds no permutation of its values", p
        return None, "draw %s" % how, p
    if p.op == "call" and p.a[0] == "numpy.argsort" and p.a[1] and p.a[1][0].op == "draw":
        return True, "", p
    if p.op == "call" and p.a[0] in ("numpy.sort", "sorted") and p.a[1] and any(x.op == "draw" for x in walk(p)):
        return False, "the drawn rows are sorted again, so nothing is permuted", p
    if p.op == "slice" or (p.op == "call" and p.a[0] in ("numpy.roll", "numpy.flip", "reversed")):
        return False, "the rows are rearranged without a random permutation", p
    return None, "selector %s" % show(p, 3), p


def compose(c, ok, why, p):
    """content c reordered once more by selector p"""
    sel = p if c.sel is None else mk("tuple", c.sel, p)
    if c.verdict is False:
        return c
    return Col(c.src, sel, None if c.verdict is None and ok else ok, why or c.why)


class Frames:
    """column states of the frames of one operation"""

    def __init__(self, X, loops=()):
        self.X = X
        self.carried = {}
        for r in loops:
            for k, v in r["vars"].items():
                if v[0] == "term" and isinstance(v[2], T):
                    self.carried[v[2]] = (r, v[1], v[3])
        self.own = {x for x in walk(X) if x.op == "draw"}
        self.memo = {}
        self.assume = {}
        self.active = set()

    # ------------------------------------------------------------ column contents
    def column(self, c):
        """Col of a column read; verdict True with sel None: the original column"""
        c, _ = unwrap(c)
        if c.op == "idx" and c.a[1].op not in ("draw", "slice", "tuple", "range") and self.is_frame(c.a[0]):
            return self.frame(c.a[0]).get(c.a[1]) or Col(c.a[1], None, True)
        if c.op == "attr" and c.a[1] not in ("values", "index", "columns", "T", "shape") and self.is_frame(c.a[0]):
            k = const(c.a[1])
            return self.frame(c.a[0]).get(k) or Col(k, None, True)
        return None

    def is_frame(self, t):
        b = t
        while b.op in ("copy", "store", "storeloc", "storecols", "storemap", "storeiloc", "conv"):
            b = b.a[1] if b.op in ("storemap", "conv") else b.a[0]
        return b is self.X or b in self.carried or b.op == "loopout" or b.op == "phi" and self.is_frame(b.a[1]) and self.is_frame(b.a[2])

    def value(self, v, d=0):
        """Col for a column content v, or None"""
        if d > 12:
            return None
        u, labelled = unwrap(v)
        c = self.column(u)
        if c is not None:
            return c
        if u.op in ("idx", "iloc", "rows"):
            c = self.value(u.a[0], d + 1)
            if c is not None:
                ok, why, p = judge_selector(u.a[1], self.X)
                if ok and labelled and u.op == "iloc":
                    return Col(c.src, p, False, "the reordered column still carries its index labels, so assigning it restores the original order")
                return compose(c, ok, why, p)
        if u.op == "m" and u.a[0] == "take" and u.a[2] or u.op == "call" and u.a[0] == "numpy.take" and len(u.a[1]) > 1:
            src, sel = (u.a[1], u.a[2][0]) if u.op == "m" else u.a[1][:2]
            c = self.value(src, d + 1)
            if c is not None:
                return compose(c, *judge_selector(sel, self.X))
        if u.op == "call" and u.a[0] == "pandas.Series":
            kw = dict(u.a[2])
            ix = kw.get("index")
            data = kw.get("data") or (u.a[1][0] if u.a[1] else None)
            if data is not None and ix is not None and ix.op == "attr" and ix.a[1] == "index" and self.is_frame(ix.a[0]) and unwrap(data)[0].op != "iloc":
                return self.value(data, d + 1)
        if u.op == "m" and u.a[0] == "reset_index":
            return None
        if u.op == "draw":
            how = u.a[1]
            a, kw = draw_args(u)
            pop = kw.get("x") or kw.get("a") or (a[0] if a else None)
            c = self.value(pop, d + 1) if pop is not None else None
            if c is None:
                if pop is not None and any(x.op == "unique" or x.op == "m" and x.a[0] in ("unique", "drop_duplicates") or
                                           x.op == "call" and x.a[0] in ("numpy.unique", "set", "pandas.unique") for x in walk(pop)):
                    return Col(None, u, False, "the new values are taken from the distinct values of the column, not from its rows")
                return None
            if c.verdict is False:
                return c
            rep = kw.get("replace") or (a[2] if how == "choice" and len(a) > 2 else None)
            if how in ("permutation", "shuffle"):
                return compose(c, True, "", u)
            if how == "choice":
                if rep is None or (is_const(rep) and cval(rep) is True):
                    return Col(c.src, u, False, "values are drawn with replacement, the column holds no permutation of its values")
                size = kw.get("size") or (a[1] if len(a) > 1 else None)
                return compose(c, True if size is not None and same_len(size, self.X) else None, "choice", u)
            if how == "sample":
                fr, n = kw.get("frac"), kw.get("n")
                full = (fr is not None and is_const(fr) and cval(fr) == 1) or (n is not None and same_len(n, self.X))
                if labelled:
                    return Col(c.src, u, False, "the sampled column carries its index labels, so assigning it restores the original order")
                if rep is not None and is_const(rep) and cval(rep) is True:
                    return Col(c.src, u, False, "values are drawn with replacement")
                return compose(c, True if full else None, "sample", u)
            if how in ("integers", "normal", "uniform", "random"):
                return Col(None, u, False, "the values are random numbers, not the column's own values")
        return None

    # ------------------------------------------------------------ frames
    def put(self, d, k, v):
        d = dict(d)
        c = self.value(v)
        if c is None and v.op == "phi":
            for l in phi_leaves(v):
                x = self.value(l)
                if x is not None and (x.verdict is False or x.src is not None and x.src is not k and x.verdict is True):
                    c = x if x.verdict is False else Col(x.src, x.sel, False, "in some cases the values are those of %s" % show(x.src, 3))
                    break
        if c is None:
            d[k] = Col(None, None, None, "assigned value %s" % show(v, 4))
        elif c.sel is None and c.verdict is True and c.src is k:
            d.pop(k, None)                       # the original column again
        elif c.sel is None and c.verdict is True:
            d[k] = Col(c.src, None, None, "")
        else:
            d[k] = c
        return d

    def partly(self, d, k, v):
        """some rows of column k are assigned"""
        d = dict(d)
        u = v
        while True:
            u, _ = unwrap(u)
            if u.op in ("idx", "iloc", "rows", "locidx") and self.column(u) is None and not any(x.op == "draw" and x not in self.own for x in walk(u.a[1])):
                u = u.a[0]
            else:
                break
        c = self.column(u)
        if k not in d and c is not None and c.sel is None and c.src is k:
            return d
        d[k] = Col(k, mk("partly", d[k].sel if k in d and d[k].sel is not None else NONE), None, "only some rows of the column are assigned")
        return d

    def frame(self, t):
        """{column key: Col} of the columns in which frame t differs from the data; raises Unresolved or Broken"""
        t = strip_conv(t)
        if t in self.assume:
            return self.assume[t]
        if t not in self.memo:
            r = self.frame1(t)
            if self.assume:
                return r
            self.memo[t] = r
        return self.memo[t]

    def frame1(self, t):
        X = self.X
        if t is X:
            return {}
        if t.op == "copy":
            return self.frame(t.a[0])
        if t.op == "store":
            return self.put(self.frame(t.a[0]), t.a[1], t.a[2])
        if t.op == "storeloc" and isinstance(t.a[2], T) and t.a[2] is not NONE:
            return self.partly(self.frame(t.a[0]), t.a[2], t.a[3])
        if t.op == "storeiloc" and t.a[1].op == "tuple" and len(t.a[1].a) == 2:
            r, c = t.a[1].a
            if c.op == "m" and c.a[0] == "get_loc" and c.a[2]:
                d = self.frame(t.a[0])
                if r.op == "slice" and all(x is NONE for x in r.a):
                    return self.put(d, c.a[2][0], t.a[2])
                return self.partly(d, c.a[2][0], t.a[2])
        if t.op == "phi":
            a, b = self.frame(t.a[1]), self.frame(t.a[2])
            if set(a) == set(b) and all(a[k].same(b[k]) for k in a):
                return a
            out = {}
            for k in list(a) + [k for k in b if k not in a]:
                x, y = a.get(k), b.get(k)
                if x is not None and x.same(y):
                    out[k] = x
                else:
                    z = x if x is not None else y
                    out[k] = Col(z.src, mk("partly", z.sel if z.sel is not None else NONE), None, "the column is changed only if %s" % show(t.a[0], 3))
            return out
        if t in self.carried:
            r, pre, post = self.carried[t]
            return self.into(r, pre, t, post)
        if t.op == "loopout" and len(t.a) >= 4:
            it, pre, post, inn = t.a[:4]
            d = dict(self.frame(pre))
            old = self.assume.get(inn)
            self.assume[inn] = d
            try:
                p = self.frame(post)
            finally:
                if old is None:
                    del self.assume[inn]
                else:
                    self.assume[inn] = old
            out = dict(d)
            for k, c in p.items():
                if not c.same(d.get(k)):
                    out[self.outside(k, it)] = c
            return out
        if t.op == "storemap":
            it, pre, k, v = t.a[:4]
            d = self.frame(pre)
            return self.merge(d, {self.outside(x, it): c for x, c in self.put(d, k, v).items() if not c.same(d.get(x))})
        if t.op == "draw" and t.a[1] == "sample" or t.op in ("iloc", "rows", "idx") and self.is_frame(t.a[0]) and unwrap(t.a[1])[0].op == "draw":
            base = (t.a[3][0] if t.a[3] else None) if t.op == "draw" else t.a[0]
            if base is not None and self.is_frame(strip_conv(base)):
                raise Broken("whole rows are reordered, so every column is permuted together")
        if t.op == "m" and t.a[0] in ("sort_values", "drop_duplicates", "dropna", "head", "tail") and self.is_frame(strip_conv(t.a[1])):
            raise Broken("rows are moved or dropped by %s(), so the other columns no longer hold the data" % t.a[0])
        raise Unresolved(show(t, 3))

    def merge(self, d, e):
        out = dict(d)
        out.update(e)
        return out

    def outside(self, k, it):
        """a column key of a loop's body, seen after the loop"""
        if any(x.op == "elem" and x.a[0] is it for x in walk(k)) and k.op != "prev":
            return mk("prev", k)
        return k

    def into(self, rec, pre, inn, post):
        """state at the start of an iteration: before the loop, and what earlier iterations left behind"""
        if inn in self.active:
            raise Unresolved("nested loop state")
        self.active.add(inn)
        try:
            d0 = self.frame(pre)
            self.assume[inn] = d0
            try:
                p = self.frame(post)
            finally:
                del self.assume[inn]
        finally:
            self.active.discard(inn)
        out = dict(d0)
        for k, c in p.items():
            if c.same(d0.get(k)):
                continue
            if any(x.op == "elem" and x.a[0] is rec["it"] for x in walk(k)):
                out[mk("prev", k)] = c
            else:
                out[k] = c
        return out


def frame(t, X, loops=()):
    return Frames(X, loops).frame(t)


def predictions(t):
    """the distinct `predict` terms in t -> (data argument)"""
    out = []
    for x in walk(t):
        if x.op == "m" and x.a[0] in ("predict", "predict_proba") and x.a[2]:
            out.append((x, x.a[2][0]))
    return out
