"""C20: left and right subtrees are treated alike; C26: the unified tree table."""
from .. import query as q
from .. import suites as S
from .. import tables as tb
from .. import pdterms as pd_
from ..terms import (T, mk, const, NONE, TRUE, FALSE, is_const, cval, walk, show, strip_conv, rebuild, subst, mk_phi, mk_not, mk_and,
                     mk_cmp, mk_bin, children, assume, add_fact)
from ..canon import mk_idx, mk_rows

LEFT = {"left_child": "right_child", "children_left": "children_right"}
SWAP = dict(LEFT)
SWAP.update({v: k for k, v in LEFT.items()})
DERIVED = ("parent_gain", "parent_cover", "parent_name", "depth", "interaction")


# ---------------------------------------------------------------- reading tree frames, whatever their version
class Stale(Exception):
    pass


def is_version(f):
    """f is a version of one tree's frame: the group itself, or it after writes"""
    f = strip_conv(f)
    if f.op in ("group", "loopin"):
        return True
    if f.op == "param":
        return True
    if f.op in ("storeloc", "store", "copy"):
        return is_version(f.a[0])
    if f.op == "phi":
        return is_version(f.a[1]) and is_version(f.a[2])
    if f.op in ("loopout", "storemap"):
        return is_version(f.a[1])
    if f.op == "elem":
        return True
    return False


def stored(f, c, k, norm):
    """the value the newest write to column c at rows k put there, or None"""
    f = strip_conv(f)
    while True:
        if f.op == "storeloc":
            b, rows, col, v = f.a
            if col is c:
                return norm(v) if k is not None and norm(rows) is k else None
            f = strip_conv(b)
        elif f.op == "store":
            if f.a[1] is c:
                return None
            f = strip_conv(f.a[0])
        elif f.op == "copy":
            f = f.a[0]
        elif f.op == "phi":
            a, b = stored(f.a[1], c, k, norm), stored(f.a[2], c, k, norm)
            return a if a is b else None
        else:
            return None


class Norm:
    """rewrites reads of tree frames to read(column, rows): the version of the frame does not matter for columns that are
    only read, and a column written just before at the same rows is replaced by what was written"""

    def __init__(self):
        self.memo = {}
        self.stale = []

    def __call__(self, t):
        r = self.memo.get(t)
        if r is None:
            r = self.memo[t] = self.go(t)
        return r

    def read(self, f, c, k):
        cc = c
        if is_const(c) and cval(c) in ("parent_gain", "parent_cover", "parent_name", "interaction"):
            v = stored(f, c, k, self)
            if v is not None:
                return v
        return mk("read", cc, k if k is not None else NONE)

    def scalar(self, t):
        """Series.values[0] / .iloc[0] / .item() of a selected row"""
        return t

    def go(self, t):
        if t.op == "rows":
            b, k = t.a
            if b.op == "idx" and is_const(b.a[1]) and is_version(b.a[0]):
                return self.read(b.a[0], b.a[1], self(k))
            if b.op == "phi" and columnish(b):
                x, y = self(mk("rows", b.a[1], k)), self(mk("rows", b.a[2], k))
                return x if x is y else mk_phi(self(b.a[0]), x, y)
        if t.op == "idx" and is_const(t.a[1]):
            row = row_of(t.a[0])
            if row is not None:
                c = t.a[1]
                if cval(c) == "depth":
                    self.stale.append(t)
                return mk("read", c, row)
            if isinstance(cval(t.a[1]), str) and is_version(t.a[0]):
                return self.read(t.a[0], t.a[1], None)
        if t.op == "attr" and isinstance(t.a[1], str):
            row = row_of(t.a[0])
            if row is not None:
                if t.a[1] == "depth":
                    self.stale.append(t)
                return mk("read", const(t.a[1]), row)
        if t.op == "phi":
            a, b = self(t.a[1]), self(t.a[2])
            if a is b:
                return a
            return mk_phi(self(t.a[0]), a, b)
        return rebuild(t, self)


def columnish(b):
    return b.op == "phi" and all(x.op == "idx" and is_const(x.a[1]) and is_version(x.a[0]) or columnish(x) for x in (b.a[1], b.a[2]))


def row_of(t):
    """t is a row of `frame.iterrows()` / `frame.itertuples()`: the index term it stands for"""
    if t.op == "proj" and t.a[1] == 1 and t.a[0].op == "elem":
        src = strip_conv(t.a[0].a[0])
        if src.op == "m" and src.a[0] == "iterrows":
            return mk("elem", mk("attr", src.a[1], "index"), t.a[0].a[1])
    if t.op == "elem":
        src = strip_conv(t.a[0])
        if src.op == "m" and src.a[0] == "itertuples":
            return mk("elem", mk("attr", src.a[1], "index"), t.a[1])
    return None


def swapped(t, memo=None):
    """the term with left and right exchanged"""
    memo = {} if memo is None else memo

    def go(x):
        r = memo.get(x)
        if r is None:
            if x.op == "const" and isinstance(cval(x), str) and cval(x) in SWAP:
                r = const(SWAP[cval(x)])
            elif x.op == "attr" and x.a[1] in SWAP:
                r = mk("attr", go(x.a[0]), SWAP[x.a[1]])
            else:
                r = rebuild(x, go)
            memo[x] = r
        return r
    return go(t)


OKOPS = {"read", "const", "cmp", "not", "and", "or", "bin", "elem", "idx", "attr", "rows", "phi", "param", "group", "neg", "isnan", "truth",
         "proj", "tuple", "in", "isnone", "loopin", "storeloc", "m", "call", "conv", "isin", "list", "seg", "loopout", "store", "copy", "range", "red",
         "slice", "cols", "bag", "loopin", "dict", "kv", "sum", "pos", "combinations", "iloc", "ext"}


def resolved(t):
    return all(x.op in OKOPS for x in walk(t))


# ---------------------------------------------------------------- C20
def child_writes(it):
    """column writes to rows of a tree, selected through a child link: (effect, mask, column, value, guards, Norm)"""
    out = []
    n = Norm()
    for e in it.run.effects("mutate"):
        if e.how != "setloc" or not isinstance(e.key, T) or e.key.op != "tuple" or len(e.key.a) < 2:
            continue
        col = e.key.a[1]
        if not is_const(col) or cval(col) not in DERIVED:
            continue
        mask = sorted_bags(n(e.key.a[0]))
        val = sorted_bags(n(e.value)) if isinstance(e.value, T) else None
        gs = []
        for g in e.guards:
            if isinstance(g, T):
                g = sorted_bags(n(g))
                gs.extend(g.a if g.op == "and" else (g,))
        out.append((e, mask, cval(col), val, frozenset(x for x in gs if x is not TRUE)))
    return out, n


def links(t):
    return {cval(x) for x in walk(t) if x.op == "const" and isinstance(cval(x), str) and cval(x) in SWAP}


def parent_of(mask):
    """row key i of the read(left_child|right_child, i) inside a mask"""
    ks = {x.a[1] for x in walk(mask) if x.op == "read" and is_const(x.a[0]) and cval(x.a[0]) in SWAP}
    return next(iter(ks)) if len(ks) == 1 else None


def one(t):
    """strip `.values[0]`, `.iloc[0]`, `.item()`"""
    t = strip_conv(t)
    while True:
        if t.op == "idx" and is_const(t.a[1]) and cval(t.a[1]) == 0:
            t = strip_conv(t.a[0])
        elif t.op == "iloc":
            t = strip_conv(t.a[0])
        elif t.op == "attr" and t.a[1] in ("values", "iloc"):
            t = strip_conv(t.a[0])
        elif t.op == "m" and t.a[0] in ("item", "to_numpy", "squeeze"):
            t = strip_conv(t.a[1])
        else:
            return t


def rd(c, k):
    return mk("read", const(c), k)


def want_value(col, i, mask):
    if col == "parent_gain":
        return [rd("gain", i)]
    if col == "parent_cover":
        return [rd("cover", i)]
    if col == "parent_name":
        return [rd("split_feature", i)]
    if col == "depth":
        return [mk_bin("+", rd("depth", i), const(1))]
    return None


def deepone(t):
    """the value with scalar extraction removed everywhere"""
    memo = {}

    def go(x):
        r = memo.get(x)
        if r is None:
            y = one(x)
            r = rebuild(y, go) if y is x else go(y)
            memo[x] = r
        return r
    return go(t)


def interaction_ok(v, i, mask):
    """(gain[i] < gain[child]) and not (feature[child] == feature[i]), strictly; None if not resolved"""
    v = deepone(v)
    gi, gc = rd("gain", i), rd("gain", mask)
    fi, fc = rd("split_feature", i), rd("split_feature", mask)
    want = mk_and(mk_cmp("<", gi, gc), mk_not(mk_cmp("==", fi, fc)))
    if v is want:
        return True
    if set(x for x in walk(v) if x.op == "read") and all(x.op in ("read", "cmp", "and", "or", "not", "const") for x in q.deep(v, lambda x: x.op == "read")):
        return False
    return None


def same_lin(a, b):
    d = pd_.plus(pd_.lin(a), pd_.lin(b), -1)
    return not any(d.values())


def gb_rule(chk, it):
    ws, n = child_writes(it)
    funcs = {}
    for w in ws:
        funcs.setdefault(w[0].func, []).append(w)
    any_child = False
    for fn, ws in sorted(funcs.items()):
        subj = "%s: %s" % (it.name, fn.split(".")[-1])
        kids = [w for w in ws if links(w[1])]
        if not kids:
            continue
        any_child = True
        groups = set((m, c, v, gs) for e, m, c, v, gs in kids)
        memo = {}
        lost = []
        for e, m, c, v, gs in kids:
            sw = lambda z: sorted_bags(swapped(z, memo))
            x = (sw(m), c, sw(v), frozenset(sw(g) for g in gs))
            if x not in groups:
                lost.append((e, m, c, v, gs))
        if not lost:
            chk.good("mirror", subj)
        for e, m, c, v, gs in lost:
            side = "/".join(sorted(links(m)))
            sw = lambda z: sorted_bags(swapped(z, memo))
            other = [w for w in kids if w[2] == c and w[1] is sw(m)]
            if not all(resolved(x) for x in [m, v] + [g for g in gs if not other or g not in other[0][4]]):
                chk.und("mirror", subj, "write of %s for %s not resolved" % (c, side), e.where())
            elif not other:
                chk.bad("mirror", subj, "%s is written for %s only" % (c, side), e.where())
            elif all(w[3] is not sw(v) for w in other):
                chk.bad("mirror", subj, "%s is given different values for the two children" % c, e.where(),
                        this=deepone(v), other=deepone(other[0][3]))
            else:
                chk.bad("mirror", subj, "%s is written for %s under a condition that differs from the other child's" % (c, side), e.where(),
                        this=" and ".join(show(deepone(g), 6) for g in gs if g not in other[0][4]), other=" and ".join(show(deepone(g), 6) for g in other[0][4] if g not in gs))
        for e, m, c, v, gs in kids:
            s2 = "%s: %s of %s" % (subj, c, "/".join(sorted(links(m))))
            i = parent_of(m)
            if i is None or v is None:
                chk.und("parent's values", s2, "parent row not resolved", e.where())
                continue
            leafy = any(x.op == "const" and cval(x) in ("leaf", "split_feature") for t in list(gs) + [m] for x in walk(t))
            looped = any(x.op in ("elem",) and links(x) for x in walk(m))
            if leafy:
                chk.good("splitting child", s2)
            elif all(resolved(t) for t in list(gs) + [m]):
                chk.bad("splitting child", s2, "written without a test that the child splits", e.where())
            else:
                chk.und("splitting child", s2, "guard not resolved", e.where())
            if c == "interaction":
                ok = interaction_ok(v, i, m)
                chk.ob("interaction test", s2, ok, "the interaction flag is %s, not (gain of the parent < gain of the child) and (features differ)" % show(deepone(v), 8), e.where())
                continue
            w = want_value(c, i, m)
            d = deepone(v)
            if any(d is x or same_lin(d, x) for x in w):
                chk.good("parent's values", s2)
            elif all(x.op in ("read", "const", "bin", "cmp", "neg", "not", "and", "or") for x in q.deep(d, lambda x: x.op == "read")):
                chk.bad("parent's values", s2, "the child's %s is set to %s instead of %s" % (c, show(d, 6), show(w[0], 6)), e.where())
            else:
                chk.und("parent's values", s2, "value not resolved: %s" % show(d, 4), e.where())
        for t in n.stale:
            chk.bad("parent's depth", subj, "the depth is read from a row taken before the loop wrote the depths", ws[0][0].where())
        # nodes are visited parents first: the order of the table
        for e in {w[0].loops[-1][0]: w[0] for w in kids if w[0].loops}.values():
            src = strip_conv(e.loops[-1][0])
            order = node_order(src)
            chk.ob("parents first", subj, order, "nodes are visited in an order in which children precede their parents: %s" % show(src, 5), e.where())
    return any_child


def node_order(src, d=0):
    src = strip_conv(src)
    if d > 8:
        return None
    if src.op == "attr" and src.a[1] in ("index", "values"):
        return node_order(src.a[0], d + 1)
    if src.op in ("rows", "copy", "idx"):
        if src.op == "idx" and src.a[1].op == "slice":
            st = src.a[1].a[2] if len(src.a[1].a) > 2 else NONE
            if isinstance(st, T) and is_const(st) and isinstance(cval(st), int) and cval(st) < 0:
                return False
        return node_order(src.a[0], d + 1)
    if src.op in ("group", "param"):
        return True
    if src.op == "call" and src.a[0] in ("reversed",):
        return False
    if src.op == "reversed":
        return False
    if src.op == "m" and src.a[0] in ("iterrows", "itertuples", "tolist", "to_list", "to_numpy", "copy", "query", "reset_index"):
        return node_order(src.a[1], d + 1)
    return None


def resolve_frame(t):
    """idx(DataFrame({... c: v}), c) -> v ; rows(col, ids) kept"""
    memo = {}

    def go(x):
        r = memo.get(x)
        if r is None:
            if x.op == "attr" and isinstance(x.a[1], str) and frame_base(x.a[0]) is not None and dict_get(frame_data(frame_base(x.a[0])), const(x.a[1])) is not None:
                r = go(mk("idx", x.a[0], const(x.a[1])))
            elif x.op == "idx" and is_const(x.a[1]) and x.a[0].op in ("rows", "iloc") and frame_base(x.a[0]) is not None:
                r = go(mk(x.a[0].op, mk("idx", x.a[0].a[0], x.a[1]), *x.a[0].a[1:]))      # a column of some rows: these rows of the column
            elif x.op == "idx" and is_const(x.a[1]) and x.a[0].op in ("copy", "cols") and frame_base(x.a[0]) is not None:
                r = go(mk("idx", x.a[0].a[0], x.a[1]))
            elif x.op == "idx" and is_const(x.a[1]) and x.a[0].op == "call" and x.a[0].a[0] == "pandas.DataFrame":
                d = dict(x.a[0].a[2]).get("data") if x.a[0].a[2] else None
                if d is None and x.a[0].a[1]:
                    d = x.a[0].a[1][0]
                v = dict_get(d, x.a[1])
                r = go(v) if v is not None else rebuild(x, go)
            elif x.op in ("call", "m") and fname(x) in ("numpy.hstack", "numpy.concatenate", "numpy.append", "concat", "numpy.r_"):
                r = bag(x, go)
            else:
                r = rebuild(x, go)
            memo[x] = r
        return r
    return go(t)


def frame_base(t):
    while t.op in ("rows", "iloc", "copy", "cols"):
        t = t.a[0]
    return t if t.op == "call" and t.a[0] == "pandas.DataFrame" else None


def frame_data(b):
    return dict(b.a[2]).get("data") or (b.a[1][0] if b.a[1] else None)


def fname(x):
    return x.a[0]


def dict_get(d, k):
    if d is None:
        return None
    d = strip_conv(d)
    if d.op == "dict":
        for e in d.a:
            if isinstance(e, tuple) and e[0] is k:
                return e[1]
            if isinstance(e, T) and e.op == "kv" and e.a[0] is k:
                return e.a[1]
    return None


def bag(x, go):
    args = x.a[1] if x.op == "call" else x.a[2]
    kw = dict(x.a[2] if x.op == "call" else x.a[3])
    parts = []
    src = list(args) if args else [v for k, v in kw.items() if k in ("tup", "arrays", "objs")]
    for p in src:
        p0 = strip_conv(p)
        if p0.op in ("tuple", "list"):
            parts += [y for y in p0.a if isinstance(y, T)]
        else:
            parts.append(p)
    return mk("bag", *sorted((go(p) for p in parts), key=lambda z: z.n))


def side(t, memo=None):
    return {x.a[1] for x in walk(t) if x.op == "attr" and x.a[1] in SWAP} | {cval(x) for x in walk(t) if x.op == "const" and isinstance(cval(x), str) and cval(x) in SWAP}


def sorted_bags(t):
    memo = {}

    def go(x):
        r = memo.get(x)
        if r is None:
            r = rebuild(x, go)
            if r.op in ("bag", "list", "tuple") and len(r.a) > 1 and all(isinstance(z, T) for z in r.a):
                r = mk(r.op, *sorted(r.a, key=lambda z: z.n))
            memo[x] = r
        return r
    return go(t)


def cmd_rule(chk, it):
    done = False
    for rec in it.run.loops:
        for k, (pre, post) in rec.get("snap", {}).items():
            if post is None or k[0] != "var":
                continue
            if not any(x.op == "loopin" and x.a[0] == rec["uid"] and x.a[1] == k[2] for x in walk(post)):
                continue
            t = resolve_frame(post)
            s = side(t)
            lev = mk("loopin", rec["uid"], k[2])
            if not s or not any(x.op in ("rows", "idx", "iloc") and isinstance(x.a[1], T) and x.a[1] is lev and side(x.a[0]) for x in walk(t)):
                continue
            done = True
            wh = "%s:%s (%s)" % tuple(rec["where"])
            subj = "%s: %s" % (it.name, rec["func"].split(".")[-1])
            if sorted_bags(swapped(t)) is sorted_bags(t):
                chk.good("mirror", subj)
            elif all(x.op in OKOPS and not (x.op == "call" and x.a[0] == "pandas.DataFrame") for x in walk(t)):
                chk.bad("mirror", subj, "the next level of nodes is %s: not symmetric in the two children" % show(t, 7), wh)
            else:
                chk.und("mirror", subj, "next level not resolved (%s): %s" % (sorted({x.op for x in walk(t)} - OKOPS), show(t, 5)), wh)
            for x in walk(t):
                if x.op == "rows" and x.a[1].op in ("cmp", "not"):
                    f = level_filter(x.a[1])
                    chk.ob("next level", subj, f, "children are kept only if %s" % show(x.a[1], 5), wh)
            depth_rule(chk, it, rec, k[2], subj, wh)
    return done


def level_filter(c):
    """the filter drops exactly the missing children (-1)"""
    neg = False
    if c.op == "not":
        neg, c = True, c.a[0]
    if c.op != "cmp":
        return None
    op, a, b = c.a
    if is_const(a) and not is_const(b):
        v = cval(a)
        if op == "<=" and not neg:
            return v in (0, 1) or False
        if op == "<" and not neg:
            return v in (-1, 0) or False
        if op == "==" and neg:
            return v == -1 or False
        return None
    if is_const(b):
        v = cval(b)
        if op == "<" and neg:
            return v in (0, 1) or False
        if op == "<=" and neg:
            return v in (-1, 0) or False
        if op == "==" and neg:
            return v == -1 or False
    return None


def depth_rule(chk, it, rec, level, subj, wh):
    uid = rec["uid"]
    lev = mk("loopin", uid, level)
    found = False
    for k, r in rec["vars"].items():
        if k[0] != "cell" or not isinstance(r, (list, tuple)) or r[0] != "term":
            continue
        post = r[3]
        if not isinstance(post, T) or post.op != "store" or not any(x is lev for x in walk(post.a[1])):
            continue
        val = post.a[2]
        ctr = [x for x in walk(val) if x.op == "loopin" and x.a[0] == uid]
        m0, m1 = {}, {}
        for c in ctr:
            for kk, (a, b) in rec["snap"].items():
                if kk[0] == "var" and kk[2] == c.a[1] and a is not None and b is not None:
                    m0[c], m1[c] = a, b
        if len(m0) != len(set(ctr)) or not ctr:
            if not ctr:
                chk.bad("depth of a level", subj, "every level is given the depth %s" % show(val, 4), wh)
                found = True
            continue
        found = True
        first = subst(val, m0)
        step = pd_.plus(pd_.lin(subst(val, m1)), pd_.lin(val), -1)
        step = {kk: v for kk, v in step.items() if v}
        st = None if any(kk is not None and kk != 1 and kk is not const(1) for kk in step) else list(step.values())
        if is_const(first):
            chk.ob("depth of a level", subj + ": root", cval(first) == 0, "the root is given depth %s" % show(first), wh)
        else:
            chk.und("depth of a level", subj + ": root", "depth of the root not resolved", wh)
        if st is None:
            chk.und("depth of a level", subj + ": step", "not resolved", wh)
        else:
            chk.ob("depth of a level", subj + ": step", st == [1], "the depth grows by %s from one level to the next" % (st[0] if st else 0), wh)
    if not found:
        chk.und("depth of a level", subj, "no depth write found", wh)


def check_C20(chk):
    """Mirror analysis.  Column writes to a child's row of a boosted tree are normalised to (row mask, column, value, guards)
    with frame versions erased; the set of writes has to be invariant under exchanging the left and the right child link, the
    written values have to be the parent's gain, cover, feature, depth + 1 and the strict interaction test, guarded by the child
    being a split, and nodes have to be visited parents first.  For forests the transition of the breadth first search to the
    next level has to be symmetric in the two children, and the written depth an affine counter 0, 1, 2, ..."""
    items = [S.fit_item(chk, "split", {}, pkg=p) for p in ("xgboost", "lightgbm")] + [S.fit_item(chk, "imp_split", {}, pkg="xgboost")]
    if chk.thorough:
        items += [S.fit_item(chk, "split", {}), S.fit_item(chk, "imp_split", {})]
    for it in items:
        if it is None:
            continue
        r = chk.guard("mirror", it.name, gb_rule, chk, it)
        if r is False:
            chk.und("mirror", it.name, "no per-child column writes found")
    it = S.fit_item(chk, "cmd", {})
    if it is not None:
        r = chk.guard("mirror", it.name, cmd_rule, chk, it)
        if r is False:
            chk.und("mirror", it.name, "no level-by-level traversal found")


# ---------------------------------------------------------------- C26
LIB = {
    "xgboost": ["Tree", "Node", "ID", "Feature", "Split", "Yes", "No", "Missing", "Gain", "Cover", "Category"],
    "lightgbm": ["tree_index", "node_depth", "node_index", "left_child", "right_child", "parent_index", "split_feature", "split_gain",
                 "threshold", "decision_type", "missing_direction", "missing_type", "value", "weight", "count"],
}
ORIGIN = {
    "xgboost": {"tree": "Tree", "node": "Node", "ID": "ID", "split_feature": "Feature", "gain": "Gain", "cover": "Cover"},
    "lightgbm": {"tree": "tree_index", "ID": "node_index", "split_feature": "split_feature", "gain": "split_gain"},
}
KIDS = {"xgboost": {"Yes", "No"}, "lightgbm": {"left_child", "right_child"}}
NEED = {  # columns of the unified table the two consumers need, whatever they happen to read
    "xgboost": ["tree", "node", "ID", "split_feature", "left_child", "right_child", "gain", "cover", "leaf", "depth"],
    "lightgbm": ["tree", "ID", "split_feature", "left_child", "right_child", "gain", "cover", "leaf", "depth"],
}
# columns whose values are missing exactly at leaves
LEAFNULL = {"xgboost": {"Split", "Yes", "No", "Missing"}, "lightgbm": {"split_feature", "left_child", "right_child", "split_gain", "threshold", "decision_type", "missing_direction", "missing_type"}}


class Missing(Exception):
    """a column that does not exist is asked for"""

    def __init__(self, msg, maybe=False):
        Exception.__init__(self, msg)
        self.maybe = maybe


class Unknown(Exception):
    pass


def strs(t):
    """python list of the strings of a list/tuple/const term"""
    t = strip_conv(t)
    if is_const(t):
        v = cval(t)
        if isinstance(v, str):
            return [v]
        if isinstance(v, (tuple, list)) and all(isinstance(x, str) for x in v):
            return list(v)
        raise Unknown(show(t, 3))
    if t.op in ("list", "tuple"):
        out = []
        for x in t.a:
            if not isinstance(x, T) or not is_const(x):
                raise Unknown(show(t, 3))
            out.append(cval(x))
        return out
    raise Unknown(show(t, 3))


def strdict(t):
    t = strip_conv(t)
    if t.op != "dict":
        raise Unknown(show(t, 3))
    out = {}
    for e in t.a:
        k, v = (e if isinstance(e, tuple) else e.a) if not (isinstance(e, T) and e.op != "kv") else (None, None)
        if k is None or not is_const(k) or not is_const(v):
            raise Unknown(show(t, 3))
        out[cval(k)] = cval(v)
    return out


class Cols:
    """column sets: colset(frame term) -> ordered {column: (certain?, origin)}; origin is a library column name or a term"""

    def __init__(self, base, run=None):
        self.base = base            # {term: {column: (True, origin)}}
        self.memo = {}
        self.loops = {}
        if run is not None:
            for rec in run.loops:
                for k, r in rec["vars"].items():
                    if isinstance(r, (list, tuple)) and r and r[0] == "term" and isinstance(r[2], T):
                        self.loops[r[2]] = (r[1], r[3])

    def __call__(self, t):
        t = strip_conv(t)
        r = self.memo.get(t)
        if r is None:
            self.memo[t] = Unknown("recursive")
            try:
                r = self.go(t)
            except (Missing, Unknown) as ex:
                r = ex
            self.memo[t] = r
        if isinstance(r, Exception):
            raise r
        return r

    def added(self, t, stop):
        """columns that some write inside t adds"""
        out = {}
        for x in walk(t):
            if x.op == "storeloc" and is_const(x.a[2]):
                out[cval(x.a[2])] = (False, x.a[3])
            elif x.op == "store" and is_const(x.a[1]) and isinstance(cval(x.a[1]), str):
                out[cval(x.a[1])] = (False, x.a[2])
        return out

    def kw(self, t, name, pos=None):
        kw = dict(t.a[3])
        if name in kw:
            return kw[name]
        if pos is not None and len(t.a[2]) > pos:
            return t.a[2][pos]
        return None

    def go(self, t):
        b = self.base.get(t)
        if b is not None:
            return b
        if t.op in ("rows", "copy", "iloc"):
            return self(t.a[0])
        if t.op == "group":
            return self(group_base(t.a[0]))
        if t.op == "phi":
            x, y = self(t.a[1]), self(t.a[2])
            k = t.a[0]
            if k.op == "in" and isinstance(k.a[0], T) and is_const(k.a[0]) and cval(k.a[0]) in x and contains_columns(k.a[1]):
                x = dict(x)
                x[cval(k.a[0])] = (True, x[cval(k.a[0])][1])
            out = {}
            for c in list(x) + [c for c in y if c not in x]:
                a, b_ = x.get(c), y.get(c)
                if a and b_:
                    out[c] = (a[0] and b_[0], a[1] if a[1] is b_[1] or a[1] == b_[1] else None)
                else:
                    out[c] = (False, (a or b_)[1])
            return out
        if t.op == "store" and is_const(t.a[1]):
            d = dict(self(t.a[0]))
            d[cval(t.a[1])] = (True, t.a[2])
            return d
        if t.op == "storeloc" and is_const(t.a[2]):
            d = dict(self(t.a[0]))
            c = cval(t.a[2])
            d[c] = (True, None)
            return d
        if t.op == "loopin" and t in self.loops:
            pre, post = self.loops[t]
            return self.looped(pre, post)
        if t.op == "loopout":
            return self.looped(t.a[1], t.a[2])
        if t.op == "cols":
            d = self(t.a[0])
            want = strs(t.a[1]) if isinstance(t.a[1], T) else [cval(x) if isinstance(x, T) else x for x in t.a[1]]
            return {c: d.get(c, (False, None)) for c in want}
        if t.op == "m":
            return self.method(t)
        if t.op == "call" and isinstance(t.a[0], str) and t.a[0].startswith("pandas.DataFrame"):
            r = tb.records(t)
            if r is not None and r.row is not None and all(isinstance(c, str) for c in r.row):
                return {c: (True, v) for c, v in r.row.items()}
            c = dict(t.a[2]).get("columns")
            if c is not None:
                return {x: (True, None) for x in strs(c)}
        if t.op == "call" and t.a[0] == "pandas.concat":
            o = dict(t.a[2]).get("objs") or (t.a[1][0] if t.a[1] else None)
            o = strip_conv(o) if o is not None else None
            ax = dict(t.a[2]).get("axis")
            if o is not None and (ax is None or is_const(ax) and cval(ax) in (0, "index")):
                fs = [o.a[1]] if o.op == "map" else list(o.a) if o.op in ("list", "tuple") and all(x.op != "seg" for x in o.a) else None
                if o.op == "list" and len(o.a) == 1 and o.a[0].op == "seg" and o.a[0].a[0] == "map":
                    fs = list(o.a[0].a[2]) if isinstance(o.a[0].a[2], tuple) else [o.a[0].a[2]]
                if fs:
                    ds = [self(f) for f in fs]
                    return {c: (any(d.get(c, (False,))[0] for d in ds), None) for d in ds for c in d}
            if o is not None and ax is not None and is_const(ax) and cval(ax) in (1, "columns") and o.op in ("list", "tuple") and all(x.op != "seg" for x in o.a):
                out = {}
                for f in o.a:
                    f = strip_conv(f)
                    nm = dict(f.a[2]).get("name") if f.op == "call" and f.a[0] == "pandas.Series" else None
                    if nm is not None and is_const(nm):
                        out[cval(nm)] = (True, f)
                    else:
                        out.update(self(f))
                return out
        raise Unknown(show(t, 3))

    def looped(self, pre, post):
        d = dict(self(pre))
        for c, v in self.added(post, None).items():
            if c not in d:
                d[c] = v
            else:
                d[c] = (d[c][0], None)
        return d

    def method(self, t):
        name, recv = t.a[0], t.a[1]
        if name == "rename":
            m = self.kw(t, "columns")
            if m is None:
                m = self.kw(t, "mapper", 0)
            d = self(recv)
            m = strdict(m)
            return {m.get(c, c): v for c, v in d.items()}
        if name == "drop":
            d = dict(self(recv))
            ks = strs(self.kw(t, "columns") or self.kw(t, "labels", 0))
            er = self.kw(t, "errors")
            for k in ks:
                if k not in d:
                    if er is None or not (is_const(er) and cval(er) == "ignore"):
                        raise Missing("drop of column %r, which the table does not have" % k)
                else:
                    del d[k]
            return d
        if name in ("sort_values", "copy", "head", "query", "fillna", "drop_duplicates", "sort_index", "dropna", "reset_index", "astype", "round"):
            if name == "reset_index" and not (self.kw(t, "drop", 1) is TRUE):
                d = self(recv)
                return dict(getattr(self, "_", {}), **{**{c: (True, None) for c in self.index(recv)}, **d})
            return self(recv)
        if name == "reindex":
            c = self.kw(t, "columns")
            if c is not None:
                d = self(recv)
                return {x: (True, d.get(x, (True, None))[1]) for x in strs(c)}
            return self(recv)
        if name in ("apply", "progress_apply") and group_source(recv) is not None:
            f = self.kw(t, "func", 0)
            if f is not None and f.op == "lam":
                return self(f.a[1]) if isinstance(f.a[1], T) else self(f.a[-1])
            raise Unknown(show(t, 3))
        if name == "agg" and group_source(recv) is not None:
            d = self(group_source(recv))
            out = {}
            for k, v in t.a[3]:
                if v.op == "tuple" and is_const(v.a[0]):
                    need(d, cval(v.a[0]), "aggregated")
                    out[k] = (True, v)
            f = dict(t.a[3]).get("func") or (t.a[2][0] if t.a[2] else None)
            if f is not None:
                f = strip_conv(f)
                if f.op != "dict":
                    raise Unknown(show(t, 3))
                for k, v in f.a:
                    if not isinstance(k, T) or not is_const(k):
                        raise Unknown(show(t, 3))
                    need(d, cval(k), "aggregated")
                    out[cval(k)] = (True, v)
            return out
        if name in ("join", "merge"):
            o = self.kw(t, "other", 0) if name == "join" else self.kw(t, "right", 0)
            a, b = self(recv), self(o)
            return {**b, **a}
        if name == "set_index":
            d = dict(self(recv))
            for k in strs(self.kw(t, "keys", 0)):
                need(d, k, "used as index")
                d.pop(k)
            return d
        if name == "replace":
            return self(recv)
        if name == "assign":
            d = dict(self(recv))
            for k, v in t.a[3]:
                d[k] = (True, v)
            return d
        raise Unknown(show(t, 3))

    def index(self, t):
        """names of the index levels that reset_index turns into columns"""
        t = strip_conv(t)
        if t in self.base:
            return []
        if t.op == "m" and group_source(t.a[1]) is not None:
            by = self.kw(group_source_call(t.a[1]), "by", 0)
            if by is None:
                raise Unknown(show(t, 3))
            return strs(by)
        if t.op == "m" and t.a[0] == "set_index":
            return strs(self.kw(t, "keys", 0))
        if t.op == "m" and t.a[0] == "reset_index":
            return []
        if t.op == "m" and t.a[0] in ("rename", "sort_values", "copy", "head", "query", "fillna", "drop_duplicates", "sort_index", "dropna", "astype",
                                      "round", "join", "assign", "replace", "drop", "reindex"):
            return self.index(t.a[1])
        if t.op in ("rows", "copy", "store", "storeloc", "cols", "iloc"):
            return self.index(t.a[0])
        if t.op == "phi":
            return list(dict.fromkeys(self.index(t.a[1]) + self.index(t.a[2])))
        if t.op == "loopout":
            return self.index(t.a[1])
        if t.op == "loopin" and t in self.loops:
            return self.index(self.loops[t][0])
        if t.op == "call" and t.a[0] == "pandas.concat":
            o = dict(t.a[2]).get("objs") or (t.a[1][0] if t.a[1] else None)
            o = strip_conv(o) if o is not None else None
            if o is not None and o.op in ("list", "tuple") and all(x.op != "seg" for x in o.a):
                out = []
                for x in o.a:
                    x = strip_conv(x)
                    if x.op == "call" and x.a[0] == "pandas.Series":
                        continue
                    out += [c for c in self.index(x) if c not in out]
                return out
        if t.op == "call" and isinstance(t.a[0], str) and t.a[0].startswith("pandas.DataFrame") and "index" not in dict(t.a[2]):
            return []
        raise Unknown(show(t, 3))


def group_source_call(t):
    return strip_conv(t)


def contains_columns(t):
    t = strip_conv(t)
    return t.op == "attr" and t.a[1] == "columns" or t.op in ("param", "m", "store", "storeloc", "copy", "phi")


def group_source(t):
    t = strip_conv(t)
    if t.op == "m" and t.a[0] == "groupby":
        return t.a[1]
    return None


def group_base(t):
    return group_source(t) or t


def need(d, c, how):
    if c not in d:
        raise Missing("column %r is %s, but the table does not have it" % (c, how))
    if not d[c][0]:
        raise Missing("column %r is %s, but it only exists if some tree has nested splits" % (c, how), True)


def pkg_facts(t, pkg, flag):
    """facts about the model class for a library: package comparisons and attribute tests (flag: the scikit-learn wrapper)"""
    facts = {}
    for x in walk(t):
        if x.op == "cmp" and x.a[0] == "==":
            for a in (x.a[1], x.a[2]):
                if is_const(a) and cval(a) in LIB:
                    facts = add_fact(facts, x, cval(a) == pkg)
        elif x.op == "hasattr":
            nm = x.a[1] if isinstance(x.a[1], str) else cval(x.a[1]) if isinstance(x.a[1], T) and is_const(x.a[1]) else None
            own = {"xgboost": "get_booster", "lightgbm": "booster_"}[pkg]
            if nm in ("get_booster", "booster_"):
                facts = add_fact(facts, x, flag and nm == own and x.a[0].op == "param")
        elif x.op == "in" and isinstance(x.a[0], T) and is_const(x.a[0]) and cval(x.a[0]) in LIB:
            facts = add_fact(facts, x, cval(x.a[0]) == pkg)
        elif x.op == "m" and x.a[0] in ("startswith", "endswith") and x.a[2] and is_const(x.a[2][0]):
            v = cval(x.a[2][0])
            hit = [l for l in LIB if isinstance(v, str) and l.startswith(v.rstrip("."))]
            if hit:
                facts = add_fact(facts, x, pkg in hit)
    return facts


def null_facts(terms, pkg, P):
    """whether the depth column of the unified table has missing values"""
    facts = {}
    for t in terms:
        for x in walk(t):
            if x.op == "red" and x.a[0] in ("any", "all") or x.op == "m" and x.a[0] in ("any", "all"):
                y = x.a[1]
                isn = [z for z in walk(y) if z.op == "m" and z.a[0] in ("isnull", "isna", "notnull", "notna") or z.op == "isnan" or z.op == "call" and z.a[0] in ("pandas.isnull", "pandas.isna")]
                cols = [z for z in walk(y) if z.op == "idx" and is_const(z.a[1]) and z.a[0] is P]
                if isn and cols and all(cval(z.a[1]) == "depth" for z in cols):
                    neg = any(z.op == "m" and z.a[0].startswith("not") for z in isn) != any(z.op == "not" for z in walk(y))
                    facts = add_fact(facts, x, (pkg == "xgboost") != neg)
    return facts


def is_lib_table(t):
    t = strip_conv(t)
    return t.op == "m" and t.a[0] == "trees_to_dataframe"


def handler_rule(chk, it):
    """the unified table per library: {pkg: {column: (certain, origin)}}"""
    out = {}
    tdf = q.fields(it).get("trees_df")
    wh = next((e.where() for e in it.run.effects("ext") if e.name.endswith("trees_to_dataframe")), "")
    for pkg in LIB:
        subj = "GBTreesHandler: %s" % pkg
        if tdf is None:
            chk.und("columns", subj, "trees_df not found")
            continue
        seen = {}
        for flag in (True, False):
            for _, leaf in q.phi_leaves(assume(tdf, pkg_facts(tdf, pkg, flag)), 60):
                seen[leaf] = 1
                if flag:
                    raw = [x for x in walk(leaf) if is_lib_table(x) and strip_conv(x).a[1].op == "param"]
                    chk.ob("scikit-learn wrapper", subj, not raw, "trees_to_dataframe is called on the scikit-learn wrapper, which has no such method", wh)
        sets = []
        for leaf in seen:
            base = {x: {c: (True, c) for c in LIB[pkg]} for x in walk(leaf) if is_lib_table(x)}
            if not base:
                chk.und("columns", subj, "not built from trees_to_dataframe: %s" % show(leaf, 3), wh)
                continue
            C = Cols(base, it.run)
            try:
                d = C(leaf)
            except Missing as ex:
                chk.bad("columns", subj, str(ex), wh)
                continue
            except Unknown as ex:
                chk.und("columns", subj, "columns not resolved: %s" % ex, wh)
                continue
            sets.append(d)
            for c in NEED[pkg]:
                chk.ob("columns", "%s: %s" % (subj, c), c in d and d[c][0], "the unified table has no column %r" % c, wh)
                o = ORIGIN[pkg].get(c)
                if o is not None and c in d and isinstance(d[c][1], str):
                    chk.ob("columns", "%s: %s from the library's %s" % (subj, c, o), d[c][1] == o, "column %r holds the library's %r instead of %r" % (c, d[c][1], o), wh)
            ks = [d[c][1] for c in ("left_child", "right_child") if c in d and isinstance(d[c][1], str)]
            if len(ks) == 2:
                chk.ob("columns", "%s: children" % subj, set(ks) == KIDS[pkg], "the child columns hold %s" % ks, wh)
            if "leaf" in d:
                ok, why = leaf_flag(d["leaf"][1], C, pkg)
                chk.ob("leaves flagged", subj, ok, why, wh)
            if "depth" in d:
                ok, why = depth_col(d["depth"][1], C, pkg)
                chk.ob("depth", subj, ok, why, wh)
        if sets:
            d = sets[0]
            for e in sets[1:]:
                d = {c: v for c, v in d.items() if c in e}
            out[pkg] = d
    return out


def lib_origin(t, C):
    """library column a term reads"""
    t = strip_conv(t)
    while t.op == "attr" and t.a[1] in ("values", "array") or t.op == "m" and t.a[0] in ("to_numpy", "copy", "astype"):
        t = strip_conv(t.a[0] if t.op == "attr" else t.a[1])
    if t.op == "idx" and is_const(t.a[1]):
        try:
            v = C(t.a[0]).get(cval(t.a[1]))
        except (Missing, Unknown):
            return None
        if v is None:
            return None
        return v[1] if isinstance(v[1], str) else lib_origin(v[1], C) if isinstance(v[1], T) else None
    return None


def leaf_flag(v, C, pkg):
    if not isinstance(v, T):
        return (False, "the leaf column is the library's %r" % v) if isinstance(v, str) else (None, "not resolved")
    neg = False
    while v.op == "not":
        neg, v = not neg, v.a[0]
    if v.op == "isnan" or v.op == "m" and v.a[0] in ("isnull", "isna") or v.op == "m" and v.a[0] in ("notnull", "notna") or \
            v.op == "call" and v.a[0] in ("pandas.isnull", "pandas.isna", "pandas.notnull", "pandas.notna"):
        nm = v.a[0] if v.op in ("m", "call") else ""
        if isinstance(nm, str) and "not" in nm:
            neg = not neg
        src = v.a[1] if v.op == "m" else (v.a[1][0] if v.a[1] else v.a[2][0][1]) if v.op == "call" else v.a[0]
        o = lib_origin(src, C)
        if o is None:
            return None, "not resolved: %s" % show(v, 4)
        if o in LEAFNULL[pkg] and not neg:
            return True, ""
        return False, "a node counts as a leaf if its %s is %smissing" % (o, "not " if neg else "")
    if v.op == "cmp" and v.a[0] == "==":
        for a, b in ((v.a[1], v.a[2]), (v.a[2], v.a[1])):
            o = lib_origin(b, C)
            if is_const(a) and o is not None:
                if pkg == "xgboost" and o == "Feature" and cval(a) == "Leaf" and not neg:
                    return True, ""
                if a is NONE and not neg and o in LEAFNULL[pkg] and pkg == "lightgbm":
                    if b.op == "idx":
                        return False, "a Series compared with None by == is False everywhere: no leaf is flagged"
                    return True, ""
                return False, "a node counts as a leaf if its %s %s %r" % (o, "differs from" if neg else "equals", cval(a))
    if v.op == "or" and not neg:
        rs = [(x, leaf_flag(x, C, pkg)) for x in v.a]
        if all(r[0] is True for _, r in rs):
            return True, ""
        for x, r in rs:
            # a test of another number on top: split nodes that happen to have it are taken for leaves
            if r[0] is False and x.op == "cmp" and any(is_const(y) and isinstance(cval(y), (int, float)) for y in x.a[1:]):
                return False, "also " + r[1]
    if v.op == "isnone" or is_const(v):
        return (False, "the leaf column is the constant %s" % show(v)) if is_const(v) else (None, "not resolved: %s" % show(v, 4))
    return None, "not resolved: %s" % show(v, 4)


def per_case(f, v, C, pkg):
    """the verdict of a value that differs from case to case"""
    rs = [f(x, C, pkg) for _, x in q.phi_leaves(v)]
    bad = [r for r in rs if r[0] is False]
    if bad:
        return False, "in some cases " + bad[0][1]
    return (True, "") if all(r[0] is True for r in rs) else next(r for r in rs if r[0] is not True)


def depth_col(v, C, pkg):
    if isinstance(v, T) and v.op == "phi":
        return per_case(depth_col, v, C, pkg)
    if isinstance(v, T) and v.op != "bin" and lib_origin(v, C) == "node_depth" and pkg != "xgboost":
        return False, "the depth is the library's node_depth, in which the root is not 0"
    if pkg == "xgboost":
        if isinstance(v, T) and is_const(v):
            if v is NONE or v.a[0] != v.a[0]:
                return True, ""
            return False, "every node is given depth %s, so no depth is ever computed" % show(v)
        return None, "not resolved"
    if isinstance(v, str):
        return False, "the depth is the library's %s, in which the root is not 0" % v
    if not isinstance(v, T):
        return None, "not resolved"
    l = pd_.lin(v)
    k, atoms = 0, []
    for a, c in l.items():
        if a is None or a == 1 or isinstance(a, T) and is_const(a):
            k += c
        elif isinstance(a, T) and a.op == "red" and a.a[0] == "min" and lib_origin(a.a[1], C) == "node_depth":
            k += c                                 # every tree has a root, at node_depth 1
        else:
            atoms.append((a, c))
    if len(atoms) == 1 and atoms[0][1] == 1 and lib_origin(atoms[0][0], C) == "node_depth":
        return k == -1, "the depth is node_depth %+d: the root (node_depth 1) is not at depth 0" % k
    return None, "not resolved: %s" % show(v, 4)


def reads_rule(chk, it, pkg, unified):
    """every column read from the unified table, or a table derived from it, exists for this library"""
    P = q.param("trees_df", "frame")
    if P is None:
        return
    base = dict(unified)
    C = Cols({P: base}, it.run)
    terms = {}
    for n, t in q.results(it).items():
        terms.setdefault(t, "")
    for e in it.run.log:
        for nm in ("key", "value", "result"):
            t = getattr(e, nm, None)
            if isinstance(t, T):
                terms.setdefault(t, e.where())
        for t in e.guards:
            if isinstance(t, T):
                terms.setdefault(t, e.where())
        for t in getattr(e, "args", None) or ():
            if isinstance(t, T):
                terms.setdefault(t, e.where())
    seen = set()
    n = 0
    bad = set()
    facts = null_facts(terms, pkg, P)
    dead = set()
    for e in it.run.log:
        if q.guard_under([g for g in e.guards if isinstance(g, T)], facts) is None:
            dead.add(e.where())
    for t, wh in terms.items():
        if wh in dead:
            continue
        t = assume(t, facts)
        for x in walk(t, seen):
            try:
                fr = None
                if x.op == "idx" and is_const(x.a[1]) and isinstance(cval(x.a[1]), str):
                    fr, cs, how = x.a[0], [cval(x.a[1])], "read"
                elif x.op == "cols":
                    fr = x.a[0]
                    cs = strs(x.a[1]) if isinstance(x.a[1], T) else [cval(y) for y in x.a[1] if isinstance(y, T) and is_const(y)]
                    how = "selected"
                elif x.op == "m" and x.a[0] == "groupby":
                    fr, cs, how = x.a[1], strs(C.kw(x, "by", 0)), "grouped by"
                elif x.op == "m" and x.a[0] == "sort_values":
                    fr, cs, how = x.a[1], strs(C.kw(x, "by", 0)), "sorted by"
                elif x.op == "m" and x.a[0] in ("drop", "agg"):
                    fr, cs, how = x, [], "used"
                elif x.op == "attr" and isinstance(x.a[1], str) and x.a[1] in ("gain", "depth", "cover", "leaf", "tree", "node", "split_feature", "interaction"):
                    fr, cs, how = x.a[0], [x.a[1]], "read"
                if fr is None:
                    continue
                d = C(fr)
                n += 1
                for c in cs:
                    need(d, c, how)
            except Missing as ex:
                if str(ex) not in bad:
                    bad.add(str(ex))
                    chk.bad("columns read", "%s" % it.name, str(ex), wh or next(iter(terms.values()), ""))
            except Unknown:
                continue
    if not bad:
        chk.ob("columns read", it.name, True if n else None, "no column read found")
    chk.count("column reads", n)


def root_rule(chk, it):
    """xgboost: the root, and nothing else, gets depth 0 before its children read it"""
    n = Norm()
    fn = {}
    for e in it.run.effects("mutate"):
        if e.how == "setloc" and isinstance(e.key, T) and e.key.op == "tuple" and len(e.key.a) > 1 and is_const(e.key.a[1]) and cval(e.key.a[1]) == "depth":
            fn.setdefault(e.func, []).append(e)
    for f, es in sorted(fn.items()):
        subj = "%s: %s" % (it.name, f.split(".")[-1])
        roots = [e for e in es if not links(n(e.key.a[0]))]
        if not roots:
            chk.und("root depth", subj, "no write of the root's depth found")
            continue
        for e in roots:
            v = e.value
            if not is_const(v):
                chk.und("root depth", subj, "depth of the root not resolved", e.where())
                continue
            if cval(v) != 0 or isinstance(cval(v), bool):
                chk.bad("root depth", subj, "the root is given depth %r" % cval(v), e.where())
                continue
            gs = [n(g) for g in e.guards if isinstance(g, T)] + [n(e.key.a[0])]
            eq = [x for g in gs for x in walk(g) if x.op == "cmp" and x.a[0] == "==" and any(y.op == "read" and cval(y.a[0]) == "node" for y in walk(x) if y.op == "read" and is_const(y.a[0]))]
            if eq and all(any(is_const(y) and cval(y) == 0 for y in (x.a[1], x.a[2])) for x in eq):
                chk.good("root depth", subj)
            elif eq:
                chk.bad("root depth", subj, "depth 0 is given to nodes with %s" % show(eq[0], 5), e.where())
            else:
                chk.und("root depth", subj, "which node is the root is not resolved", e.where())


def check_C26(chk):
    """Column-set flow: the columns of trees_to_dataframe of each installed library are pushed through the renames, drops and
    writes of the handler; the result has to contain the unified columns with the right origin, a leaf flag that holds exactly at
    leaves and a root depth of 0.  Every column that split score interactions and importance read from the table, or from a
    table derived from it, has to be there for every model: a column that only a nested split creates is not."""
    h = S.handler_item(chk)
    uni = {}
    if h is not None:
        uni = chk.guard("columns", h.name, handler_rule, chk, h) or {}
    for pkg in LIB:
        base = uni.get(pkg)
        if base is None:
            base = {c: (True, None) for c in NEED[pkg]}
        base = {c: (True, None) for c in base}
        for it in (S.fit_item(chk, "split", {}, pkg=pkg), S.fit_item(chk, "imp_split", {}, pkg=pkg)):
            if it is None:
                continue
            chk.guard("columns read", it.name, reads_rule, chk, it, pkg, base)
            if pkg == "xgboost":
                chk.guard("root depth", it.name, root_rule, chk, it)
