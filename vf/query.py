"""Term queries shared by the rules."""
from .terms import (T, mk, const, NONE, TRUE, FALSE, is_const, cval, walk, contains, rebuild, subst, assume, add_fact, show,
                    strip_conv, children, mk_not, mk_and, mk_phi)


def param(name, ty=None):
    """the interned parameter term called name, or None"""
    for ty in ((ty,) if ty else ("num", "str", "bool", "frame", "any", "list", "model", "func", "dict", "tuple", "array", "series")):
        t = T._tab.get(("param", (name, ty)))
        if t is not None:
            return t
    return None


def params_in(t, cache={}):
    r = cache.get(t)
    if r is None:
        r = cache[t] = frozenset(x.a[0] for x in walk(t) if x.op == "param")
    return r


def mentions_param(t, name):
    return name in params_in(t)


def has_op(t, *ops):
    return any(x.op in ops for x in walk(t))


def opaques(t):
    return [x for x in walk(t) if x.op in ("opaque", "deep")]


def fields(it, private=False):
    """{attribute: term} of the operation's receiver after the operation"""
    s = it.run.s
    return {n: s.snap(v) for n, v in s.fields(s.m).items() if private or not n.startswith("_")}


SKIP = ("method", "visualizer", "normalized", "metric")


def results(it):
    """{name: term}: public attributes that fitting sets, and the returned value"""
    s = it.run.s
    out = {n: t for n, t in fields(it).items() if n not in SKIP}
    if getattr(s, "ret", None) is not None:
        out["return value"] = s.snap(s.ret)
    return out


def erase_ids(t, memo=None):
    """drop identities of draws, objects and loops, which differ between equal code on two branches"""
    memo = {} if memo is None else memo

    def go(x):
        r = memo.get(x)
        if r is None:
            if x.op == "draw":
                x2 = mk("draw", 0, *x.a[1:])
            elif x.op == "new":
                x2 = mk("new", x.a[0], 0)
            elif x.op in ("loopin", "havoc") and len(x.a) > 1:
                x2 = mk(x.op, *[y if isinstance(y, (T, str)) else 0 for y in x.a])
            else:
                x2 = x
            r = memo[x] = rebuild(x2, go)
        return r
    return go(t)


def facts_of(*conds):
    f = {}
    for c, v in conds:
        f = add_fact(f, c, v)
    return f


def guard_under(guards, facts):
    """the conjunction of guards under facts: None if impossible"""
    out = []
    for g in guards:
        r = assume(g, facts)
        if r is FALSE:
            return None
        if r is not TRUE:
            out.append(r)
    return tuple(out)


def deep(t, skip=None):
    """walk that does not descend below nodes for which skip(node)"""
    seen = set()
    st = [t]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        yield x
        if skip is not None and skip(x):
            continue
        st.extend(children(x))


def phi_leaves(t, limit=400):
    """[(conditions, leaf)] of a gated value"""
    out = []

    def go(t, cs):
        if len(out) > limit:
            return
        if t.op == "phi":
            go(t.a[1], cs + ((t.a[0], True),))
            go(t.a[2], cs + ((t.a[0], False),))
        else:
            out.append((cs, t))
    go(t, ())
    return out


def const_str(t):
    return cval(t) if t is not None and is_const(t) and isinstance(cval(t), str) else None


def kw_of(t, name, default=None):
    """keyword argument of an m / call term"""
    kw = t.a[3] if t.op == "m" else t.a[2]
    for k, v in kw:
        if k == name:
            return v
    return default
