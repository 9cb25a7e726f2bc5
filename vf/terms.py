"""Hash-consed terms: the nodes of the value-flow graph.

A term is an interned (operator, arguments) node, so structural equality is
identity (global value numbering).  `mk_*` constructors canonicalise the many
spellings of one computation (np.mean(x) / x.mean(), a > b / b < a, ...).
"""
import sys
sys.setrecursionlimit(100000)


class T:
    # m: filter of the ids of all sub-terms (itself included), bits modulo MBITS
    __slots__ = ("op", "a", "n", "m", "size")
    _tab = {}
    _cnt = 0

    def __repr__(self):
        return show(self)

    def __lt__(self, o):
        return self.n < o.n


MBITS = 4096


def _key(x):
    # 1, 1.0 and True are equal as Python objects; keep them apart in the table
    if isinstance(x, (bool, int, float, complex)):
        return (type(x).__name__, repr(x))
    if isinstance(x, tuple):
        return tuple(_key(i) for i in x)
    return x


def children(t):
    for x in t.a:
        if isinstance(x, T):
            yield x
        elif isinstance(x, tuple):
            for y in x:
                if isinstance(y, T):
                    yield y
                elif isinstance(y, tuple):
                    for z in y:
                        if isinstance(z, T):
                            yield z


def mk(op, *a):
    k = (op, tuple(x if isinstance(x, T) else _key(x) for x in a))
    t = T._tab.get(k)
    if t is None:
        t = object.__new__(T)
        t.op = op
        t.a = a
        T._cnt += 1
        t.n = T._cnt
        s = 1
        m = 1 << (t.n % MBITS)
        for x in children(t):
            s += x.size
            m |= x.m
        t.size = s
        t.m = m
        T._tab[k] = t
    return t


def const(v):
    return mk("const", v)


NONE = const(None)
TRUE = const(True)
FALSE = const(False)


def is_const(t):
    return t.op == "const"


def cval(t):
    return t.a[0]


def walk(t, seen=None):
    """every distinct sub-term"""
    seen = set() if seen is None else seen
    st = [t]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        yield x
        st.extend(children(x))


def contains(t, pred):
    return any(pred(x) for x in walk(t))


def rebuild(t, f):
    """apply f to the direct sub-terms, re-canonicalising"""
    ch = False
    out = []
    for x in t.a:
        if isinstance(x, T):
            y = f(x)
            ch |= y is not x
            out.append(y)
        elif isinstance(x, tuple):
            lo = []
            for y in x:
                if isinstance(y, T):
                    z = f(y)
                    ch |= z is not y
                    lo.append(z)
                elif isinstance(y, tuple):
                    l2 = []
                    for w in y:
                        if isinstance(w, T):
                            z = f(w)
                            ch |= z is not w
                            l2.append(z)
                        else:
                            l2.append(w)
                    lo.append(tuple(l2))
                else:
                    lo.append(y)
            out.append(tuple(lo))
        else:
            out.append(x)
    if not ch:
        return t
    return remake(t.op, out)


def remake(op, a):
    f = REMAKE.get(op)
    return f(*a) if f else mk(op, *a)


def subst(t, m):
    """simultaneous substitution {term: term}"""
    if not m:
        return t
    mask = 0
    for k in m:
        mask |= 1 << (k.n % MBITS)
    if not t.m & mask:
        return t
    memo = dict(m)

    def go(x):
        if not x.m & mask:
            return x
        r = memo.get(x)
        if r is None:
            r = rebuild(x, go)
            memo[x] = r
        return r
    return go(t)


# ---------------------------------------------------------------- booleans
def boolish(t):
    if t.op in ("cmp", "not", "and", "or", "in", "isnone", "hasattr", "isinstance", "truth", "isnan", "isin"):
        return True
    if t.op == "const":
        return isinstance(cval(t), bool)
    if t.op == "phi":
        return boolish(t.a[1]) and boolish(t.a[2])
    if t.op == "red" and t.a[0] in ("any", "all"):
        return True
    if t.op == "m" and t.a[0] in ("isin", "isnull", "isna", "notnull", "notna", "duplicated", "equals", "startswith", "endswith"):
        return True
    return False


def mk_not(t):
    if t.op == "not":
        return t.a[0]
    if t.op == "const":
        return const(not cval(t))
    if t.op == "phi" and boolish(t):
        return mk_phi(t.a[0], mk_not(t.a[1]), mk_not(t.a[2]))
    if t.op == "cmp" and t.a[0] == "<":      # not (a<b)  ==  b<=a   (total orders)
        return mk("cmp", "<=", t.a[2], t.a[1])
    if t.op == "cmp" and t.a[0] == "<=":
        return mk("cmp", "<", t.a[2], t.a[1])
    return mk("not", t)


def _flat(op, ts):
    out = []
    for t in ts:
        if t.op == op:
            out.extend(t.a)
        else:
            out.append(t)
    return out


def mk_and(*ts):
    ts = _flat("and", ts)
    s = []
    for t in ts:
        if t is TRUE:
            continue
        if t is FALSE or mk_not(t) in s:
            return FALSE
        if t not in s:
            s.append(t)
    if not s:
        return TRUE
    if len(s) == 1:
        return s[0]
    return mk("and", *sorted(s))


def mk_or(*ts):
    ts = _flat("or", ts)
    s = []
    for t in ts:
        if t is FALSE:
            continue
        if t is TRUE or mk_not(t) in s:
            return TRUE
        if t not in s:
            s.append(t)
    if not s:
        return FALSE
    if len(s) == 1:
        return s[0]
    return mk("or", *sorted(s))


def mk_phi(c, a, b):
    if a is b:
        return a
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if c.op == "not":
        return mk_phi(c.a[0], b, a)
    if c.op == "cmp" and c.a[0] == "<=":
        return mk_phi(mk("cmp", "<", c.a[2], c.a[1]), b, a)
    if a is TRUE and b is FALSE:
        return c
    if a is FALSE and b is TRUE:
        return mk_not(c)
    if a.op == "phi" and a.a[0] is c:
        a = a.a[1]
    if b.op == "phi" and b.a[0] is c:
        b = b.a[2]
    if a is b:
        return a
    if b is FALSE and boolish(a):
        return mk_and(c, a)
    if a is TRUE and boolish(b):
        return mk_or(c, b)
    if a is FALSE and boolish(b):
        return mk_and(mk_not(c), b)
    if b is TRUE and boolish(a):
        return mk_or(mk_not(c), a)
    return mk("phi", c, a, b)


NEVER_NONE_OPS = {"list", "tuple", "dict", "set", "map", "new", "store", "bin", "cmp", "red", "len", "func",
                  "class", "lam", "fstr", "amap", "rows", "storeloc", "sum", "combinations", "abs", "pow",
                  "not", "and", "or", "in", "isnone", "hasattr", "isinstance", "neg", "slice", "copy", "draw",
                  "elemtuple", "dictmap", "setof", "storemap", "cols", "iloc", "sortvals", "ctor", "unique",
                  "zip", "elem", "pos", "param", "proj", "row", "group", "frame", "fresh"}


def never_none(t):
    if t.op == "const":
        return cval(t) is not None
    if t.op in NEVER_NONE_OPS:
        return True
    if t.op == "m":
        return t.a[0] in FRAME_METHODS or t.a[0] in FIGURE_METHODS
    if t.op == "idx" and t.a[0].op == "call" and t.a[0].a[0] == "matplotlib.pyplot.subplots":
        return True
    if t.op == "attr" and t.a[1] in ("columns", "index", "values", "shape", "T", "loc", "iloc", "dtypes"):
        return True
    if t.op == "call":
        return t.a[0].startswith(("pandas.", "numpy.", "matplotlib.", "networkx.", "seaborn."))
    if t.op in ("loopout", "loopin"):
        return False
    return False


FRAME_METHODS = {"copy", "sort_values", "rename", "drop", "reset_index", "fillna", "reindex", "join", "merge", "agg",
                 "groupby", "apply", "head", "tail", "assign", "pivot_table", "sample", "replace", "astype",
                 "drop_duplicates", "sort_index", "set_index", "dropna", "tolist", "mean", "map", "permutation"}


FIGURE_METHODS = {"add_subplot", "add_axes", "add_gridspec", "subplots", "gca", "get_figure"}


def mk_isnone(t):
    if t.op == "const":
        return const(cval(t) is None)
    if t.op == "phi":
        return mk_phi(t.a[0], mk_isnone(t.a[1]), mk_isnone(t.a[2]))
    if never_none(t):
        return FALSE
    return mk("isnone", t)


def distinct(a, b):
    """certainly different values"""
    if a.op == "const" and b.op == "const":
        x, y = cval(a), cval(b)
        try:
            return not (x == y)
        except Exception:
            return False
    if a.op == "tuple" and b.op == "tuple":
        if len(a.a) != len(b.a):
            return True
        return any(distinct(x, y) for x, y in zip(a.a, b.a))
    if a.op == "proj" and b.op == "proj" and a.a[0] is b.a[0] and a.a[1] != b.a[1]:
        e = a.a[0]
        if e.op == "elem" and e.a[0].op == "combinations":
            return True       # the two members of one combination of distinct features
    if {a.op, b.op} <= {"tuple", "list", "dict", "const", "new", "func", "class"} and a.op != b.op:
        return True
    return DISTINCT_HOOK(a, b) if DISTINCT_HOOK else False


DISTINCT_HOOK = None


def elementwise(t):
    """certainly an array or a column: == compares element by element"""
    if t.op == "attr":
        return t.a[1] == "values"
    if t.op == "idx" and t.a[1].op == "const" and isinstance(cval(t.a[1]), str):
        b = t.a[0]
        return b.op in ("store", "storeloc", "rows", "copy", "cols", "group") or b.op == "m" and (b.a[0] in FRAME_METHODS or b.a[0] == "trees_to_dataframe")
    if t.op == "phi":
        return elementwise(t.a[1]) and elementwise(t.a[2])
    return False


def mk_cmp(op, a, b):
    if op == ">":
        op, a, b = "<", b, a
    elif op == ">=":
        op, a, b = "<=", b, a
    if op == "!=":
        return mk_not(mk_cmp("==", a, b))
    if op == "is":
        if a is NONE:
            return mk_isnone(b)
        if b is NONE:
            return mk_isnone(a)
        op = "=="
    if op == "is not":
        return mk_not(mk_cmp("is", a, b))
    if op == "in":
        return mk_in(a, b)
    if op == "not in":
        return mk_not(mk_in(a, b))
    if op == "==":
        if a is b:
            return TRUE
        if distinct(a, b):
            return FALSE
        for x, y in ((a, b), (b, a)):
            if x is NONE:
                if elementwise(y):
                    return mk("cmp", "==", *sorted((x, y)))
                return mk_isnone(y)
            if x is FALSE and boolish_col(y):
                return mk_not(y)
            if x is TRUE and boolish_col(y):
                return y
        for x, y in ((a, b), (b, a)):
            if x.op == "phi" and (y.op in ("const", "tuple") or y is x.a[1] or y is x.a[2]):
                return mk_phi(x.a[0], mk_cmp("==", x.a[1], y), mk_cmp("==", x.a[2], y))
        if a.op == "tuple" and b.op == "tuple" and len(a.a) == len(b.a):
            return mk_and(*[mk_cmp("==", x, y) for x, y in zip(a.a, b.a)])
        if b < a:
            a, b = b, a
        return mk("cmp", "==", a, b)
    if a.op == "const" and b.op == "const":
        try:
            return const(cval(a) < cval(b) if op == "<" else cval(a) <= cval(b))
        except TypeError:
            pass
    return mk("cmp", op, a, b)


def boolish_col(y):
    """x == False on these is the negation of x"""
    if boolish(y):
        return True
    if y.op == "idx" and is_const(y.a[1]) and isinstance(cval(y.a[1]), str):
        return True
    if y.op == "idx" and is_const(y.a[1]) and cval(y.a[1]) == 0:
        return True
    if y.op == "rows":
        return boolish_col(y.a[0])
    if y.op == "iloc":
        return True
    return False


def strip_conv(t):
    """drop conversions that keep the sequence of elements"""
    while True:
        if t.op == "conv":
            t = t.a[1]
        elif t.op == "attr" and t.a[1] in ("values", "array"):
            t = t.a[0]
        elif t.op == "call" and t.a[0] in ("list", "tuple", "iter") and len(t.a[1]) == 1 and not t.a[2]:
            t = t.a[1][0]
        elif t.op == "keys":
            t = t.a[0]
        else:
            return t


def mk_in(x, c):
    c0 = strip_conv(c)
    if c0.op == "setof":
        c0 = strip_conv(c0.a[0])
    if c0.op in ("list", "tuple", "set") and all(isinstance(i, T) and i.op not in ("seg",) for i in c0.a) and len(c0.a) <= 12:
        return mk_or(*[mk_cmp("==", x, i) for i in c0.a])
    if c0.op == "dict" and all(k.op != "seg" for k, v in c0.a) and len(c0.a) <= 12:
        return mk_or(*[mk_cmp("==", x, k) for k, v in c0.a])
    if x.op == "phi" and x.size < 200 and not boolish(x):
        pass
    if c0.op == "phi":
        return mk_phi(c0.a[0], mk_in(x, c0.a[1]), mk_in(x, c0.a[2]))
    return mk("in", x, c0)


def mk_truth(t):
    if t.op == "const":
        return const(bool(cval(t)))
    if boolish(t):
        return t
    if t.op == "phi":
        return mk_phi(t.a[0], mk_truth(t.a[1]), mk_truth(t.a[2]))
    if t.op in ("list", "tuple", "set", "dict") :
        if not t.a:
            return FALSE
        if all(not (isinstance(x, T) and x.op == "seg") for x in t.a):
            return TRUE
        return mk("cmp", "<", const(0), mk_len(t))
    if t.op in ("new", "func", "class", "lam"):
        return TRUE
    if t.op == "len":
        return mk("cmp", "<", const(0), t)
    if t.op == "idx" or t.op == "rows":
        return t if boolish_col(t) else mk("truth", t)
    return mk("truth", t)


# ---------------------------------------------------------------- arithmetic
def num(t):
    return t.op == "const" and isinstance(cval(t), (int, float)) and not isinstance(cval(t), bool)


def mk_bin(op, a, b):
    if a.op == "const" and b.op == "const":
        try:
            x, y = cval(a), cval(b)
            r = {"+": lambda: x + y, "-": lambda: x - y, "*": lambda: x * y, "/": lambda: x / y,
                 "//": lambda: x // y, "%": lambda: x % y, "**": lambda: x ** y}[op]()
            if isinstance(r, (int, float, str, bool)) and not (isinstance(r, str) and len(r) > 500):
                return const(r)
        except Exception:
            pass
    if op == "**":
        return mk_pow(a, b)
    if op == "*" and a is b:
        return mk("pow", a, const(2))
    if op == "*" and num(a) and not num(b):
        a, b = b, a
    if op == "*" and num(b) and cval(b) == 1:
        return a
    if op in ("+", "-") and num(b) and cval(b) == 0 and a.op != "const":
        return a
    if op == "+" and num(a) and cval(a) == 0 and b.op != "const":
        return b
    if op == "&":
        return mk_and(a, b) if boolish_col(a) and boolish_col(b) else mk("bin", op, a, b)
    if op == "|":
        return mk_or(a, b) if boolish_col(a) and boolish_col(b) else mk("bin", op, a, b)
    if op == "+" and a.op == "list" and b.op == "list":
        return mk("list", *(a.a + b.a))
    if op == "+" and a.op == "tuple" and b.op == "tuple":
        return mk("tuple", *(a.a + b.a))
    return mk("bin", op, a, b)


def mk_pow(a, b):
    return mk("pow", a, b)


def mk_neg(a):
    if num(a):
        return const(-cval(a))
    if a.op == "neg":
        return a.a[0]
    return mk("neg", a)


def mk_len(t):
    t = strip_conv(t)
    if t.op in ("list", "tuple", "set") and all(x.op != "seg" for x in t.a):
        return const(len(t.a))
    if t.op == "const" and isinstance(cval(t), str):
        return const(len(cval(t)))
    if t.op in ("copy", "store", "storemap") :
        return mk_len(t.a[0])
    if t.op == "amap":
        return mk_len(t.a[0])
    if t.op == "map" and t.a[2] is TRUE:
        return mk_len(t.a[0])
    if t.op == "combinations":
        return mk("len", t)
    return mk("len", t)


REMAKE = {
    "not": mk_not, "and": mk_and, "or": mk_or, "phi": mk_phi, "cmp": mk_cmp, "isnone": mk_isnone, "in": mk_in,
    "bin": mk_bin, "neg": mk_neg, "len": mk_len, "truth": mk_truth,
}


# ---------------------------------------------------------------- evaluation under assumptions
def assume(t, facts):
    """partially evaluate a term under {condition term: bool} facts (and equalities with constants they imply)"""
    if not facts:
        return t
    ent = _ASSUME.get(id(facts))
    if ent is None or ent[0] is not facts or ent[4] != len(facts):
        eqs = {}
        for c, v in facts.items():
            if v and c.op == "cmp" and c.a[0] == "==":
                x, y = c.a[1], c.a[2]
                if is_const(y):
                    eqs[x] = y
                elif is_const(x):
                    eqs[y] = x
            if v and c.op == "isnone":
                eqs[c.a[0]] = NONE
        mask = 0
        for c in facts:
            mask |= 1 << (c.n % MBITS)
            if c.op == "cmp" and c.a[0] in ("<", "<="):
                mask |= 1 << (mk_not(c).n % MBITS)
        for c in eqs:
            mask |= 1 << (c.n % MBITS)
        if len(_ASSUME) > 64:
            _ASSUME.clear()
        ent = _ASSUME[id(facts)] = (facts, eqs, mask, {}, len(facts))
    _, eqs, mask, memo, _ = ent

    def go(x):
        if not x.m & mask:
            return x
        r = memo.get(x)
        if r is not None:
            return r
        r = facts.get(x)
        if r is not None:
            r = TRUE if r else FALSE
        elif x.op == "cmp" and x.a[0] in ("<", "<=") and facts.get(mk_not(x)) is not None:
            r = FALSE if facts[mk_not(x)] else TRUE
        elif x in eqs:
            r = eqs[x]
        elif x.op == "cmp" and x.a[0] == "==" and (x.a[1] in eqs or x.a[2] in eqs):
            r = mk_cmp("==", eqs.get(x.a[1], x.a[1]), eqs.get(x.a[2], x.a[2]))
        elif x.op == "isnone" and x.a[0] in eqs:
            r = mk_isnone(eqs[x.a[0]])
        else:
            r = rebuild(x, go)
            if r is not x and r in facts:
                r = TRUE if facts[r] else FALSE
        memo[x] = r
        return r
    return go(t)


_ASSUME = {}


def add_fact(facts, c, v):
    """returns new facts with c == v, decomposed"""
    f = dict(facts)

    def put(c, v):
        if c.op == "not":
            put(c.a[0], not v)
            return
        f[c] = v
        if c.op == "and" and v:
            for x in c.a:
                put(x, True)
        if c.op == "or" and not v:
            for x in c.a:
                put(x, False)
        if c.op == "cmp" and c.a[0] == "<=":
            f[mk("cmp", "<", c.a[2], c.a[1])] = not v
        if c.op == "cmp" and c.a[0] == "<":
            f[mk("cmp", "<=", c.a[2], c.a[1])] = not v
    put(c, v)
    return f


# ---------------------------------------------------------------- printing
SHOWN = []      # terms shown since the last obligation: what an undecided obligation is about


def show(t, depth=7):
    if len(SHOWN) < 40 and isinstance(t, T):
        SHOWN.append(t)

    def s(x, d):
        if isinstance(x, tuple):
            return "(" + ", ".join(s(i, d) for i in x) + ")"
        if not isinstance(x, T):
            return str(x)
        if x.op == "const":
            return repr(x.a[0])
        if d <= 0:
            return "…"
        d -= 1
        o, a = x.op, x.a
        if o == "param":
            return "$" + str(a[0])
        if o == "ext":
            return a[0]
        if o == "bin":
            return "(%s %s %s)" % (s(a[1], d), a[0], s(a[2], d))
        if o == "cmp":
            return "(%s %s %s)" % (s(a[1], d), a[0], s(a[2], d))
        if o == "pow":
            return "%s**%s" % (s(a[0], d), s(a[1], d))
        if o == "neg":
            return "-" + s(a[0], d)
        if o == "not":
            return "not " + s(a[0], d)
        if o in ("and", "or"):
            return "(" + (" %s " % o).join(s(i, d) for i in a) + ")"
        if o == "phi":
            return "(%s ? %s : %s)" % (s(a[0], d), s(a[1], d), s(a[2], d))
        if o == "attr":
            return "%s.%s" % (s(a[0], d), a[1])
        if o == "idx":
            return "%s[%s]" % (s(a[0], d), s(a[1], d))
        if o in ("tuple",):
            return "(" + ", ".join(s(i, d) for i in a) + ")"
        if o in ("list",):
            return "[" + ", ".join(s(i, d) for i in a) + "]"
        if o == "dict":
            return "{" + ", ".join("%s: %s" % (s(k, d), s(v, d)) for k, v in a) + "}"
        if o == "call":
            return "%s(%s)" % (s(a[0], d), ", ".join([s(i, d) for i in a[1]] + ["%s=%s" % (k, s(v, d)) for k, v in a[2]]))
        if o == "m":
            return "%s.%s(%s)" % (s(a[1], d), a[0], ", ".join([s(i, d) for i in a[2]] + ["%s=%s" % (k, s(v, d)) for k, v in a[3]]))
        if o == "elem":
            return "∈%s%s" % (s(a[0], d), "'" * a[1])
        if o == "proj":
            return "%s#%s" % (s(a[0], d), a[1])
        return "%s(%s)" % (o, ", ".join(s(i, d) for i in a))
    return s(t, depth)
