"""C21: feature names are opaque."""
from .. import query as q
from .. import suites as S
from .. import tables as tb
from ..terms import T, mk, const, NONE, TRUE, FALSE, is_const, cval, walk, show, strip_conv, children

NAMECOLS = {"Feature", "Feature 1", "Feature 2", "root_variable", "variable", "split_feature", "parent_name", "feature", "node_feature", "Parent feature"}
NAMEPARAMS = {"features", "f1", "f2", "feature", "feature1", "feature2", "pairs", "feature_pairs"}
CASE = {"lower", "upper", "casefold", "capitalize", "title", "swapcase"}
CUT = {"strip", "lstrip", "rstrip", "removeprefix", "removesuffix", "split", "rsplit", "partition", "rpartition", "splitlines", "replace", "translate",
       "slice", "zfill", "expandtabs", "encode", "extract", "normalize", "slice_replace"}
TEST = {"startswith", "endswith", "contains", "match", "fullmatch", "find", "index", "count", "isdigit", "isalpha"}
STR = CASE | CUT


def sh(t):
    return show(t, 3)[:140] if isinstance(t, T) else str(t)


_memo = {}


def namey(t, d=0):
    """t is a feature name, or a column / list of feature names"""
    r = _memo.get(t)
    if r is not None:
        return r
    _memo[t] = False
    r = _namey(t, d)
    _memo[t] = r
    return r


def _namey(t, d):
    if d > 60:
        return False
    o = t.op
    if o == "param":
        n = t.a[0].rsplit(".", 1)[-1]
        return n in NAMEPARAMS or n in ("features_included",)
    if o == "attr":
        if t.a[1] in ("columns", "features_included", "feature_names_in_", "pairs", "feature_name_"):
            return True
        if t.a[1] == "index":
            return t.a[0].op == "m" and t.a[0].a[0] in ("pivot_table", "pivot", "sort_index") or namey_index(t.a[0], d + 1)
        if t.a[1] in ("values", "str"):
            return namey(t.a[0], d + 1)
        return False
    if o == "idx":
        k = t.a[1]
        if is_const(k) and isinstance(cval(k), str):
            return cval(k) in NAMECOLS
        return namey(t.a[0], d + 1) and (is_const(k) or k.op in ("slice", "pos", "loopin", "elem"))
    if o == "cols":
        return bool(t.a[1]) and all(is_const(k) and cval(k) in NAMECOLS for k in t.a[1])
    if o == "iloc" and isinstance(t.a[1], T) and t.a[1].op == "tuple" and len(t.a[1].a) == 2 and t.a[1].a[0].op == "slice" and is_const(t.a[1].a[1]) and cval(t.a[1].a[1]) in (0, 1):
        return True
    if o in ("elem", "proj", "rows", "iloc", "copy", "unique", "setof", "combinations", "rowsof", "row", "hokey"):
        return isinstance(t.a[0], T) and (namey(t.a[0], d + 1) or o == "hokey")
    if o == "conv":
        return namey(t.a[1], d + 1)
    if o in ("list", "tuple", "set") and t.a:
        return all(isinstance(x, T) and (namey(x, d + 1) if x.op != "seg" else x.a[0] == "map" and all(namey(y, d + 1) for y in x.a[2])) for x in t.a)
    if o == "map":
        return namey(t.a[1], d + 1)
    if o == "call" and t.a[0] in ("sorted", "list", "tuple", "set", "reversed", "str", "frozenset", "numpy.unique", "min", "max", "iter", "next") and t.a[1]:
        return all(isinstance(x, T) and namey(x, d + 1) for x in t.a[1][:2])
    if o == "m" and t.a[0] in ("tolist", "to_list", "unique", "copy", "drop_duplicates", "astype", "keys", "sort_values"):
        return namey(t.a[1], d + 1)
    if o == "m" and t.a[0] == "map":
        f = t.a[2][0] if t.a[2] else dict(t.a[3]).get("arg")
        return f is not None and any(namey(v, d + 1) for v in mapvalues(f))
    if o == "call" and t.a[0] == "str" and t.a[1]:
        return namey(t.a[1][0], d + 1)
    if o == "phi":
        return namey(t.a[1], d + 1) and namey(t.a[2], d + 1)
    return False


def mapvalues(f):
    """the values of a dictionary term"""
    f = strip_conv(f)
    if f.op == "dict":
        for kv in f.a:
            if isinstance(kv, tuple) and len(kv) == 2:
                if isinstance(kv[0], T) and kv[0].op == "seg":
                    for y in walk(kv[1]) if isinstance(kv[1], T) else ():
                        if y.op == "kv":
                            yield y.a[1]
                elif isinstance(kv[1], T):
                    yield kv[1]
    elif f.op == "call" and f.a[0] == "dict" and f.a[1]:
        x = strip_conv(f.a[1][0])
        if x.op == "zip" and len(x.a) == 2:
            yield x.a[1]
        elif x.op == "call" and x.a[0] == "zip" and len(x.a[1]) == 2:
            yield x.a[1][1]
        elif x.op in ("enumerate",) or x.op == "call" and x.a[0] == "enumerate":
            yield x.a[0] if x.op == "enumerate" else x.a[1][0]


def namey_index(t, d):
    return t.op == "call" and t.a[0] in ("pandas.Series",) and "index" in dict(t.a[2]) and namey(dict(t.a[2])["index"], d)


def spelled(t):
    """how the value t depends on the spelling of a name, or None"""
    t = strip_conv(t)
    o = t.op
    if o == "m":
        n = t.a[0]
        recv = t.a[1]
        if n in STR and (namey(recv) or recv.op == "attr" and recv.a[1] == "str" and namey(recv.a[0])):
            # Series.replace / DataFrame.replace work on whole values
            if n == "replace" and not (recv.op == "attr" and recv.a[1] == "str") and recv.op in ("idx", "cols") and is_const(recv.a[1] if isinstance(recv.a[1], T) else NONE):
                return None
            return "names are changed by .%s()" % n
        if n == "join" and is_const(recv) and isinstance(cval(recv), str):
            arg = t.a[2][0] if t.a[2] else dict(t.a[3]).get("other") or dict(t.a[3]).get("iterable")
            if arg is not None and (spelled(arg) or any(namey(x) for x in walk(arg))):
                return "names are joined with %r" % cval(recv)
        if n in ("apply", "map", "applymap", "transform", "agg", "aggregate"):
            f = t.a[2][0] if t.a[2] else dict(t.a[3]).get("func") or dict(t.a[3]).get("arg")
            if f is not None and f.op == "lam":
                return spelled(f.a[-1])
            if f is not None and namey(recv) and is_strfn(f):
                return "names are changed by %s" % sh(f)
            return None
        if n == "cat" and recv.op == "attr" and recv.a[1] == "str":
            return "names are joined"
        if n == "format" and is_const(recv) and any(namey(x) for x in t.a[2]):
            return "names are pasted into a text"
        return None
    if o == "bin" and t.a[0] in ("+", "%"):
        a, b = t.a[1], t.a[2]
        txt = lambda x: is_const(x) and isinstance(cval(x), str) or spelled(x) is not None
        if t.a[0] == "%":
            return "names are pasted into a text" if is_const(a) and isinstance(cval(a), str) and (namey(b) or b.op == "tuple" and any(namey(x) for x in b.a)) else None
        sa, sb = single(a), single(b)
        if (sa or txt(a)) and (sb or txt(b)) and (sa or sb or spelled(a) or spelled(b)):
            return "names are concatenated"
        return None
    if o == "fstr":
        if any(single(y.a[0]) for y in t.a if isinstance(y, T) and y.op == "fmt"):
            return "names are pasted into a text"
        return None
    if o == "call" and t.a[0] in ("hash", "len", "ord") and t.a[1] and single(t.a[1][0]):
        return "names are reduced to %s()" % t.a[0]
    if o == "len" and single(t.a[0]):
        return "names are reduced to their length"
    if o == "idx" and t.a[1].op == "slice" and single(t.a[0]) and t.a[0].op in ("elem", "proj"):
        return "names are cut"
    if o == "idx" and t.a[0].op == "attr" and t.a[0].a[1] == "str" and namey(t.a[0].a[0]):
        return "names are cut"
    if o == "call" and t.a[0].startswith("str.") and t.a[0][4:] in STR and t.a[1] and namey(t.a[1][0]):
        return "names are changed by %s" % t.a[0]
    if o in ("map",):
        return spelled(t.a[1])
    if o in ("elem",) and isinstance(t.a[0], T):
        s = strip_conv(t.a[0])
        return spelled(s) if s is not t else None
    if o == "list" and len(t.a) == 1 and t.a[0].op == "seg" and t.a[0].a[0] == "map" and len(t.a[0].a[2]) == 1:
        return spelled(t.a[0].a[2][0])
    if o == "along":
        return spelled(t.a[-1]) if isinstance(t.a[-1], T) else None
    if o == "lam":
        return spelled(t.a[-1])
    if o == "call" and t.a[0].startswith(("re.", "unicodedata.", "textwrap.")) and any(isinstance(x, T) and single(x) for x in t.a[1]):
        return "names are rewritten by %s" % t.a[0]
    if o == "call" and t.a[0] == "map" and len(t.a[1]) == 2 and is_strfn(t.a[1][0]) and namey(t.a[1][1]):
        return "names are changed by %s" % sh(t.a[1][0])
    if o in ("tuple", "list", "set") and t.a and all(isinstance(x, T) and x.op != "seg" for x in t.a):
        for x in t.a:
            r = spelled(x)
            if r:
                return r
    if o == "call" and t.a[0] in ("sorted", "tuple", "list", "set", "frozenset") and t.a[1]:
        return spelled(t.a[1][0])
    if o == "phi":
        return spelled(t.a[1]) or spelled(t.a[2])
    return None


def is_strfn(f):
    """str.lower and the like as a function value"""
    return f.op == "attr" and f.a[1] in STR and "str" in show(f.a[0], 2) or f.op in ("func", "ext") and any(show(f, 2).endswith("str." + n) for n in STR)


def single(t):
    """one name or a column of names (not a list of several)"""
    t = strip_conv(t)
    return namey(t) and t.op in ("param", "idx", "elem", "proj", "attr") and not (t.op == "attr" and t.a[1] in ("features_included", "pairs")) and not (t.op == "param" and t.a[0].rsplit(".", 1)[-1] in ("features", "features_included", "pairs"))


# ---------------------------------------------------------------- identity positions
KEYARGS = {"groupby": ("by", "level"), "merge": ("on", "left_on", "right_on"), "join": ("on",), "drop_duplicates": ("subset",), "duplicated": ("subset",),
           "pivot_table": ("index", "columns"), "pivot": ("index", "columns"), "isin": ("values",), "reindex": ("labels", "index", "columns"),
           "get": ("key",), "setdefault": ("key",), "pop": ("key",), "map": ("arg",), "set_index": ("keys",), "query": ("expr",), "eval": ("expr",),
           "filter": ("like", "regex", "items"), "drop": ("labels", "columns", "index")}
WHOLE = {"unique", "nunique", "value_counts", "factorize", "drop_duplicates", "duplicated"}
FROMSEQ = {"set", "frozenset", "pandas.factorize", "pandas.Index", "numpy.unique", "pandas.MultiIndex.from_tuples", "pandas.unique", "collections.Counter", "dict.fromkeys", "pandas.Categorical"}


def frame_col(t, c):
    from .drawing import column, Und, Bad
    try:
        return column(t, c)
    except (Und, Bad):
        return None


def keyterms(x):
    """(what, term) for every position inside x whose value decides which feature or pair is meant"""
    o = x.op
    if o == "kv":
        yield "dictionary key", x.a[0]
    elif o == "dict":
        for k, v in x.a:
            if isinstance(k, T) and k.op != "seg":
                yield "dictionary key", k
    elif o == "idx":
        if x.a[1].op != "slice":
            yield "lookup key", x.a[1]
    elif o == "store":
        if not is_const(x.a[1]):
            yield "entry key", x.a[1]
        elif cval(x.a[1]) in NAMECOLS:
            yield "table cell", x.a[2]
    elif o == "storemap":
        yield "entry key", x.a[2]
    elif o == "cmp" and x.a[0] in ("==", "!=", "<", "<=", ">", ">="):
        yield "comparison", x.a[1]
        yield "comparison", x.a[2]
    elif o == "in":
        yield "membership test", x.a[0]
        yield "membership test", x.a[1]
        y = strip_conv(x.a[1])
        if single(y) and (y.op in ("elem", "proj") or y.op == "idx" and is_const(y.a[1]) and isinstance(cval(y.a[1]), str)):
            yield "substring test", x.a[1]
    elif o == "isin":
        for y in x.a:
            if isinstance(y, T):
                yield "membership test", y
    elif o == "set":
        for y in x.a:
            if isinstance(y, T) and y.op != "seg":
                yield "set element", y
            elif isinstance(y, T) and y.a[0] == "map":
                for z in y.a[2]:
                    yield "set element", z
    elif o in ("unique", "setof"):
        yield "set element", x.a[0]
    elif o == "opaque":
        for y in x.a:
            if isinstance(y, T) and "key" in str(x.a[0]):
                yield "lookup key", y
    elif o == "group":
        for y in x.a[1:]:
            if isinstance(y, T):
                yield "grouping key", y
    elif o == "call":
        n = x.a[0]
        if n in FROMSEQ and x.a[1]:
            yield "set element", x.a[1][0]
        kw = dict(x.a[2])
        if n.startswith("pandas."):
            for k in ("index", "columns"):
                if k in kw:
                    yield "row or column label", kw[k]
            d = kw.get("data") or kw.get("records")
            if d is not None and n.startswith("pandas.DataFrame"):
                r = tb.records(x)
                if r is not None and r.row:
                    for c, v in r.row.items():
                        if c in NAMECOLS:
                            yield "table cell", v
        if n == "sorted" and "key" in kw:
            yield "sort key", kw["key"]
        if n in ("pandas.merge",):
            for k in ("on", "left_on", "right_on"):
                if k in kw and is_const(kw[k]):
                    for y in x.a[1]:
                        c = frame_col(y, cval(kw[k]))
                        if c is not None:
                            yield "merge key", c
    elif o == "m":
        n, recv, args, kws = x.a
        kw = dict(kws)
        if is_const(recv):
            return
        if n in ("sort_index", "sort_values") and "key" in kw:
            yield "sort key", kw["key"]
        if n in TEST and (single(recv) or recv.op == "attr" and recv.a[1] == "str" and namey(recv.a[0])):
            yield "spelling test", recv
        if n in WHOLE and "subset" not in kw:
            yield "set element", recv
        if n == "astype" and any(is_const(y) and cval(y) == "category" for y in tuple(args) + tuple(kw.values())):
            yield "set element", recv
        ks = []
        if n in KEYARGS:
            ks = [kw[k] for k in KEYARGS[n] if k in kw] or list(args[:1])
        for k in ks:
            items = tb.seq_items(k) or [k]
            for y in items:
                if is_const(y):
                    c = frame_col(recv, cval(y)) if isinstance(cval(y), str) and n not in ("get", "setdefault", "pop", "filter", "query", "eval", "drop", "map", "isin") else None
                    if c is not None:
                        yield {"groupby": "grouping key", "set_index": "row or column label"}.get(n, "key of .%s()" % n), c
                else:
                    yield {"groupby": "grouping key", "set_index": "row or column label"}.get(n, "key of .%s()" % n), y
        if n == "rename":
            for k in ("columns", "index", "mapper"):
                if k in kw and kw[k].op != "dict":
                    yield "row or column label", mk("m", "map", mk("attr", recv, "columns"), (kw[k],), ())
        if n in ("add_prefix", "add_suffix"):
            pass


def verdict(what, t):
    """(True ok / False violated / None not about names, reason)"""
    if what == "substring test":
        return False, "a name is searched as a part of another name: %s" % sh(t)
    if what == "spelling test":
        return False, "the spelling of a name is tested: %s" % sh(t)
    if what == "sort key":
        for y in walk(t):
            r = spelled(y)
            if r and not (y.op == "lam"):
                return False, r
        if is_strfn(t):
            return False, "names are changed by %s" % sh(t)
        return (True, "") if any(namey(y) for y in walk(t)) else (None, "")
    r = spelled(t)
    if r:
        return False, r
    if namey(t) or t.op in ("tuple", "call") and any(namey(y) for y in children(t)):
        return True, ""
    if t.op == "m" and t.a[0] == "apply" and any(namey(y) for y in walk(t)):
        return True, ""
    return None, ""


SOFT = {"row or column label"}


def check_C21(chk):
    """Opaque names: every position of every analysed run whose value decides which feature or pair is meant (dictionary and
    cache keys, lookups, comparisons, memberships, set elements, grouping, merging and de-duplication columns, index labels,
    sort keys, feature cells of tables) has to hold the names themselves, or tuples and sets of them: no case change, cutting,
    joining, concatenation, formatting or partial match.  Texts that are only drawn or printed are free."""
    items = []
    for f in (lambda: S.fit_suite(chk), lambda: S.value_suite(chk), lambda: S.cmp_suite(chk), lambda: S.plot_suite(chk), lambda: S.profile_suite(chk),
              lambda: S.calc_items(chk), lambda: [S.handler_item(chk)]):
        r = chk.guard("names", "runs", f)
        items += [x for x in (r or ()) if x is not None]
    seen, seen2, told = set(), set(), set()
    for it in items:
        chk.guard("names", it.name, scan, chk, it, seen, seen2, told)


class Where:
    """a loop record, in the place of an event"""
    def __init__(self, lp):
        self.func, self.w = lp["func"], lp["where"]

    def where(self):
        return self.w() if callable(self.w) else self.w


def scan(chk, it, seen, seen2, told):
    plotting = it.kind in ("plot", "profile", "zen")
    for e in it.run.log:
        if e.kind == "mutate" and isinstance(e.d.get("key"), T) and not is_const(e.d["key"]):
            judge(chk, it, "entry key", e.d["key"], e, told, plotting)
        if e.kind == "setattr" and e.d.get("name") in ("columns", "index") and isinstance(e.d.get("value"), T):
            judge(chk, it, "row or column label", e.d["value"], e, told, False)
        for v in e.d.values():
            for t in (v.values() if isinstance(v, dict) else v if isinstance(v, (tuple, list)) else (v,)):
                if isinstance(t, T):
                    for x in walk_new(t, seen):
                        for what, k in keyterms(x):
                            judge(chk, it, what, k, e, told, plotting)
    for c, cur in it.run.tests:
        for x in walk_new(c, seen):
            for what, k in keyterms(x):
                judge(chk, it, what, k, Where({"func": cur[2], "where": tuple(cur)}), told, plotting)
    for lp in it.run.loops:
        for v in lp["vars"].values():
            for t in v:
                if isinstance(t, T):
                    for x in walk_new(t, seen):
                        for what, k in keyterms(x):
                            judge(chk, it, what, k, Where(lp), told, plotting)
    s = it.run.s
    for n, t in (q.results(it).items() if s is not None and getattr(s, "m", None) is not None else ()):
        for x in walk_new(t, seen):
            for what, k in keyterms(x):
                judge(chk, it, what, k, None, told, plotting)
        if not plotting:
            for x in walk_new(t, seen2):
                r = spelled(x)
                if r and (n, it.name, r) not in told:
                    told.add((n, it.name, r))
                    chk.ob("result", "%s of %s" % (n, it.name), False, "%s and end up in the result: %s" % (r, sh(x)), "")
            chk.ob("result", "%s of %s" % (n, it.name), True, "no altered name in the result", "")


def walk_new(t, seen):
    st = [t]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        yield x
        st.extend(children(x))


def judge(chk, it, what, k, e, told, plotting):
    ok, why = verdict(what, k)
    if ok is None:
        return
    fn = e.func if e is not None else it.name
    if ok:
        key = (what, fn, k)
        if key not in told:
            told.add(key)
            chk.ob(what, "%s: %s" % (fn, sh(k)), True, "", e.where() if e is not None else "")
        return
    if plotting and what in SOFT:
        return
    key = (what, fn, why)
    if key not in told:
        told.add(key)
        chk.ob(what, "%s (%s)" % (fn, it.name), False, "%s and used as %s" % (why, what), e.where() if e is not None else "")
