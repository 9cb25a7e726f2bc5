"""Abstract interpreter that turns the package source into a gated value-flow graph.

One run interprets one public operation on symbolic arguments.  Both branches of every undecided condition are
analysed and joined with a phi node, loops are summarised (invariant / accumulator / opaque), calls into the package
are inlined, calls into libraries become terms.  A log of effects (writes, raises, library calls, random draws)
with the guards and loops they happen under is kept.  Nothing of the package is executed.
"""
import ast
import time
from . import terms as tm
from .terms import (T, mk, const, NONE, TRUE, FALSE, is_const, cval, mk_not, mk_and, mk_or, mk_phi, mk_cmp, mk_in,
                    mk_isnone, mk_truth, mk_bin, mk_neg, mk_len, subst, assume, add_fact, strip_conv, boolish, show)
from .loader import FuncInfo, ClassInfo, Module, load_package, AnalysisBroken, TooComplex
from .canon import (mk_attr, mk_idx, mk_rows, mk_locidx, mk_store, mk_storeloc, mk_red, mk_copy, mk_loopout, arrayish,
                    tm_names, strish, colkeys, uncopy)


# ------------------------------------------------------------------ values
class Val:
    __slots__ = ("kind", "t", "cell", "views", "x", "path", "sub")

    def __init__(self, kind, t=None, cell=None, views=(), x=None, path=None, sub=None):
        self.kind, self.t, self.cell, self.views, self.x, self.path, self.sub = kind, t, cell, views, x, path, sub

    def __repr__(self):
        return "<%s %s c%s>" % (self.kind, self.t if self.t is not None else self.x, self.cell)


class Seq:
    __slots__ = ("kind", "segs")

    def __init__(self, kind, segs):
        self.kind, self.segs = kind, tuple(segs)


class Dct:
    __slots__ = ("ents", "sym", "default")

    def __init__(self, ents, sym=None, default=None):
        self.ents, self.sym, self.default = tuple(ents), sym, default


class Obj:
    __slots__ = ("cls", "fields", "sym", "name")

    def __init__(self, cls, fields, sym=None, name=None):
        self.cls, self.fields, self.sym, self.name = cls, fields, sym, name


class PathEnd(Exception):
    pass


class State:
    __slots__ = ("heap", "guards", "facts", "loops")

    def __init__(self, heap, guards=(), facts=None, loops=()):
        self.heap, self.guards, self.facts, self.loops = heap, guards, facts or {}, loops

    def fork(self):
        return State(dict(self.heap), self.guards, self.facts, self.loops)

    def become(self, o):
        self.heap, self.guards, self.facts, self.loops = o.heap, o.guards, o.facts, o.loops

    def assume(self, c, v):
        self.guards = self.guards + ((c if v else mk_not(c)),)
        self.facts = add_fact(self.facts, c, v)


class Frame:
    __slots__ = ("env", "fn", "module", "cls", "self_val", "parents", "yields", "nonlocals", "globals_")

    def __init__(self, env, fn, module, cls=None, self_val=None, parents=()):
        self.env, self.fn, self.module, self.cls, self.self_val, self.parents = env, fn, module, cls, self_val, parents
        self.yields = None
        self.nonlocals = set()
        self.globals_ = set()


class Effect:
    __slots__ = ("kind", "seq", "guards", "loops", "file", "line", "func", "stack", "d")

    def __init__(self, kind, seq, guards, loops, file, line, func, stack, d):
        self.kind, self.seq, self.guards, self.loops = kind, seq, guards, loops
        self.file, self.line, self.func, self.stack, self.d = file, line, func, stack, d

    def __getattr__(self, k):
        try:
            return self.d[k]
        except KeyError:
            raise AttributeError(k)

    def where(self):
        return "%s:%s (%s)" % (self.file, self.line, self.func)

    def __repr__(self):
        return "<%s %s %s>" % (self.kind, self.where(), {k: v for k, v in self.d.items()})


BUILTINS = {"len", "list", "tuple", "dict", "set", "frozenset", "range", "enumerate", "zip", "map", "filter", "sorted",
            "reversed", "any", "all", "sum", "min", "max", "abs", "isinstance", "issubclass", "hasattr", "getattr",
            "setattr", "print", "str", "int", "float", "bool", "type", "round", "iter", "next", "super", "id", "hash",
            "vars", "callable", "slice", "object", "property", "staticmethod", "classmethod", "divmod", "pow", "repr",
            "open", "input", "ord", "chr", "format", "dir", "delattr", "complex", "bytes", "globals", "locals",
            "memoryview", "bytearray", "NotImplemented", "Ellipsis", "__name__", "__file__", "exec", "eval", "warnings"}
EXC_NAMES = {"Exception", "BaseException", "ValueError", "TypeError", "KeyError", "IndexError", "AttributeError",
             "RuntimeError", "NotImplementedError", "AssertionError", "StopIteration", "ArithmeticError",
             "ZeroDivisionError", "LookupError", "OSError", "UserWarning", "Warning", "DeprecationWarning",
             "FutureWarning", "RuntimeWarning", "ImportError", "NameError"}

BINOPS = {ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/", ast.FloorDiv: "//", ast.Mod: "%", ast.Pow: "**",
          ast.BitAnd: "&", ast.BitOr: "|", ast.BitXor: "^", ast.MatMult: "@", ast.LShift: "<<", ast.RShift: ">>"}
CMPOPS = {ast.Eq: "==", ast.NotEq: "!=", ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">=", ast.Is: "is",
          ast.IsNot: "is not", ast.In: "in", ast.NotIn: "not in"}

VIEW_METHODS = {"ravel", "reshape", "view", "squeeze", "transpose", "swapaxes", "to_numpy", "head", "tail", "get",
                "setdefault", "__getitem__", "values", "items", "get_group", "iterrows", "xs"}
VIEW_FUNCS = {"numpy.asarray", "numpy.ravel", "numpy.reshape", "numpy.transpose", "numpy.squeeze", "numpy.atleast_1d",
              "numpy.atleast_2d", "numpy.asanyarray", "numpy.ascontiguousarray", "numpy.swapaxes", "numpy.split",
              "numpy.array_split", "numpy.broadcast_to", "pandas.DataFrame", "pandas.Series", "copy.copy"}
MUT_METHODS = {"append", "extend", "insert", "remove", "clear", "sort", "reverse", "update", "popitem", "pop", "add",
               "discard", "fill", "put", "itemset", "partition", "setflags", "fit", "partial_fit", "set_params",
               "setdefault", "__setitem__", "__delitem__", "intersection_update", "difference_update",
               "symmetric_difference_update", "set_param", "resize", "byteswap_inplace", "isetitem"}
MUT_FUNCS = {"numpy.put": 0, "numpy.place": 0, "numpy.copyto": 0, "numpy.fill_diagonal": 0, "numpy.putmask": 0,
             "numpy.random.shuffle": 0, "random.shuffle": 0, "operator.setitem": 0, "operator.delitem": 0,
             "operator.iadd": 0, "operator.isub": 0, "operator.imul": 0, "heapq.heapify": 0, "heapq.heappush": 0,
             "bisect.insort": 0, "numpy.add.at": 0, "numpy.subtract.at": 0, "numpy.multiply.at": 0,
             "numpy.put_along_axis": 0}
DRAW_METHODS = {"permutation", "permuted", "choice", "integers", "random", "shuffle", "normal", "uniform",
                "standard_normal", "randint", "rand", "randn", "random_sample", "bytes", "binomial", "poisson",
                "exponential", "beta", "gamma", "multinomial"}
GLOBAL_RNG = ("numpy.random.", "random.")
RNG_CTORS = {"numpy.random.default_rng", "numpy.random.RandomState", "numpy.random.Generator",
             "numpy.random.SeedSequence", "numpy.random.PCG64", "numpy.random.MT19937", "random.Random",
             "numpy.random.Philox", "numpy.random.BitGenerator", "sklearn.utils.check_random_state"}
# positional parameter names of library calls whose arguments the rules look at
SIG_M = {
    "sort_values": None,   # DataFrame(by, axis, ascending, ...) vs Series(axis, ascending): resolved below
    "sample": ["n", "frac", "replace", "weights", "random_state", "axis", "ignore_index"],
    "head": ["n"], "tail": ["n"], "copy": ["deep"], "rename": ["mapper", "index", "columns", "axis", "copy", "inplace"],
    "drop": ["labels", "axis", "index", "columns", "level", "inplace", "errors"],
    "reset_index": ["level", "drop", "inplace"], "fillna": ["value", "method", "axis", "inplace"],
    "reindex": ["labels", "index", "columns", "axis"], "groupby": ["by", "axis", "level", "as_index", "sort", "group_keys"],
    "pivot_table": ["values", "index", "columns", "aggfunc", "fill_value"], "set_index": ["keys", "drop", "append", "inplace"],
    "join": ["other", "on", "how", "lsuffix", "rsuffix", "sort"], "permutation": ["x", "axis"],
    "agg": ["func"], "aggregate": ["func"], "corr": ["method"], "replace": ["to_replace", "value", "inplace"],
    "astype": ["dtype", "copy"], "apply": ["func", "axis"], "equals": ["other"], "pop": None,
}
SIG_F = {
    "pandas.DataFrame": ["data", "index", "columns", "dtype", "copy"], "pandas.Series": ["data", "index", "dtype", "name", "copy"],
    "pandas.concat": ["objs", "axis", "join", "ignore_index", "keys"], "pandas.DataFrame.from_records": ["data", "index", "exclude", "columns"],
    "pandas.Index": ["data", "dtype", "copy", "name", "tupleize_cols"],
    "numpy.random.default_rng": ["seed"], "numpy.full": ["shape", "fill_value", "dtype"],
    "numpy.apply_along_axis": ["func1d", "axis", "arr"], "numpy.average": ["a", "axis", "weights"],
    "itertools.combinations": ["iterable", "r"], "numpy.mean": ["a", "axis"], "numpy.sum": ["a", "axis"],
    "numpy.random.RandomState": ["seed"], "random.Random": ["x"],
}
RED = {"mean", "sum", "max", "min", "any", "all", "prod", "median", "std", "var", "amax", "amin", "nanmean", "nansum"}
RED_CANON = {"amax": "max", "amin": "min"}
MAX_STEPS = 3_000_000
UNROLL = 12


class Engine:
    def __init__(self, root="/repo", pkg="artemis"):
        self.root, self.pkg = root, pkg
        self.modules = load_package(root, pkg)
        self.ncell = 0
        self.uid = 0
        self.kids = {}
        self.captured = set()
        self.cache = {}
        self._regrow = {}
        self.crossed = set()
        self.cstack = []
        self.log_base = 0
        self.cell_site = {}
        self.cell_loops = {}
        self.labels = {}
        self.init_term = {}
        self._last_states = []
        self._havoc_content = {}
        self._symcells = {}
        self.dirty_new = set()
        self.dirty_sites = set()
        self.steps = 0
        self.run_deadline = None
        self.partial = []           # (scenario, effects) of scenarios that could not be analysed to their end
        self.log = []
        self.tests = []  # (condition, place) of every undecided branch
        self.loop_recs = []
        self.opaque = {}
        self.stack = []
        self.cur = (None, 0, None)
        self.forced = {}
        self.base = State({})
        self.globals_done = False
        self.hooks = {}
        self.analysed_funcs = set()
        self.call_sites = set()
        self.classes = {}
        self.pending_classes = {}
        for m in list(self.modules.values()):
            self.init_module(m, self.base)
        # everything allocated while the modules were set up is process-wide state
        for c in range(1, self.ncell + 1):
            self.labels.setdefault(c, "shared:%s" % self.describe_site(c))
        self.log_base = len(self.log)

    # ------------------------------------------------------------- infrastructure
    def tick(self):
        if self.steps > MAX_STEPS or (self.steps % 256 == 0 and self.run_deadline and time.time() > self.run_deadline):
            raise TooComplex("analysis budget of one scenario used up")

    def label_reachable(self, st, v, label, skip=()):
        """everything reachable from v now belongs to `label`"""
        seen = set()

        def segs(ss, f):
            for s in ss:
                if s[0] == "i":
                    f(s[1])
                elif s[0] == "map":
                    segs(s[2], f)
                elif s[0] == "if":
                    segs(s[2], f)
                    segs(s[3], f)
                elif s[0] == "some":
                    segs(s[1], f)

        def ents(es, f):
            for s in es:
                if s[0] == "i":
                    f(s[2])
                elif s[0] == "map":
                    ents(s[2], f)
                elif s[0] == "if":
                    ents(s[2], f)
                    ents(s[3], f)
                elif s[0] == "some":
                    ents(s[1], f)

        def go(v, path):
            if v is None:
                return
            if v.kind == "phi":
                go(v.x[1], path)
                go(v.x[2], path)
                return
            if v.kind == "bound":
                go(v.x[1], path)
                return
            if v.kind == "partial":
                for a in v.x[1]:
                    go(a, path)
                return
            if v.kind not in ("e", "seq", "dict", "obj") or v.cell is None:
                return
            for w in v.views or ():
                go(w, path)
            if v.cell in seen:
                return
            seen.add(v.cell)
            if v.cell not in self.labels:
                self.labels[v.cell] = label + path
            c = st.heap.get(v.cell)
            if isinstance(c, Obj):
                for n, x in c.fields.items():
                    if n in skip and path == "":
                        continue
                    go(x, path + "." + n)
            elif isinstance(c, Seq):
                segs(c.segs, lambda x: go(x, path + "[]"))
            elif isinstance(c, Dct):
                ents(c.ents, lambda x: go(x, path + "[]"))
        go(v, "")
        return seen

    def describe_site(self, c):
        s = self.cell_site.get(c)
        return "%s:%s" % (s[0], s[1]) if s else "?"

    def new_cell(self, st, node=None, label=None):
        self.ncell += 1
        c = self.ncell
        self.cell_site[c] = (self.cur[0], getattr(node, "lineno", self.cur[1]), getattr(node, "col_offset", 0))
        self.cell_loops[c] = tuple(st.loops)
        if label:
            self.labels[c] = label
        return c

    def nuid(self):
        self.uid += 1
        return self.uid

    def kid(self, what, st=None, node=None):
        """identifier determined by the analysis context, so that re-analysing a loop body gives the same terms"""
        k = (what, self.cur[0], getattr(node, "lineno", self.cur[1]), getattr(node, "col_offset", -1), tuple(self.cstack),
             tuple(l[2] for l in st.loops) if st is not None else ())
        r = self.kids.get(k)
        if r is None:
            r = self.kids[k] = len(self.kids) + 1
        return r

    def draw_id(self, st, node):
        """distinct draws get distinct identifiers, also when one call site is analysed for several concrete items"""
        i = self.kid("draw", st, node)
        n = sum(1 for e in self.log[self.log_base:] if e.kind == "draw" and e.d.get("site") == i)
        return i, n

    def note_opaque(self, what):
        k = (self.cur[0], self.cur[1], what)
        self.opaque[k] = self.opaque.get(k, 0) + 1

    def eff(self, st, kind, node=None, **d):
        e = Effect(kind, len(self.log), st.guards, st.loops, self.cur[0], getattr(node, "lineno", self.cur[1]),
                   self.cur[2], tuple(self.stack), d)
        self.log.append(e)
        return e

    # ------------------------------------------------------------- value constructors
    def ext(self, st, t, views=(), path=None, node=None):
        if t.op in ("const",) and not views:
            return Val("e", t)
        c = self.new_cell(st, node)
        self.init_term[c] = t
        return Val("e", t, c, views, path=path)

    def cv(self, v):
        return Val("e", const(v))

    def mkseq(self, st, kind, vals, node=None):
        c = self.new_cell(st, node)
        st.heap[c] = Seq(kind, [("i", v) for v in vals])
        return Val("seq", cell=c)

    def mkseq_segs(self, st, kind, segs, node=None):
        c = self.new_cell(st, node)
        st.heap[c] = Seq(kind, segs)
        return Val("seq", cell=c)

    def mkdict(self, st, ents, sym=None, default=None, node=None):
        c = self.new_cell(st, node)
        st.heap[c] = Dct(ents, sym, default)
        return Val("dict", cell=c)

    def phi_val(self, st, c, a, b):
        if c is TRUE:
            return a
        if c is FALSE:
            return b
        if a is b or self.same(a, b):
            return a
        if c.op == "not":
            return self.phi_val(st, c.a[0], b, a)
        if a.kind == "e" and b.kind == "e" and a.cell is None and b.cell is None:
            return Val("e", mk_phi(c, a.t, b.t))
        return Val("phi", x=(c, a, b))

    def same(self, a, b):
        if a is b:
            return True
        if a.kind != b.kind:
            return False
        if a.kind == "e":
            return a.t is b.t and a.cell == b.cell and a.sub == b.sub
        if a.kind in ("seq", "dict", "obj"):
            return a.cell == b.cell and a.sub == b.sub
        if a.kind == "phi":
            return a.x[0] is b.x[0] and self.same(a.x[1], b.x[1]) and self.same(a.x[2], b.x[2])
        if a.kind in ("fn", "cls", "mod"):
            return a.x is b.x
        if a.kind == "bound":
            return a.x[0] is b.x[0] and self.same(a.x[1], b.x[1])
        return False

    # ------------------------------------------------------------- content
    def is_summary(self, st, cell):
        cl = self.cell_loops.get(cell, ())
        return tuple(st.loops[:len(cl)]) != cl

    def content(self, st, v):
        """current content of an external value: a term"""
        if v.cell is None:
            t = v.t
        else:
            t = st.heap.get(v.cell, v.t)
            if not isinstance(t, T):
                t = v.t
            if self.cell_site.get(v.cell) in self.dirty_sites and self.cell_loops.get(v.cell):
                return mk("loc", v.path if v.path is not None else mk("cell", str(self.cell_site[v.cell])))
        if v.sub:
            t = subst(t, v.sub)
        return t

    def cont(self, st, v):
        """container content with the value's substitution applied lazily"""
        c = st.heap.get(v.cell)
        if v.sub and c is not None:
            c = self.sub_content(c, v.sub, v.path)
        return c

    def sub_val(self, v, sub, path=None):
        if not sub:
            return v
        if v.kind == "e":
            if v.cell is None:
                return Val("e", subst(v.t, sub), None, v.views, path=v.path)
            s = dict(v.sub or {})
            s = {k: subst(x, sub) for k, x in s.items()}
            for k, x in sub.items():
                s.setdefault(k, x)
            return Val("e", v.t, v.cell, tuple(self.sub_val(w, sub) for w in v.views), path=subst(v.path, sub) if v.path is not None else None, sub=s)
        if v.kind in ("seq", "dict", "obj"):
            s = {k: subst(x, sub) for k, x in (v.sub or {}).items()}
            for k, x in sub.items():
                s.setdefault(k, x)
            return Val(v.kind, v.t, v.cell, v.views, v.x, subst(v.path, sub) if v.path is not None else None, s)
        if v.kind == "phi":
            c, a, b = v.x
            return Val("phi", x=(subst(c, sub), self.sub_val(a, sub), self.sub_val(b, sub)))
        if v.kind == "bound":
            return Val("bound", x=(v.x[0], self.sub_val(v.x[1], sub)))
        return v

    def sub_segs(self, segs, sub):
        out = []
        for s in segs:
            if s[0] == "i":
                out.append(("i", self.sub_val(s[1], sub)))
            elif s[0] == "map":
                out.append(("map", subst(s[1], sub), self.sub_segs(s[2], sub), subst(s[3], sub)))
            elif s[0] == "if":
                out.append(("if", subst(s[1], sub), self.sub_segs(s[2], sub), self.sub_segs(s[3], sub)))
            elif s[0] == "some":
                out.append(("some", self.sub_segs(s[1], sub)))
            elif s[0] == "ext":
                out.append(("ext", subst(s[1], sub)))
        return tuple(out)

    def sub_ents(self, ents, sub):
        out = []
        for s in ents:
            if s[0] == "i":
                out.append(("i", subst(s[1], sub), self.sub_val(s[2], sub)))
            elif s[0] == "map":
                out.append(("map", subst(s[1], sub), self.sub_ents(s[2], sub), subst(s[3], sub)))
            elif s[0] == "if":
                out.append(("if", subst(s[1], sub), self.sub_ents(s[2], sub), self.sub_ents(s[3], sub)))
            elif s[0] == "some":
                out.append(("some", self.sub_ents(s[1], sub)))
            elif s[0] == "pop":
                out.append(("pop", subst(s[1], sub)))
            elif s[0] == "ext":
                out.append(("ext", subst(s[1], sub)))
        return tuple(out)

    def sub_content(self, c, sub, path=None):
        if isinstance(c, Seq):
            return Seq(c.kind, self.sub_segs(c.segs, sub))
        if isinstance(c, Dct):
            return Dct(self.sub_ents(c.ents, sub), subst(c.sym, sub) if c.sym is not None else None, c.default)
        if isinstance(c, Obj):
            return Obj(c.cls, {k: self.sub_val(v, sub) for k, v in c.fields.items()}, c.sym, c.name)
        return c

    # ------------------------------------------------------------- snapshots (value -> term)
    def snap(self, st, v, depth=0):
        if depth > 40:
            return mk("deep")
        k = v.kind
        if k == "e":
            return self.content(st, v)
        if k == "phi":
            c, a, b = v.x
            return mk_phi(c, self.snap(st, a, depth + 1), self.snap(st, b, depth + 1))
        if k == "seq":
            c = self.cont(st, v)
            if c is None:
                return mk("opaque", "seq")
            return self.snap_segs(st, c.kind, c.segs, depth)
        if k == "dict":
            c = self.cont(st, v)
            return self.snap_dict(st, c, depth)
        if k == "obj":
            c = st.heap.get(v.cell)
            return c.name if c is not None and c.name is not None else mk("new", "?", v.cell)
        if k == "fn":
            return mk("func", v.x.qual)
        if k == "cls":
            return mk("class", v.x.qual)
        if k == "bound":
            return mk("bm", self.snap(st, v.x[1], depth + 1), v.x[0].qual)
        if k == "mod":
            return mk("ext", v.x.name)
        if k == "extm":
            return mk("attr", self.snap(st, v.x[0], depth + 1), v.x[1])
        if k == "partial":
            return mk("partial", self.snap(st, v.x[0], depth + 1), tuple(self.snap(st, a, depth + 1) for a in v.x[1]),
                      tuple((n, self.snap(st, a, depth + 1)) for n, a in v.x[2]))
        return mk("opaque", k)

    def seg_term(self, st, s, depth):
        if s[0] == "i":
            return self.snap(st, s[1], depth + 1)
        if s[0] == "map":
            inner = s[2]
            cond = s[3]
            if len(inner) == 1 and inner[0][0] == "if" and not inner[0][3]:
                cond = mk_and(cond, inner[0][1])
                inner = inner[0][2]
            return mk("seg", "map", s[1], tuple(self.seg_term(st, x, depth + 1) for x in inner), cond)
        if s[0] == "if":
            return mk("seg", "if", s[1], tuple(self.seg_term(st, x, depth + 1) for x in s[2]),
                      tuple(self.seg_term(st, x, depth + 1) for x in s[3]))
        if s[0] == "some":
            return mk("seg", "some", tuple(self.seg_term(st, x, depth + 1) for x in s[1]))
        return mk("seg", "ext", s[1])

    def snap_segs(self, st, kind, segs, depth):
        if len(segs) == 1 and kind in ("list", "tuple"):
            if segs[0][0] == "ext":
                return segs[0][1] if kind == "list" else mk("conv", kind, segs[0][1])
            t = self.seg_term(st, segs[0], depth)
            if t.op == "seg" and t.a[0] == "map" and len(t.a[2]) == 1 and t.a[2][0].op != "seg":
                it, body, cond = t.a[1], t.a[2][0], t.a[3]
                if cond is TRUE and body.op == "elem" and body.a[0] is it:
                    return it
                return mk("map", it, body, cond)
        if kind == "set":
            if len(segs) == 1 and segs[0][0] == "ext":
                return mk("setof", segs[0][1])
        return tm.remake(kind, [self.seg_term(st, s, depth) for s in segs])

    def ent_term(self, st, s, depth):
        if s[0] == "i":
            return (s[1], self.snap(st, s[2], depth + 1))
        if s[0] in ("map",):
            return (mk("seg", "map", s[1], s[3]), mk("ents", *[mk("kv", *self.ent_term(st, x, depth + 1)) for x in s[2]]))
        if s[0] == "if":
            return (mk("seg", "if", s[1]), mk("ents2", mk("ents", *[mk("kv", *self.ent_term(st, x, depth + 1)) for x in s[2]]),
                                              mk("ents", *[mk("kv", *self.ent_term(st, x, depth + 1)) for x in s[3]])))
        if s[0] == "some":
            return (mk("seg", "some"), mk("ents", *[mk("kv", *self.ent_term(st, x, depth + 1)) for x in s[1]]))
        if s[0] == "pop":
            return (mk("seg", "pop"), s[1])
        return (mk("seg", "ext"), s[1])

    def snap_dict(self, st, c, depth=0):
        if c.sym is not None and not c.ents:
            return c.sym
        ents = [self.ent_term(st, e, depth) for e in c.ents]
        if c.sym is not None:
            ents = [(mk("seg", "sym"), c.sym)] + ents
        return mk("dict", *ents)

    # ------------------------------------------------------------- merging
    def merge_vals(self, st, c, a, b):
        return self.phi_val(st, c, a, b)

    def merge(self, c, sa, sb, base_guards=None, base_facts=None):
        """join of two states; sa holds under c"""
        ha, hb = sa.heap, sb.heap
        out = dict(hb)
        for k, va in ha.items():
            vb = hb.get(k)
            if vb is va:
                continue
            if vb is None:
                # only one side has an entry: objects are new there, ext contents fall back to the initial term
                if isinstance(va, T):
                    init = self.init_term.get(k)
                    out[k] = mk_phi(c, va, init) if init is not None else va
                else:
                    out[k] = va
                continue
            out[k] = self.merge_content(sb, c, va, vb)
        for k, vb in hb.items():
            if k not in ha and isinstance(vb, T):
                init = self.init_term.get(k)
                out[k] = mk_phi(c, init, vb) if init is not None else vb
        g = tuple(x for x in sa.guards if x in sb.guards)
        if base_guards is not None:
            g = base_guards + tuple(x for x in g if x not in base_guards)
        f = {k: v for k, v in sa.facts.items() if sb.facts.get(k) == v}
        return State(out, g, f, sb.loops)

    def merge_content(self, st, c, a, b):
        if isinstance(a, dict) and isinstance(b, dict):          # environments
            out = dict(b)
            for n, va in a.items():
                vb = b.get(n)
                if vb is None:
                    out[n] = va
                elif vb is not va:
                    out[n] = self.phi_val(st, c, va, vb)
            return out
        if isinstance(a, T) and isinstance(b, T):
            return mk_phi(c, a, b)
        if isinstance(a, Obj) and isinstance(b, Obj):
            f = dict(b.fields)
            for n, va in a.fields.items():
                vb = b.fields.get(n)
                if vb is None:
                    f[n] = self.phi_val(st, c, va, Val("e", mk("unset", n)))
                elif vb is not va:
                    f[n] = self.phi_val(st, c, va, vb)
            for n, vb in b.fields.items():
                if n not in a.fields:
                    f[n] = self.phi_val(st, c, Val("e", mk("unset", n)), vb)
            return Obj(b.cls, f, b.sym, b.name)
        if isinstance(a, Seq) and isinstance(b, Seq):
            p = 0
            while p < len(a.segs) and p < len(b.segs) and (a.segs[p] is b.segs[p] or a.segs[p] == b.segs[p]):
                p += 1
            ra, rb = a.segs[p:], b.segs[p:]
            if not ra and not rb:
                return b
            return Seq(b.kind, b.segs[:p] + (("if", c, ra, rb),))
        if isinstance(a, Dct) and isinstance(b, Dct):
            p = 0
            while p < len(a.ents) and p < len(b.ents) and (a.ents[p] is b.ents[p] or a.ents[p] == b.ents[p]):
                p += 1
            ra, rb = a.ents[p:], b.ents[p:]
            if not ra and not rb:
                return b
            return Dct(b.ents[:p] + (("if", c, ra, rb),), b.sym, b.default)
        return b

    # ------------------------------------------------------------- module set-up
    def init_module(self, m, st):
        if m.state != "new":
            return
        m.state = "busy"
        m.env = ("env", self.nuid())
        st.heap[m.env] = {}
        if m.is_pkg or True:
            parent = m.name.rpartition(".")[0]
            if parent and parent in self.modules:
                self.init_module(self.modules[parent], st)
        fr = Frame(m.env, None, m)
        save = self.cur
        self.cur = (m.path, 0, m.name + ".<module>")
        for s in m.tree.body:
            self.exec_block([s], st, fr)
        self.cur = save
        m.state = "done"

    def setvar(self, st, fr, name, v):
        env = fr.env
        if name in fr.globals_:
            env = fr.module.env
            self.eff(st, "globalwrite", name=name, module=fr.module.name)
        elif name in fr.nonlocals:
            for p in fr.parents:
                if name in st.heap[p]:
                    env = p
                    break
        e = dict(st.heap[env])
        e[name] = v
        st.heap[env] = e

    def getvar(self, st, fr, name):
        e = st.heap.get(fr.env)
        if e is not None and name in e:
            return e[name]
        for p in fr.parents:
            e = st.heap.get(p)
            if e is not None and name in e:
                return e[name]
        e = st.heap.get(fr.module.env, {})
        if name in e:
            return e[name]
        if name in BUILTINS or name in EXC_NAMES:
            return Val("e", mk("ext", name))
        # submodule already imported?
        full = fr.module.name + "." + name
        if full in self.modules:
            return Val("mod", x=self.modules[full])
        self.eff(st, "nameerror", name=name)
        return Val("e", mk("opaque", "name:" + name))

    # ------------------------------------------------------------- statements
    def exec_block(self, stmts, st, fr):
        """returns (fall-through state or None, [(kind, state, value)])"""
        outs = []
        for s in stmts:
            self.steps += 1
            self.tick()
            self.cur = (fr.module.path, getattr(s, "lineno", 0), fr.fn.qual if fr.fn else fr.module.name + ".<module>")
            try:
                st2, o = self.exec_stmt(s, st, fr)
            except PathEnd:
                return None, outs
            outs.extend(o)
            if st2 is None:
                return None, outs
            if st2 is not st:
                st = st2
        return st, outs

    def exec_stmt(self, s, st, fr):
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            self.note_opaque("stmt " + type(s).__name__)
            return st, []
        r = m(s, st, fr)
        return r if r is not None else (st, [])

    def s_Pass(self, s, st, fr):
        return st, []

    def s_Expr(self, s, st, fr):
        self.ev(s.value, st, fr)
        return st, []

    def s_Import(self, s, st, fr):
        for a in s.names:
            if a.name.split(".")[0] == self.pkg:
                root = self.modules.get(a.name if a.asname else self.pkg)
                if a.name in self.modules:
                    self.init_module(self.modules[a.name], self.base if st is self.base else st)
                v = Val("mod", x=root) if root else Val("e", mk("opaque", a.name))
            else:
                v = Val("e", mk("ext", a.name if a.asname else a.name.split(".")[0]))
            self.setvar(st, fr, a.asname or a.name.split(".")[0], v)
        return st, []

    def s_ImportFrom(self, s, st, fr):
        mod = s.module or ""
        if s.level:
            parts = fr.module.name.split(".")
            if not fr.module.is_pkg:
                parts = parts[:-1]
            if s.level > 1:
                parts = parts[:len(parts) - (s.level - 1)]
            mod = ".".join(parts + ([s.module] if s.module else []))
        internal = mod.split(".")[0] == self.pkg
        if internal and mod in self.modules:
            self.init_module(self.modules[mod], st)
        for a in s.names:
            n = a.asname or a.name
            if internal:
                m = self.modules.get(mod)
                sub = self.modules.get(mod + "." + a.name)
                e = st.heap.get(m.env, {}) if m else {}
                if a.name == "*":
                    for k, v in e.items():
                        if not k.startswith("_"):
                            self.setvar(st, fr, k, v)
                    continue
                if a.name in e:
                    self.setvar(st, fr, n, e[a.name])
                elif sub:
                    self.init_module(sub, st)
                    self.setvar(st, fr, n, Val("mod", x=sub))
                else:
                    self.eff(st, "importerror", name=mod + "." + a.name)
                    self.setvar(st, fr, n, Val("e", mk("opaque", mod + "." + a.name)))
            else:
                self.setvar(st, fr, n, Val("e", mk("ext", mod + "." + a.name)))
        return st, []

    def s_FunctionDef(self, s, st, fr):
        f = self.make_func(s, st, fr)
        v = Val("fn", x=f)
        for d in reversed(s.decorator_list):
            v = self.decorate(d, v, st, fr)
        self.setvar(st, fr, s.name, v)
        return st, []

    def make_func(self, node, st, fr):
        owner = fr.fn.qual if fr.fn else fr.module.name
        if getattr(fr, "cls", None) is not None and fr.fn is None:
            owner = fr.cls.qual
        name = "<lambda>" if isinstance(node, ast.Lambda) else node.name
        f = FuncInfo(node, fr.module, owner + "." + name, fr.cls if fr.fn is None else None,
                     (fr.env,) + tuple(fr.parents) if fr.fn is not None else tuple(fr.parents))
        self.captured.update(f.parent_env)
        a = node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        for n, d in zip(pos[len(pos) - len(a.defaults):], a.defaults):
            f.defaults[n] = self.ev(d, st, fr)
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if d is not None:
                f.defaults[x.arg] = self.ev(d, st, fr)
        f.cls_ctx = fr.cls if fr.fn is None else getattr(fr.fn, "cls_ctx", None)
        f.self_ctx = fr.self_val
        return f

    def decorate(self, d, v, st, fr):
        name = None
        if isinstance(d, ast.Name):
            name = d.id
        elif isinstance(d, ast.Attribute):
            name = d.attr
        elif isinstance(d, ast.Call):
            if isinstance(d.func, ast.Name):
                name = d.func.id
            elif isinstance(d.func, ast.Attribute):
                name = d.func.attr
        if v.kind == "fn":
            f = v.x
            if name == "property":
                f.kind = "property"
                return v
            if name == "staticmethod":
                f.kind = "static"
                return v
            if name == "classmethod":
                f.kind = "class"
                return v
            if name in ("abstractmethod",):
                return v
            if name == "cached_property":
                f.kind = "cachedprop"
                return v
            if name in ("lru_cache", "cache"):
                f.cached = True
                return v
            if name in ("setter",):
                f.kind = "setter"
                return v
            if name in ("wraps", "contextmanager", "overload", "no_type_check", "final", "override"):
                return v
        dv = self.ev(d, st, fr)
        if dv.kind in ("fn", "bound", "partial", "phi"):
            return self.call(dv, [v], [], st, d)
        return v

    def s_ClassDef(self, s, st, fr):
        ci = ClassInfo(s.name, fr.module.name + "." + s.name, fr.module, s)
        for b in s.bases:
            bv = self.ev(b, st, fr)
            if bv.kind == "cls":
                ci.bases.append(bv.x)
            else:
                ci.bases.append(show(bv.t) if bv.kind == "e" else "?")
        for d in s.decorator_list:
            n = d.func if isinstance(d, ast.Call) else d
            if (isinstance(n, ast.Name) and n.id == "dataclass") or (isinstance(n, ast.Attribute) and n.attr == "dataclass"):
                ci.dataclass = True
        env = ("env", self.nuid())
        st.heap[env] = {}
        cf = Frame(env, None, fr.module, ci, None, (fr.env,) if fr.fn else tuple(fr.parents))
        self.captured.update(cf.parents)
        for b in s.body:
            if isinstance(b, ast.Expr) and isinstance(b.value, ast.Constant):
                continue
            self.cur = (fr.module.path, b.lineno, ci.qual)
            if isinstance(b, ast.AnnAssign) and isinstance(b.target, ast.Name):
                dv, fac = None, None
                if b.value is not None:
                    if isinstance(b.value, ast.Call) and isinstance(b.value.func, (ast.Name, ast.Attribute)) and \
                            (getattr(b.value.func, "id", None) or getattr(b.value.func, "attr", None)) == "field":
                        for k in b.value.keywords:
                            if k.arg == "default":
                                dv = self.ev(k.value, st, cf)
                            if k.arg == "default_factory":
                                fac = self.ev(k.value, st, cf)
                    else:
                        dv = self.ev(b.value, st, cf)
                if ci.dataclass:
                    ci.dfields.append((b.target.id, dv, fac))
                if dv is not None:
                    e = dict(st.heap[env])
                    e[b.target.id] = dv
                    st.heap[env] = e
                continue
            if isinstance(b, ast.FunctionDef) and any(isinstance(d, ast.Attribute) and d.attr == "setter" for d in b.decorator_list):
                f = self.make_func(b, st, cf)
                f.kind = "setter"
                ci.attrs["%setter%" + b.name] = Val("fn", x=f)
                continue
            self.exec_block([b], st, cf)
        for k, v in st.heap[env].items():
            if v.kind == "fn" and v.x.cls is None and v.x.node is not None and v.x.qual.startswith(ci.qual):
                v.x.cls = ci
            ci.attrs[k] = v
        self.classes[ci.qual] = ci
        self.setvar(st, fr, s.name, Val("cls", x=ci))
        return st, []

    def s_Return(self, s, st, fr):
        v = self.ev(s.value, st, fr) if s.value is not None else self.cv(None)
        return None, [("ret", st, v)]

    def s_Break(self, s, st, fr):
        return None, [("brk", st, None)]

    def s_Continue(self, s, st, fr):
        return None, [("cont", st, None)]

    def s_Global(self, s, st, fr):
        fr.globals_.update(s.names)
        return st, []

    def s_Nonlocal(self, s, st, fr):
        fr.nonlocals.update(s.names)
        return st, []

    def s_Raise(self, s, st, fr):
        exc = "?"
        v = None
        if s.exc is not None:
            v = self.ev(s.exc, st, fr)
            exc = self.exc_name(st, v)
        self.eff(st, "raise", s, exc=exc, val=v)
        raise PathEnd()

    def exc_name(self, st, v):
        if v.kind == "obj":
            return st.heap[v.cell].cls.name
        if v.kind == "cls":
            return v.x.name
        if v.kind == "e":
            t = v.t
            if t.op == "call":
                return str(t.a[0])
            if t.op == "ext":
                return t.a[0]
        if v.kind == "phi":
            return self.exc_name(st, v.x[1]) + "|" + self.exc_name(st, v.x[2])
        return "?"

    def s_Assert(self, s, st, fr):
        c = self.cond(self.ev(s.test, st, fr), st)
        if c is TRUE:
            return st, []
        e = st.fork()
        if c is not FALSE:
            e.assume(c, False)
        self.eff(e, "raise", s, exc="AssertionError", val=None)
        if c is FALSE:
            raise PathEnd()
        st.assume(c, True)
        return st, []

    def s_Delete(self, s, st, fr):
        for t in s.targets:
            if isinstance(t, ast.Name):
                e = dict(st.heap[fr.env])
                e.pop(t.id, None)
                st.heap[fr.env] = e
            elif isinstance(t, ast.Subscript):
                b = self.ev(t.value, st, fr)
                k = self.ev_slice(t.slice, st, fr)
                self.mutate(st, b, "delitem", k, None, t)
            elif isinstance(t, ast.Attribute):
                b = self.ev(t.value, st, fr)
                if b.kind == "obj":
                    c = st.heap[b.cell]
                    f = dict(c.fields)
                    f.pop(t.attr, None)
                    st.heap[b.cell] = Obj(c.cls, f, c.sym, c.name)
                    self.eff(st, "setattr", s, obj=b, field=t.attr, val=None, deleted=True)
                else:
                    self.mutate(st, b, "delattr", self.cv(t.attr), None, t)
        return st, []

    def s_Assign(self, s, st, fr):
        v = self.ev(s.value, st, fr)
        for t in s.targets:
            self.assign(t, v, st, fr)
        return st, []

    def s_AnnAssign(self, s, st, fr):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, st, fr), st, fr)
        return st, []

    def s_AugAssign(self, s, st, fr):
        op = BINOPS.get(type(s.op), "?")
        if isinstance(s.target, ast.Name):
            cur = self.getvar(st, fr, s.target.id)
            nv = self.augment(cur, op, self.ev(s.value, st, fr), st, s)
            if nv is not None:
                self.setvar(st, fr, s.target.id, nv)
        elif isinstance(s.target, ast.Attribute):
            b = self.ev(s.target.value, st, fr)
            cur = self.getattr(b, s.target.attr, st, s.target)
            nv = self.augment(cur, op, self.ev(s.value, st, fr), st, s)
            if nv is not None:
                self.setattr(b, s.target.attr, nv, st, s)
        elif isinstance(s.target, ast.Subscript):
            b = self.ev(s.target.value, st, fr)
            k = self.ev_slice(s.target.slice, st, fr)
            cur = self.index(b, k, st, s.target)
            rhs = self.ev(s.value, st, fr)
            if cur.kind == "seq" and op == "+":
                self.call_method(cur, "extend", [rhs], [], st, s)
            else:
                self.mutate(st, b, "setitem", k, self.binop(op, cur, rhs, st, s), s)
        return st, []

    def augment(self, cur, op, rhs, st, node):
        """in-place operator: returns the new value to bind, or None when the object itself was updated"""
        if cur.kind == "seq" and op == "+":
            c = st.heap[cur.cell]
            if c.kind == "list":
                self.call_method(cur, "extend", [rhs], [], st, node)
                return None
        if cur.kind == "dict" and op == "|":
            self.call_method(cur, "update", [rhs], [], st, node)
            return None
        if cur.kind == "e" and cur.cell is not None and self.may_be_inplace(cur, st):
            nt = mk_bin(op, self.content(st, cur), self.snap(st, rhs))
            self.mutate(st, cur, "augassign", None, Val("e", nt), node)
            return None
        if cur.kind == "phi":
            c, a, b = cur.x
            if all(self.may_be_inplace(x, st) for x in self.leaves(cur)):
                nt = self.binop(op, cur, rhs, st, node)
                for g, l in self.gleaves(cur):
                    s2 = st
                    self.mutate(st, l, "augassign", None, nt, node, cond=g)
                return None
        if op == "+" and rhs.kind == "seq" and st.heap[rhs.cell].kind == "list" and cur.kind in ("phi", "e"):
            # list += list extends the list object itself, whichever one it is
            nt = self.binop(op, cur, rhs, st, node)
            for g, l in self.gleaves(cur) if cur.kind == "phi" else ((TRUE, cur),):
                if l.kind == "seq" and st.heap[l.cell].kind == "list" or l.kind == "e" and not is_const(self.snap(st, l)):
                    self.eff(st, "mutate", node, target=l, how="augassign", key=None, value=self.snap(st, rhs), val=rhs, keyval=None,
                             old=self.snap(st, l), path=l.path, cond=g, labels=self.labels_of(l, "augassign", None))
            return nt
        return self.binop(op, cur, rhs, st, node)

    def may_be_inplace(self, v, st):
        """+= on this value updates an existing array / frame / list object in place (as opposed to rebinding a number)"""
        if v.kind != "e" or v.cell is None:
            return False
        t = self.content(st, v)
        return arrayish(t)

    def leaves(self, v):
        if v.kind == "phi":
            return self.leaves(v.x[1]) + self.leaves(v.x[2])
        return [v]

    def gleaves(self, v, g=TRUE):
        if v.kind == "phi":
            return self.gleaves(v.x[1], mk_and(g, v.x[0])) + self.gleaves(v.x[2], mk_and(g, mk_not(v.x[0])))
        return [(g, v)]

    def assign(self, t, v, st, fr):
        if isinstance(t, ast.Name):
            self.setvar(st, fr, t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            self.unpack(t.elts, v, st, fr)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, st, fr)
        elif isinstance(t, ast.Attribute):
            b = self.ev(t.value, st, fr)
            self.setattr(b, t.attr, v, st, t)
        elif isinstance(t, ast.Subscript):
            b = self.ev(t.value, st, fr)
            k = self.ev_slice(t.slice, st, fr)
            self.mutate(st, b, "setitem", k, v, t)

    def unpack(self, elts, v, st, fr):
        n = len(elts)
        star = [i for i, e in enumerate(elts) if isinstance(e, ast.Starred)]
        if v.kind == "seq":
            c = self.cont(st, v)
            if all(s[0] == "i" for s in c.segs):
                items = [s[1] for s in c.segs]
                if not star and len(items) == n:
                    for e, i in zip(elts, items):
                        self.assign(e, i, st, fr)
                    return
                if star and len(items) >= n - 1:
                    k = star[0]
                    tail = n - k - 1
                    for e, i in zip(elts[:k], items[:k]):
                        self.assign(e, i, st, fr)
                    mid = items[k:len(items) - tail]
                    self.assign(elts[k].value, self.mkseq(st, "list", mid), st, fr)
                    for e, i in zip(elts[k + 1:], items[len(items) - tail:]):
                        self.assign(e, i, st, fr)
                    return
        for i, e in enumerate(elts):
            if isinstance(e, ast.Starred):
                self.note_opaque("starred unpack")
                self.assign(e.value, self.ext(st, mk("opaque", "star", self.kid("star", st, e))), st, fr)
            else:
                self.assign(e, self.index(v, self.cv(i if not star or i < star[0] else i - n), st, e), st, fr)

    def cond(self, v, st):
        return assume(self.truth(v, st), st.facts)

    def truth(self, v, st):
        if v.kind == "phi":
            return mk_phi(v.x[0], self.truth(v.x[1], st), self.truth(v.x[2], st))
        if v.kind in ("obj", "fn", "cls", "mod", "bound", "partial"):
            return TRUE
        return mk_truth(self.snap(st, v))

    def s_If(self, s, st, fr):
        c = self.cond(self.ev(s.test, st, fr), st)
        if c is TRUE:
            return self.exec_block(s.body, st, fr)
        if c is FALSE:
            return self.exec_block(s.orelse, st, fr) if s.orelse else (st, [])
        self.tests.append((c, self.cur))
        v = self.forced.get(self.cur) if self.forced else None
        if v is not None:
            st.assume(c, v)
            return self.exec_block(s.body if v else s.orelse, st, fr) if v or s.orelse else (st, [])
        sa, sb = st.fork(), st.fork()
        sa.assume(c, True)
        sb.assume(c, False)
        fa, oa = self.exec_block(s.body, sa, fr)
        fb, ob = self.exec_block(s.orelse, sb, fr) if s.orelse else (sb, [])
        outs = oa + ob
        if fa is None and fb is None:
            return None, outs
        if fa is None:
            return fb, outs
        if fb is None:
            return fa, outs
        if not outs and False:
            pass
        m = self.merge(c, fa, fb, st.guards)
        return m, outs

    def s_Try(self, s, st, fr):
        pre = st.fork()
        fa, outs = self.exec_block(s.body, st, fr)
        outs = list(outs)
        if fa is not None and s.orelse:
            fa, o = self.exec_block(s.orelse, fa, fr)
            outs += o
        for h in s.handlers:
            hs = pre.fork()
            c = mk("caught", self.kid("caught", st, s))
            hs.assume(c, True)
            if h.name:
                self.setvar(hs, fr, h.name, self.ext(hs, mk("opaque", "exception")))
            fh, o = self.exec_block(h.body, hs, fr)
            outs += o
            if fh is not None:
                fa = fh if fa is None else self.merge(c, fh, fa, pre.guards)
        if s.finalbody:
            outs2 = []
            for k, so, v in outs:
                f2, o2 = self.exec_block(s.finalbody, so, fr)
                if f2 is not None:
                    outs2.append((k, f2, v))
                outs2 += o2
            outs = outs2
            if fa is not None:
                fa, o = self.exec_block(s.finalbody, fa, fr)
                outs += o
        return fa, outs

    def s_With(self, s, st, fr):
        for i in s.items:
            v = self.ev(i.context_expr, st, fr)
            if i.optional_vars is not None:
                if v.kind == "obj":
                    v = self.call_method(v, "__enter__", [], [], st, s)
                self.assign(i.optional_vars, v, st, fr)
        return self.exec_block(s.body, st, fr)

    def s_For(self, s, st, fr):
        it = self.ev(s.iter, st, fr)

        def body(st2, elem):
            self.assign(s.target, elem, st2, fr)
            return self.exec_block(s.body, st2, fr)
        fall, outs = self.run_iter(it, st, body, s)
        rets = [o for o in outs if o[0] == "ret"]
        if s.orelse and fall is not None:
            fall, o = self.exec_block(s.orelse, fall, fr)
            rets += o
        return fall, rets

    def s_While(self, s, st, fr):
        itT = mk("while", self.kid("while", st, s))

        def body(st2):
            c = self.cond(self.ev(s.test, st2, fr), st2)
            if c is FALSE:
                return st2, []
            if c is TRUE:
                return self.exec_block(s.body, st2, fr)
            a = st2.fork()
            a.assume(c, True)
            fa, o = self.exec_block(s.body, a, fr)
            if fa is not None:
                fa.guards, fa.facts = st2.guards, st2.facts
            return fa, o
        fall, outs = self.sym_loop(st, itT, body, s, whiletest=s.test)
        if fall is not None:
            c = self.cond(self.ev(s.test, fall, fr), fall)
            if c is not TRUE and c is not FALSE:
                fall.facts = add_fact(fall.facts, c, False)
        return fall, [o for o in outs if o[0] == "ret"]

    def s_Match(self, s, st, fr):
        subj = self.ev(s.subject, st, fr)
        outs = []
        fall = None
        cur = st
        for case in s.cases:
            if cur is None:
                break
            c = self.pattern(case.pattern, subj, cur, fr)
            if case.guard is not None:
                c = mk_and(c, self.cond(self.ev(case.guard, cur, fr), cur))
            c = assume(c, cur.facts)
            if c is FALSE:
                continue
            sa = cur.fork()
            if c is not TRUE:
                sa.assume(c, True)
            f, o = self.exec_block(case.body, sa, fr)
            outs += o
            if f is not None:
                fall = f if fall is None else self.merge(c, f, fall, st.guards)
            if c is TRUE:
                cur = None
            else:
                cur.assume(c, False)
        if cur is not None:
            fall = cur if fall is None else self.merge(mk_and(*cur.guards[len(st.guards):]), cur, fall, st.guards)
        return fall, outs

    def pattern(self, p, subj, st, fr):
        if isinstance(p, ast.MatchValue):
            return mk_cmp("==", self.snap(st, subj), self.snap(st, self.ev(p.value, st, fr)))
        if isinstance(p, ast.MatchSingleton):
            return mk_cmp("is", self.snap(st, subj), const(p.value))
        if isinstance(p, ast.MatchOr):
            return mk_or(*[self.pattern(x, subj, st, fr) for x in p.patterns])
        if isinstance(p, ast.MatchAs):
            c = self.pattern(p.pattern, subj, st, fr) if p.pattern else TRUE
            if p.name:
                self.setvar(st, fr, p.name, subj)
            return c
        return mk("opaque", "pattern", self.kid("pattern", st, p))

    # ------------------------------------------------------------- loops
    def plan(self, v, st, node):
        """how to iterate a value: list of steps ('item', Val) ('sym', itT, fn(n)->elem Val) ('if', c, p, q) ('nest', itT, plan, cond) ('some', plan)"""
        if v.kind == "phi":
            c, a, b = v.x
            return [("if", c, self.plan(a, st, node), self.plan(b, st, node))]
        if v.kind == "seq":
            c = self.cont(st, v)
            if c.kind == "set" and len(c.segs) and not (len(c.segs) == 1 and c.segs[0][0] == "i"):
                if len(c.segs) == 1 and c.segs[0][0] == "ext" and strip_conv(c.segs[0][1]).op in ("param", "attr", "phi", "elem", "proj"):
                    t = mk("setof", c.segs[0][1])
                    return [("setiter", [("sym", t, lambda n: self.view_elem(st, v, mk("elem", t, n)))])]
                return [("setiter", self.plan_segs(c.segs, st))]
            return self.plan_segs(c.segs, st)
        if v.kind == "dict":
            return self.plan_dict(self.cont(st, v), st, "keys")
        if v.kind == "iterview":
            return v.x(st)
        if v.kind == "obj":
            c = st.heap[v.cell]
            f, _ = c.cls.lookup("__iter__")
            if f is not None:
                return self.plan(self.call(Val("bound", x=(f.x, v)), [], [], st, node), st, node)
        t = self.snap(st, v)
        return self.plan_term(t, v, st)

    def plan_term(self, t, v, st):
        t0 = t
        t = self.iter_norm(t)
        if t.op == "phi":
            a, b = Val("e", t.a[1], None, v.views), Val("e", t.a[2], None, v.views)
            return [("if", t.a[0], self.plan_term(t.a[1], a, st), self.plan_term(t.a[2], b, st))]
        if t.op in ("list", "tuple", "set") and all(x.op != "seg" for x in t.a):
            p = [("item", Val("e", x, None, v.views)) for x in t.a]
            return [("setiter", p)] if t.op == "set" and len(p) > 1 else p
        if t.op == "map" and t.a[2] is TRUE:
            it, body = t.a[0], t.a[1]
            return [("nest", it, [("item", Val("e", body, None, v.views))], TRUE)]
        if t.op == "range":
            a, b, s = t.a
            if is_const(a) and is_const(b) and is_const(s) and isinstance(cval(a), int) and isinstance(cval(b), int):
                r = range(cval(a), cval(b), cval(s))
                if len(r) <= UNROLL:
                    return [("item", self.cv(i)) for i in r]
            if is_const(a) and cval(a) == 0 and is_const(s) and cval(s) == 1 and b.op == "len":
                src = self.iter_norm(b.a[0])
                return [("sym", src, lambda n, src=src: Val("e", mk("pos", src, n)))]
        if t.op == "enumerate":
            src, start = t.a
            if is_const(start) and cval(start) == 0:
                inner = self.plan_term(src, v, st)
                return self.plan_zip_pos(inner, st)
        if t.op in ("zip",) and all(x is t.a[0] for x in t.a):
            pass
        if t.op == "setof":
            return [("setiter", [("sym", t, lambda n: self.view_elem(st, v, mk("elem", t, n)))])]
        return [("sym", t, lambda n: self.view_elem(st, v, mk("elem", t, n)))]

    def view_elem(self, st, v, t):
        if t.a[0].op in ("combinations", "zip", "range", "items") or tm_names(t.a[0]):
            return Val("e", t)
        return Val("e", t, self.new_cell(st), (v,) if v is not None and v.kind == "e" and v.cell is not None else ())

    def plan_zip_pos(self, inner, st, base=0):
        out = []
        k = base
        for p in inner:
            if p[0] == "item":
                out.append(("item", ("tup", [self.cv(k) if k is not None else Val("e", mk("opaque", "pos", self.kid("pos", st))), p[1]])))
                k = k + 1 if k is not None else None
            elif p[0] == "sym":
                itT, fn = p[1], p[2]
                out.append(("sym", itT, lambda n, itT=itT, fn=fn, k=k: ("tup", [Val("e", mk("pos", itT, n)), fn(n)])))
                k = None
            elif p[0] == "nest" and len(p[2]) == 1 and p[2][0][0] == "item" and p[3] is TRUE:
                itT = p[1]
                out.append(("nest", itT, [("item", ("tup", [Val("e", mk("pos", itT, 0)), p[2][0][1]]))], p[3]))
                k = None
            elif p[0] == "if":
                out.append(("if", p[1], self.plan_zip_pos(p[2], st, k), self.plan_zip_pos(p[3], st, k)))
                k = None
            elif p[0] == "setiter":
                out.append(("setiter", self.plan_zip_pos(p[1], st, k)))
            else:
                out.append(("sym", mk("opaque", "enum", self.kid("enum", st)), lambda n: ("tup", [Val("e", mk("opaque", "pos", self.kid("pos", st))), Val("e", mk("opaque", "elem", self.kid("elem", st)))])))
                k = None
        return out

    def plan_segs(self, segs, st):
        out = []
        for s in segs:
            if s[0] == "i":
                out.append(("item", s[1]))
            elif s[0] == "map":
                out.append(("nest", s[1], self.plan_segs(s[2], st), s[3]))
            elif s[0] == "if":
                out.append(("if", s[1], self.plan_segs(s[2], st), self.plan_segs(s[3], st)))
            elif s[0] == "some":
                out.append(("some", self.plan_segs(s[1], st)))
            elif s[0] == "ext":
                out.extend(self.plan_term(s[1], Val("e", s[1]), st))
        return out

    def plan_dict(self, c, st, mode):
        out = []

        def item(kt, v):
            if mode == "keys":
                return self.key_val(st, kt)
            if mode == "values":
                return v
            return ("tup", [self.key_val(st, kt), v])

        def go(ents):
            o = []
            for e in ents:
                if e[0] == "i":
                    o.append(("item", item(e[1], e[2])))
                elif e[0] == "map":
                    o.append(("nest", e[1], go(e[2]), e[3]))
                elif e[0] == "if":
                    o.append(("if", e[1], go(e[2]), go(e[3])))
                elif e[0] == "some":
                    o.append(("some", go(e[1])))
                elif e[0] == "ext":
                    src = mk("items", e[1])
                    o.append(("sym", src, lambda n, src=src: item(mk("proj", mk("elem", src, n), 0), Val("e", mk("proj", mk("elem", src, n), 1)))))
            return o
        if c.sym is not None:
            src = mk("items", c.sym)
            out.append(("sym", src, lambda n: item(mk("proj", mk("elem", src, n), 0), Val("e", mk("proj", mk("elem", src, n), 1)))))
        return out + go(c.ents)

    def key_val(self, st, kt):
        if kt.op == "tuple":
            return self.mkseq(st, "tuple", [self.key_val(st, x) for x in kt.a])
        return Val("e", kt)

    def iter_norm(self, t):
        while True:
            n = strip_conv(t)
            if n.op == "copy":
                n = n.a[0]
            if n.op == "attr" and n.a[1] in ("columns",) and n.a[0].op in ("copy",):
                n = mk("attr", n.a[0].a[0], "columns")
            if n is t:
                return t
            t = n

    def run_iter(self, it, st, body, node):
        p = self.plan(it, st, node)
        fall, outs = self.run_plan(p, st, body, node)
        # breaks were turned into fall-through by the loops
        return fall, outs

    def flat_items(self, p):
        return len(p) <= UNROLL and all(x[0] == "item" for x in p)

    def mat(self, st, e):
        if isinstance(e, tuple) and e[0] == "tup":
            return self.mkseq(st, "tuple", [self.mat(st, x) for x in e[1]])
        return e

    def run_plan(self, p, st, body, node):
        outs = []
        brk = []
        i = 0
        while i < len(p):
            step = p[i]
            i += 1
            if st is None:
                break
            if step[0] == "item":
                try:
                    f, o = body(st, self.mat(st, step[1]))
                except PathEnd:
                    st = None
                    break
                base = st
                st, rest, b = self.settle(f, o)
                outs += rest
                brk += b
            elif step[0] == "sym":
                itT, fn = step[1], step[2]
                n = sum(1 for l in st.loops if l[0] is itT)
                st, o = self.sym_loop(st, itT, lambda s2: body(s2, self.mat(s2, fn(n))), node)
                outs += o
            elif step[0] == "nest":
                itT, inner, c = step[1], step[2], step[3]
                n = sum(1 for l in st.loops if l[0] is itT)
                if n:
                    sub = {mk("elem", itT, 0): mk("elem", itT, n), mk("pos", itT, 0): mk("pos", itT, n)}
                    inner = self.sub_plan(inner, sub)
                    c = subst(c, sub)

                def nb(s2, inner=inner, c=c):
                    if c is not TRUE:
                        a = s2.fork()
                        a.assume(c, True)
                        f, o = self.run_plan(inner, a, body, node)
                        if f is None:
                            s2.assume(c, False)
                            return s2, o
                        return self.merge(c, f, s2, s2.guards), o
                    return self.run_plan(inner, s2, body, node)
                st, o = self.sym_loop(st, itT, nb, node)
                outs += o
            elif step[0] == "if":
                c = assume(step[1], st.facts)
                if c is TRUE or c is FALSE:
                    st, o = self.run_plan(step[2] if c is TRUE else step[3], st, body, node)
                    outs += o
                    continue
                sa, sb = st.fork(), st.fork()
                sa.assume(c, True)
                sb.assume(c, False)
                fa, oa = self.run_plan(step[2], sa, body, node)
                fb, ob = self.run_plan(step[3], sb, body, node)
                outs += oa + ob
                if fa is None or fb is None:
                    st = fa or fb
                else:
                    st = self.merge(c, fa, fb, st.guards)
            elif step[0] == "some":
                itT = mk("some", self.kid("some", st, node), len(outs), i)
                st, o = self.sym_loop(st, itT, lambda s2, inner=step[1]: self.run_plan(inner, s2, body, node), node)
                outs += o
            elif step[0] == "setiter":
                self.eff(st, "setiter", node, what="loop")
                g = st
                st, o = self.run_plan(step[1], st, body, node)
                self.eff(st if st is not None else g, "setend", node)
                outs += o
        for g, b in brk:
            if st is None:
                st = b
            else:
                st = self.merge(g, b, st)
        return st, outs

    def sub_plan(self, p, sub):
        out = []
        for s in p:
            if s[0] == "item":
                out.append(("item", self.sub_item(s[1], sub)))
            elif s[0] == "nest":
                out.append(("nest", subst(s[1], sub), self.sub_plan(s[2], sub), subst(s[3], sub)))
            elif s[0] == "if":
                out.append(("if", subst(s[1], sub), self.sub_plan(s[2], sub), self.sub_plan(s[3], sub)))
            elif s[0] in ("some", "setiter"):
                out.append((s[0], self.sub_plan(s[1], sub)))
            elif s[0] == "sym":
                nt = subst(s[1], sub)
                out.append(("sym", nt, lambda n, f=s[2]: self.sub_item(f(n), sub)))
        return out

    def sub_item(self, v, sub):
        if isinstance(v, tuple) and v[0] == "tup":
            return ("tup", [self.sub_item(x, sub) for x in v[1]])
        return self.sub_val(v, sub)

    def settle(self, f, outs):
        """merge 'continue' outcomes into the fall-through of one iteration; split breaks and returns"""
        rest = [o for o in outs if o[0] == "ret"]
        brk = []
        conts = []
        for k, s, v in outs:
            if k == "cont":
                conts.append(s)
            elif k == "brk":
                brk.append(s)
        cur = f
        for s in reversed(conts):
            if cur is None:
                cur = s
            else:
                g = [x for x in s.guards if x not in cur.guards]
                cur = self.merge(mk_and(*g) if g else mk("opaque", "cont", self.kid("cont", s)), s, cur)
        b = []
        for s in brk:
            g = [x for x in s.guards if cur is None or x not in cur.guards]
            b.append((mk_and(*g) if g else TRUE, s))
        return cur, rest, b

    def sym_loop(self, st, itT, body, node, whiletest=None):
        luid = self.kid(("loop", itT), st, node)
        n = sum(1 for l in st.loops if l[0] is itT)
        frame = (itT, n, luid)
        pre = st
        mods = {}                # key -> list of body post contents seen
        havoc = {}
        carry = {}
        for attempt in range(6):
            mark = len(self.log)
            lmark = len(self.loop_recs)
            cells_mark = self.ncell
            s1 = pre.fork()
            s1.loops = pre.loops + (frame,)
            for k, v in carry.items():
                s1.heap.setdefault(k, v)
            for k, v in havoc.items():
                self.put(s1, k, v)
            s_in = s1.fork()
            try:
                f, outs = body(s1)
            except PathEnd:
                f, outs = None, []
            cur, rets, brks = self.settle(f, outs)
            new = {}
            for sx in ([cur] if cur is not None else []) + [b for _, b in brks]:
                for k, v in self.diff(pre, s_in, sx).items():
                    new.setdefault(k, []).append(v)
            self._last_states = ([cur] if cur is not None else []) + [b for _, b in brks]
            for sx in self._last_states:
                for k, v in sx.heap.items():
                    if k not in pre.heap and not isinstance(v, dict):
                        carry[k] = v
            fresh = [k for k in new if k not in havoc]
            grow = False
            if fresh or self.shapes_grow(new, havoc):
                for k in fresh:
                    mods[k] = True
                    havoc[k] = self.make_havoc(pre, k, new[k], luid, itT, others=havoc)
                    grow = True
                for k in new:
                    if k not in fresh and self.need_regrow(havoc[k], new[k]):
                        havoc[k] = self.make_havoc(pre, k, new[k], luid, itT, old=havoc[k], others=havoc)
                        grow = True
                if grow and attempt < 5:
                    del self.log[mark:]
                    del self.loop_recs[lmark:]
                    continue
            break
        # ---- result state
        out = pre.fork()
        rec = {"uid": luid, "it": itT, "vars": {}, "snap": {}, "where": self.cur, "guards": pre.guards, "loops": pre.loops,
               "func": self.stack[-1] if self.stack else None, "seq": mark, "seq_end": len(self.log), "node": node}
        if cur is None and not brks:
            # body never completes normally (always raises / returns)
            res = out
        else:
            # cells and env names created in the body stay reachable
            src = cur if cur is not None else brks[0][1]
            for k, v in src.heap.items():
                if k not in out.heap:
                    out.heap[k] = v
                elif isinstance(v, dict) and isinstance(out.heap[k], dict):
                    miss = {n_: x for n_, x in v.items() if n_ not in out.heap[k]}
                    if miss:
                        e = dict(out.heap[k])
                        e.update(miss)
                        out.heap[k] = e
            for k in havoc:
                posts = []
                if cur is not None:
                    posts.append(self.get(cur, k))
                bp = [self.get(b, k) for _, b in brks]
                fin, r = self.finalise(pre, s_in, k, havoc[k], posts, bp, itT, n, luid, src)
                self.put(out, k, fin)
                rec["vars"][k] = r
                if k[0] == "var" and cur is not None:
                    v0, v1 = self.get(pre, k), self.get(cur, k)
                    rec["snap"][k] = tuple(self.snap(s_, v) if isinstance(v, Val) else None for s_, v in ((pre, v0), (cur, v1)))
            res = out
        self.loop_recs.append(rec)
        res.loops = pre.loops
        outs = []
        for k, s, v in rets:
            s.loops = pre.loops
            s.guards = s.guards + (mk("looped", luid),)
            outs.append((k, s, v))
        return res, outs

    def get(self, st, key):
        if isinstance(key, tuple) and key and key[0] == "var":
            return st.heap.get(key[1], {}).get(key[2])
        if isinstance(key, tuple) and key and key[0] == "fld":
            o = st.heap.get(key[1])
            return o.fields.get(key[2]) if o is not None else None
        c = key[1]
        v = st.heap.get(c)
        if v is None:
            v = self.init_term.get(c)
        return v

    def put(self, st, key, v):
        if key[0] == "var":
            e = dict(st.heap.get(key[1], {}))
            if v is None:
                e.pop(key[2], None)
            else:
                e[key[2]] = v
            st.heap[key[1]] = e
        elif key[0] == "fld":
            o = st.heap[key[1]]
            f = dict(o.fields)
            if v is None:
                f.pop(key[2], None)
            else:
                f[key[2]] = v
            st.heap[key[1]] = Obj(o.cls, f, o.sym, o.name)
        else:
            st.heap[key[1]] = v

    def diff(self, pre, a, b):
        """what the body changed, among things that existed before the loop: {key: post}"""
        out = {}
        for k, vb in b.heap.items():
            va = a.heap.get(k)
            if va is vb:
                continue
            if isinstance(vb, dict):
                if va is None:
                    continue
                for n, x in vb.items():
                    y = va.get(n)
                    if y is None or y is x:
                        continue
                    if n in pre.heap.get(k, {}) and not self.same_now(a, y, b, x):
                        out[("var", k, n)] = x
            elif isinstance(vb, Obj):
                if va is None:
                    continue
                for n, x in vb.fields.items():
                    y = va.fields.get(n)
                    if y is x:
                        continue
                    if y is None or not self.same_now(a, y, b, x):
                        out[("fld", k, n)] = x
            elif isinstance(vb, T):
                y = va if va is not None else self.init_term.get(k)
                if y is not None and y is not vb and k in self.cells_before(pre, k):
                    out[("cell", k)] = vb
            elif isinstance(vb, (Seq, Dct)):
                if va is None:
                    continue
                if isinstance(va, Seq) and isinstance(vb, Seq) and va.segs == vb.segs:
                    continue
                if isinstance(va, Dct) and isinstance(vb, Dct) and va.ents == vb.ents:
                    continue
                out[("cell", k)] = vb
        return out

    def cells_before(self, pre, k):
        # ext cells get a heap entry only when first mutated; the init term table tells when they were born
        cl = self.cell_loops.get(k, ())
        return {k} if tuple(pre.loops[:len(cl)]) == cl and len(cl) <= len(pre.loops) else set()

    def same_now(self, sa, a, sb, b):
        if self.same(a, b):
            return True
        if a.kind == "e" and b.kind == "e":
            return self.content(sa, a) is self.content(sb, b)
        return False

    def containers(self, st, v):
        ls = self.leaves(v)
        return all(l.kind in ("seq", "dict") for l in ls) and len({l.kind for l in ls}) == 1

    def make_havoc(self, pre, k, posts, luid, itT, old=None, others=()):
        p0 = self.get(pre, k)
        if k[0] == "cell" and p0 is None:              # container born in an earlier iteration
            q0 = posts[0]
            p0 = Seq(q0.kind, ()) if isinstance(q0, Seq) else Dct((), q0.sym, q0.default) if isinstance(q0, Dct) else None
        name = k[2] if k[0] in ("var", "fld") else self.cell_name(k[1], others)
        if k[0] == "cell" and isinstance(p0, Seq):
            shapes = ()
            for q in posts:
                if isinstance(q, Seq):
                    shapes = self.union_segs(shapes, self.new_segs(q.segs, p0.segs))
            if old is not None:
                shapes = self.union_segs(tuple(s for s in (old.segs[-1][1] if old.segs and old.segs[-1][0] == "some" else ())), shapes)
            return Seq(p0.kind, p0.segs + ((("some", shapes),) if shapes else ()))
        if k[0] == "cell" and isinstance(p0, Dct):
            shapes = ()
            for q in posts:
                if isinstance(q, Dct):
                    shapes = self.union_segs(shapes, self.new_segs(q.ents, p0.ents))
            if old is not None:
                shapes = self.union_segs(tuple(s for s in (old.ents[-1][1] if old.ents and old.ents[-1][0] == "some" else ())), shapes)
            return Dct(p0.ents + ((("some", shapes),) if shapes else ()), p0.sym, p0.default)
        if k[0] in ("var", "fld") and isinstance(p0, Val) and p0.kind in ("seq", "dict", "phi") and all(
                isinstance(q, Val) and self.containers(None, q) for q in posts) and self.containers(None, p0):
            return self.join_containers(pre, p0, posts, luid, name, old)
        t = mk("loopin", luid, name)
        if k[0] == "cell":
            return t
        v = Val("e", t, self.new_cell(pre))
        self.init_term[v.cell] = t
        return v

    def cell_name(self, c, others):
        """a name that does not depend on how often the allocation was analysed"""
        site = self.cell_site.get(c)
        if site is None:
            return "cell%s" % c
        n = sorted({k[1] for k in others if k[0] == "cell" and self.cell_site.get(k[1]) == site} | {c}).index(c)
        return "cell_%s_%s%s" % (site[1], site[2], "_%d" % n if n else "")

    def join_containers(self, pre, p0, posts, luid, name, old):
        # a container variable that is rebound inside the loop: forget the object, keep the shapes of its entries
        ls = self.leaves(p0)
        kind = ls[0].kind
        shapes = ()
        last = self._last_states
        for v in [p0] + list(posts):
            for l in self.leaves(v):
                c = None
                for s in [pre] + last:
                    c2 = s.heap.get(l.cell)
                    if c2 is not None:
                        c = c2
                        segs = c.segs if kind == "seq" else c.ents
                        shapes = self.union_segs(shapes, tuple(x for s_ in segs for x in (s_[1] if s_[0] == "some" else (s_,))))
        if old is not None:
            cell = old.cell
            oc = self._havoc_content[cell]
            shapes = self.union_segs(tuple(x for s_ in (oc.segs if kind == "seq" else oc.ents) if s_[0] == "some" for x in s_[1]), shapes)
        else:
            cell = self.new_cell(pre)
        proto = pre.heap.get(ls[0].cell)
        n = self._regrow[cell] = self._regrow.get(cell, 0) + 1
        if n > 2:                                         # shapes feed on themselves: forget them
            w = (("ext", mk("loopin", luid, name)),)
            pre.heap[cell] = Seq(proto.kind if proto else "list", w) if kind == "seq" else Dct(w, proto.sym if proto else None, proto.default if proto else None)
        elif kind == "seq":
            pre.heap[cell] = Seq(proto.kind if proto else "list", (("some", shapes),) if shapes else ())
        else:
            pre.heap[cell] = Dct((("some", shapes),) if shapes else (), proto.sym if proto else None, proto.default if proto else None)
        self._havoc_content[cell] = pre.heap[cell]
        return Val(kind, cell=cell)

    def new_segs(self, q, p):
        n = 0
        while n < len(q) and n < len(p) and (q[n] is p[n] or q[n] == p[n]):
            n += 1
        out = []
        for s in q[n:]:
            if s[0] == "some":
                out.extend(s[1])
            elif s[0] == "if":
                out.append(s)
            else:
                out.append(s)
        return tuple(out)

    def union_segs(self, a, b):
        out = list(a)
        for s in b:
            if s not in out and not any(self.same_shape(s, o) for o in out):
                out.append(s)
        return tuple(out)

    def same_shape(self, a, b):
        if a[0] != b[0]:
            return False
        if a[0] == "i" and len(a) == 3:
            return a[1] is b[1] and self.val_shape(a[2]) == self.val_shape(b[2])
        if a[0] == "i":
            return self.val_shape(a[1]) == self.val_shape(b[1])
        if a[0] == "map":
            return a[1] is b[1] and a[3] is b[3] and len(a[2]) == len(b[2]) and all(self.same_shape(x, y) for x, y in zip(a[2], b[2]))
        if a[0] == "if":
            return a[1] is b[1] and len(a[2]) == len(b[2]) and len(a[3]) == len(b[3]) and \
                all(self.same_shape(x, y) for x, y in zip(a[2] + a[3], b[2] + b[3]))
        if a[0] == "some":
            return len(a[1]) == len(b[1]) and all(self.same_shape(x, y) for x, y in zip(a[1], b[1]))
        return a == b

    def val_shape(self, v):
        if v.kind == "e":
            return ("e", v.t)
        if v.kind == "phi":
            return ("phi", v.x[0], self.val_shape(v.x[1]), self.val_shape(v.x[2]))
        if v.kind in ("seq", "dict", "obj"):
            return (v.kind, self.cell_site.get(v.cell))
        return (v.kind, id(v.x))

    def _pre_content(self, h):
        return self._havoc_content.get(h.cell)

    def shapes_grow(self, new, havoc):
        return any(k in havoc and self.need_regrow(havoc[k], v) for k, v in new.items())

    def need_regrow(self, h, posts):
        if isinstance(h, Val) and h.kind in ("seq", "dict"):
            have = ()
            for s in self._last_states[:0]:
                pass
            c = self._pre_content(h)
            if c is not None and any(x[0] == "ext" and x[1].op == "loopin" for x in (c.segs if isinstance(c, Seq) else c.ents)):
                return False
            segs = (c.segs if isinstance(c, Seq) else c.ents) if c is not None else ()
            have = tuple(x for s_ in segs for x in (s_[1] if s_[0] == "some" else (s_,)))
            for q in posts:
                for l in self.leaves(q):
                    for s in self._last_states:
                        c2 = s.heap.get(l.cell)
                        if c2 is None:
                            continue
                        for s_ in (c2.segs if isinstance(c2, Seq) else c2.ents):
                            for x in (s_[1] if s_[0] == "some" else (s_,)):
                                if not any(self.same_shape(x, o) for o in have):
                                    return True
            return False
        if isinstance(h, Seq):
            have = h.segs[-1][1] if h.segs and h.segs[-1][0] == "some" else ()
            for q in posts:
                for s in self.new_segs(q.segs, h.segs) if isinstance(q, Seq) else ():
                    if not any(self.same_shape(s, o) for o in have):
                        return True
        if isinstance(h, Dct):
            have = h.ents[-1][1] if h.ents and h.ents[-1][0] == "some" else ()
            for q in posts:
                for s in self.new_segs(q.ents, h.ents) if isinstance(q, Dct) else ():
                    if not any(self.same_shape(s, o) for o in have):
                        return True
        return False

    def finalise(self, pre, s_in, k, h, posts, bposts, itT, n, luid, src):
        p0 = self.get(pre, k)
        if k[0] == "cell" and p0 is None and isinstance(h, (Seq, Dct)):
            return h, ("some", None, h)
        exact = not bposts and itT.op not in ("some", "while")
        post = posts[0] if posts else (bposts[0] if bposts else h)
        if isinstance(h, Seq):
            allp = posts + bposts
            if exact and len(posts) == 1 and isinstance(post, Seq) and post.segs[:len(h.segs)] == h.segs:
                app = post.segs[len(h.segs):]
                if not app and len(h.segs) > len(p0.segs):
                    return Seq(p0.kind, h.segs), ("some", p0, h)
                own = [l for l in self.cell_loops.get(k[1], ()) if l[0] is itT and l[1] == n] if k[0] == "cell" else []
                if own and k[1] not in self.crossed:
                    # each iteration appends to its own list: the summary cell is described for one iteration
                    return Seq(p0.kind, p0.segs + app), ("append", p0, app)
                segs = p0.segs + ((("map", itT, app, TRUE),) if app else ())
                return Seq(p0.kind, segs), ("append", p0, app)
            if not exact and len(posts) == 1 and isinstance(post, Seq) and post.segs[:len(h.segs)] == h.segs and not bposts:
                return Seq(p0.kind, h.segs), ("some", p0, h)
            return Seq(p0.kind, (("some", self.union_segs(h.segs[-1][1] if h.segs and h.segs[-1][0] == "some" else (), tuple(x for q in allp if isinstance(q, Seq) for x in self.new_segs(q.segs, h.segs)))),)), ("some", p0, h)
        if isinstance(h, Dct):
            if exact and len(posts) == 1 and isinstance(post, Dct) and post.ents[:len(h.ents)] == h.ents:
                app = post.ents[len(h.ents):]
                if not app and len(h.ents) > len(p0.ents) and h.ents[-1][0] == "some":
                    app = h.ents[-1][1]
                return Dct(p0.ents + ((("map", itT, app, TRUE),) if app else ()), p0.sym, p0.default), ("append", p0, app)
            return Dct(h.ents, p0.sym, p0.default), ("some", p0, h)
        if isinstance(h, Val) and h.kind in ("seq", "dict"):
            return h, ("some", p0, h)
        if k[0] == "cell":
            pt, it_, qt = p0, h, post
        else:
            pt = self.snap(pre, p0) if p0 is not None else mk("unset", str(k[2]))
            it_ = h.t
            qt = self.snap(src, post) if post is not None else h.t
        if bposts:
            fin = mk("loopout", itT, pt, qt, it_, "brk")
        else:
            fin = mk_loopout(itT, n, pt, it_, qt)
        r = ("term", pt, it_, qt)
        if k[0] == "cell":
            return fin, r
        if p0 is not None and p0.kind in ("obj",) or (post is not None and isinstance(post, Val) and post.kind in ("obj", "fn", "cls")):
            v = post
        else:
            v = Val("e", fin, self.new_cell(pre), self.all_views(p0, post))
            self.init_term[v.cell] = fin
        return v, r

    def all_views(self, *vs):
        out = []
        for v in vs:
            if v is None:
                continue
            for l in self.leaves(v):
                if l.kind == "e" and l.cell is not None:
                    out.append(l)
        return tuple(out)
