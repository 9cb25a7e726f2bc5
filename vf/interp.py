"""Expression half of the abstract interpreter (see engine.py)."""
import ast
from .engine import *          # noqa: F401,F403
from .engine import Engine, Val, Seq, Dct, Obj, PathEnd, State, Frame
from . import terms as tm
from .canon import RED as REDSET, ARR_METHODS

DROP_KW = set()
UFUNC_BIN = {"numpy.subtract": "-", "numpy.add": "+", "numpy.multiply": "*", "numpy.divide": "/",
             "numpy.true_divide": "/", "operator.sub": "-", "operator.add": "+", "operator.mul": "*",
             "operator.truediv": "/"}
UFUNC_CMP = {"numpy.equal": "==", "numpy.not_equal": "!=", "numpy.less": "<", "numpy.less_equal": "<=",
             "numpy.greater": ">", "numpy.greater_equal": ">=", "operator.eq": "==", "operator.ne": "!=",
             "operator.lt": "<", "operator.gt": ">", "operator.le": "<=", "operator.ge": ">="}
M_BIN = {"sub": "-", "add": "+", "mul": "*", "div": "/", "truediv": "/", "subtract": "-", "multiply": "*", "divide": "/"}
M_CMP = {"eq": "==", "ne": "!=", "lt": "<", "le": "<=", "gt": ">", "ge": ">="}
TQDM = {"tqdm.tqdm", "tqdm.auto.tqdm", "tqdm.std.tqdm", "tqdm.notebook.tqdm", "tqdm.autonotebook.tqdm"}
HO_METHODS = {"apply", "progress_apply", "map", "transform", "applymap", "agg", "aggregate", "filter", "pipe",
              "progress_map"}


class Interp(Engine):

    # ------------------------------------------------------------- expressions
    def ev(self, n, st, fr):
        m = getattr(self, "e_" + type(n).__name__, None)
        self.steps += 1
        self.tick()
        if m is None:
            self.note_opaque("expr " + type(n).__name__)
            return self.ext(st, mk("opaque", type(n).__name__, self.kid("expr", st, n)))
        return m(n, st, fr)

    def e_Constant(self, n, st, fr):
        v = n.value
        if isinstance(v, (int, float, str, bool, complex)) or v is None or v is Ellipsis or isinstance(v, bytes):
            return self.cv(v)
        return Val("e", mk("opaque", "const"))

    def e_Name(self, n, st, fr):
        return self.getvar(st, fr, n.id)

    def e_NamedExpr(self, n, st, fr):
        v = self.ev(n.value, st, fr)
        self.assign(n.target, v, st, fr)
        return v

    def e_Tuple(self, n, st, fr):
        return self.lit_seq("tuple", n.elts, st, fr, n)

    def e_List(self, n, st, fr):
        return self.lit_seq("list", n.elts, st, fr, n)

    def e_Set(self, n, st, fr):
        return self.lit_seq("set", n.elts, st, fr, n)

    def lit_seq(self, kind, elts, st, fr, n):
        segs = []
        for e in elts:
            if isinstance(e, ast.Starred):
                segs.extend(self.segs_of(self.ev(e.value, st, fr), st))
            else:
                segs.append(("i", self.ev(e, st, fr)))
        return self.mkseq_segs(st, kind, segs, n)

    def segs_of(self, v, st):
        if v.kind == "seq":
            return list(self.cont(st, v).segs)
        if v.kind == "dict":
            return [("ext", mk("keys", self.snap(st, v)))] if False else self.plan_to_segs(self.plan(v, st, None), st)
        if v.kind == "phi":
            return [("if", v.x[0], tuple(self.segs_of(v.x[1], st)), tuple(self.segs_of(v.x[2], st)))]
        if v.kind == "iterview":
            return self.plan_to_segs(v.x(st), st)
        t = self.snap(st, v)
        return self.term_segs(t)

    def term_segs(self, t):
        t = strip_conv(t)
        if t.op == "phi":
            return [("if", t.a[0], tuple(self.term_segs(t.a[1])), tuple(self.term_segs(t.a[2])))]
        if t.op in ("list", "tuple") and all(x.op != "seg" for x in t.a):
            return [("i", Val("e", x)) for x in t.a]
        return [("ext", t)]

    def plan_to_segs(self, plan, st):
        out = []
        for p in plan:
            if p[0] == "item":
                out.append(("i", self.mat(st, p[1])))
            elif p[0] == "sym":
                out.append(("map", p[1], (("i", self.mat(st, p[2](0))),), TRUE))
            elif p[0] == "nest":
                out.append(("map", p[1], tuple(self.plan_to_segs(p[2], st)), p[3]))
            elif p[0] == "if":
                out.append(("if", p[1], tuple(self.plan_to_segs(p[2], st)), tuple(self.plan_to_segs(p[3], st))))
            elif p[0] == "some":
                out.append(("some", tuple(self.plan_to_segs(p[1], st))))
            elif p[0] == "setiter":
                self.eff(st, "setiter", None, what="convert")
                out += self.plan_to_segs(p[1], st)
        return out

    def e_Dict(self, n, st, fr):
        ents = []
        sym = None
        for k, v in zip(n.keys, n.values):
            if k is None:
                dv = self.ev(v, st, fr)
                e2, s2 = self.ents_of(dv, st)
                ents += e2
                if s2 is not None:
                    ents.append(("ext", s2))
            else:
                kv = self.ev(k, st, fr)
                ents.append(("i", self.snap(st, kv), self.ev(v, st, fr)))
        return self.mkdict(st, ents, sym, None, n)

    def ents_of(self, v, st):
        if v.kind == "dict":
            c = self.cont(st, v)
            return list(c.ents), c.sym
        if v.kind == "phi":
            (a, sa), (b, sb) = self.ents_of(v.x[1], st), self.ents_of(v.x[2], st)
            if not a and not b:
                if sa is None and sb is None:
                    return [], None
                return [], mk_phi(v.x[0], sa if sa is not None else mk("dict"), sb if sb is not None else mk("dict"))
            return [("if", v.x[0], tuple(a), tuple(b))], (mk_phi(v.x[0], sa or mk("dict"), sb or mk("dict")) if (sa or sb) else None)
        t = self.snap(st, v)
        if t.op == "dict" and all(k.op != "seg" for k, _ in t.a):
            return [("i", k, Val("e", x)) for k, x in t.a], None
        if t is NONE:
            return [], None
        return [], t

    def e_Lambda(self, n, st, fr):
        return Val("fn", x=self.make_func(n, st, fr if fr.fn is not None else fr))

    def e_IfExp(self, n, st, fr):
        c = self.cond(self.ev(n.test, st, fr), st)
        if c is TRUE:
            return self.ev(n.body, st, fr)
        if c is FALSE:
            return self.ev(n.orelse, st, fr)
        v = self.forced.get(self.cur) if self.forced else None
        if v is not None:
            self.tests.append((c, self.cur))
            st.assume(c, v)
            return self.ev(n.body if v else n.orelse, st, fr)
        return self.branch(st, c, lambda s: self.ev(n.body, s, fr), lambda s: self.ev(n.orelse, s, fr))

    def branch(self, st, c, fa, fb):
        """evaluate two alternatives on forked states and join"""
        self.tests.append((c, self.cur))
        sa, sb = st.fork(), st.fork()
        sa.assume(c, True)
        sb.assume(c, False)
        va = vb = None
        try:
            va = fa(sa)
        except PathEnd:
            pass
        try:
            vb = fb(sb)
        except PathEnd:
            pass
        if va is None and vb is None:
            raise PathEnd()
        if va is None:
            st.become(sb)
            return vb
        if vb is None:
            st.become(sa)
            return va
        m = self.merge(c, sa, sb, st.guards)
        st.become(m)
        return self.phi_val(st, c, va, vb)

    def e_BoolOp(self, n, st, fr):
        isor = isinstance(n.op, ast.Or)
        return self.boolchain(n.values, isor, st, fr)

    def boolchain(self, vals, isor, st, fr):
        v = self.ev(vals[0], st, fr)
        if len(vals) == 1:
            return v
        c = self.cond(v, st)
        if c is TRUE:
            return v if isor else self.boolchain(vals[1:], isor, st, fr)
        if c is FALSE:
            return self.boolchain(vals[1:], isor, st, fr) if isor else v
        if boolish(c) and v.kind == "e" and v.cell is None:
            v = Val("e", c)
        if v.kind == "e" and boolish(self.snap(st, v)):
            v = Val("e", TRUE if isor else FALSE)
        if isor:
            return self.branch(st, c, lambda s: v, lambda s: self.boolres(self.boolchain(vals[1:], isor, s, fr), s))
        return self.branch(st, c, lambda s: self.boolres(self.boolchain(vals[1:], isor, s, fr), s), lambda s: v)

    def boolres(self, v, st):
        if v.kind == "e":
            t = self.snap(st, v)
            if boolish(t):
                return Val("e", t)
        return v

    def e_Compare(self, n, st, fr):
        left = self.ev(n.left, st, fr)
        res = None
        for op, r in zip(n.ops, n.comparators):
            right = self.ev(r, st, fr)
            t = self.compare(CMPOPS[type(op)], left, right, st)
            res = t if res is None else mk_and(res, t)
            left = right
        t = res
        return Val("e", t) if boolish(t) and not arr_cmp(t) else self.ext(st, t)

    def compare(self, op, a, b, st):
        if op in ("in", "not in"):
            t = self.contains_t(a, b, st)
            return t if op == "in" else mk_not(t)
        if op in ("is", "is not", "==", "!=") :
            for x, y in ((a, b), (b, a)):
                if y.kind == "e" and y.t is NONE and x.kind in ("obj", "seq", "dict", "fn", "cls", "bound"):
                    return const(op in ("is not", "!="))
                if y.kind == "e" and y.t is NONE and x.kind == "phi":
                    o = "is" if op in ("is", "is not") else "=="
                    t = mk_phi(x.x[0], self.compare(o, x.x[1], y, st), self.compare(o, x.x[2], y, st))
                    return t if op in ("is", "==") else mk_not(t)
            if a.kind == "obj" and b.kind == "obj":
                if a.cell == b.cell and not a.sub and not b.sub:
                    return const(op in ("is", "=="))
        return mk_cmp(op, self.snap(st, a), self.snap(st, b))

    def contains_t(self, a, b, st):
        at = self.snap(st, a)
        if b.kind == "phi":
            return mk_phi(b.x[0], self.contains_t(a, b.x[1], st), self.contains_t(a, b.x[2], st))
        if b.kind == "dict":
            c = self.cont(st, b)
            if c.sym is None and all(e[0] == "i" for e in c.ents) and len(c.ents) <= 12:
                return mk_or(*[mk_cmp("==", at, e[1]) for e in c.ents])
            return mk("in", at, self.dict_ident(b, st))
        if b.kind == "iterview" and b.t is not None:
            return mk("in", at, b.t)
        if b.kind == "seq":
            c = self.cont(st, b)
            if len(c.segs) <= 12 and all(s[0] == "i" for s in c.segs):
                return mk_or(*[mk_cmp("==", at, self.snap(st, s[1])) for s in c.segs])
        return mk_in(at, self.snap(st, b))

    def dict_ident(self, v, st):
        """a name for 'the keys of this dictionary'"""
        if v.path is not None:
            return mk("keysof", v.path)
        c = self.cont(st, v)
        if len(c.ents) == 1 and c.ents[0][0] == "map" and c.sym is None and len(c.ents[0][2]) == 1 and c.ents[0][2][0][0] == "i":
            return mk("keysof", c.ents[0][1], c.ents[0][2][0][1])
        return self.snap(st, v)

    def e_UnaryOp(self, n, st, fr):
        v = self.ev(n.operand, st, fr)
        if isinstance(n.op, ast.Not):
            return Val("e", mk_not(self.cond(v, st)))
        t = self.snap(st, v)
        if isinstance(n.op, ast.USub):
            return self.ext(st, mk_neg(t))
        if isinstance(n.op, ast.UAdd):
            return v
        if isinstance(n.op, ast.Invert):
            return self.ext(st, mk_not(t) if boolish(t) or tm.boolish_col(t) else mk("un", "~", t))
        return self.ext(st, mk("opaque", "unary"))

    def e_BinOp(self, n, st, fr):
        a = self.ev(n.left, st, fr)
        b = self.ev(n.right, st, fr)
        return self.binop(BINOPS.get(type(n.op), "?"), a, b, st, n)

    def binop(self, op, a, b, st, node):
        if a.kind == "seq" and b.kind == "seq" and op == "+":
            ca, cb = self.cont(st, a), self.cont(st, b)
            return self.mkseq_segs(st, ca.kind, ca.segs + cb.segs, node)
        if a.kind == "seq" and op == "+" and b.kind != "phi":
            return self.mkseq_segs(st, self.cont(st, a).kind, list(self.cont(st, a).segs) + self.segs_of(b, st), node)
        if a.kind == "seq" and op in ("-", "&", "|") and self.cont(st, a).kind == "set":
            name = {"-": "difference", "&": "intersection", "|": "union"}[op]
            return self.ext(st, mk("m", name, self.snap(st, a), (self.snap(st, b),), ()))
        if a.kind == "dict" and op == "|":
            d = self.mkdict(st, self.cont(st, a).ents, self.cont(st, a).sym, None, node)
            self.call_method(d, "update", [b], [], st, node)
            return d
        if a.kind == "obj" or b.kind == "obj":
            nm = {"+": "__add__", "-": "__sub__", "*": "__mul__", "/": "__truediv__"}.get(op)
            if a.kind == "obj" and nm:
                f, _ = st.heap[a.cell].cls.lookup(nm)
                if f is not None:
                    return self.call(Val("bound", x=(f.x, a)), [b], [], st, node)
        return self.ext(st, mk_bin(op, self.snap(st, a), self.snap(st, b)), node=node)

    def e_JoinedStr(self, n, st, fr):
        parts = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                parts.append(const(v.value))
            else:
                x = self.ev(v.value, st, fr)
                t = self.snap(st, x)
                spec = None
                if v.format_spec is not None:
                    sv = self.ev(v.format_spec, st, fr)
                    spec = self.snap(st, sv)
                if t.op == "const" and isinstance(cval(t), str) and spec is None and v.conversion in (-1,):
                    parts.append(t)
                else:
                    parts.append(mk("fmt", t, v.conversion, spec if spec is not None else NONE))
        if all(p.op == "const" for p in parts):
            return self.cv("".join(str(cval(p)) for p in parts))
        return Val("e", mk("fstr", *parts))

    def e_FormattedValue(self, n, st, fr):
        return Val("e", mk("fmt", self.snap(st, self.ev(n.value, st, fr))))

    def e_Starred(self, n, st, fr):
        return self.ev(n.value, st, fr)

    def e_Slice(self, n, st, fr):
        return self.ev_slice(n, st, fr)

    def e_Yield(self, n, st, fr):
        v = self.ev(n.value, st, fr) if n.value is not None else self.cv(None)
        if fr.yields is not None:
            c = st.heap[fr.yields]
            st.heap[fr.yields] = Seq(c.kind, c.segs + (("i", v),))
        return self.cv(None)

    def e_YieldFrom(self, n, st, fr):
        v = self.ev(n.value, st, fr)
        if fr.yields is not None:
            c = st.heap[fr.yields]
            st.heap[fr.yields] = Seq(c.kind, c.segs + tuple(self.segs_of(v, st)))
        return self.cv(None)

    def e_Await(self, n, st, fr):
        return self.ev(n.value, st, fr)

    # comprehensions -------------------------------------------------
    def e_ListComp(self, n, st, fr):
        return self.comp(n, "list", st, fr)

    def e_GeneratorExp(self, n, st, fr):
        return self.comp(n, "list", st, fr)

    def e_SetComp(self, n, st, fr):
        return self.comp(n, "set", st, fr)

    def e_DictComp(self, n, st, fr):
        return self.comp(n, "dict", st, fr)

    def comp(self, n, kind, st, fr):
        if kind == "dict":
            acc = self.mkdict(st, (), node=n)
        else:
            acc = self.mkseq(st, kind, [], n)
        env = ("env", self.nuid())
        st.heap[env] = {}
        cf = Frame(env, fr.fn, fr.module, fr.cls, fr.self_val, (fr.env,) + tuple(fr.parents))

        def level(i, s):
            if i == len(n.generators):
                if kind == "dict":
                    k = self.snap(s, self.ev(n.key, s, cf))
                    v = self.ev(n.value, s, cf)
                    c = s.heap[acc.cell]
                    s.heap[acc.cell] = Dct(self.put_ent(c.ents, k, v), c.sym, c.default)
                else:
                    v = self.ev(n.elt, s, cf)
                    c = s.heap[acc.cell]
                    s.heap[acc.cell] = Seq(c.kind, c.segs + (("i", v),))
                return s, []
            g = n.generators[i]
            it = self.ev(g.iter, s, fr if i == 0 else cf)

            def body(s2, elem):
                self.assign(g.target, elem, s2, cf)
                conds = []
                for test in g.ifs:
                    conds.append(self.cond(self.ev(test, s2, cf), s2))
                c = mk_and(*conds) if conds else TRUE
                if c is FALSE:
                    return s2, []
                if c is TRUE:
                    return level(i + 1, s2)
                a = s2.fork()
                a.assume(c, True)
                f, o = level(i + 1, a)
                if f is None:
                    return s2, o
                return self.merge(c, f, s2, s2.guards), o
            f, o = self.run_iter(it, s, body, n)
            if f is None:
                raise PathEnd()
            return f, []
        f, _ = level(0, st)
        if f is not st:
            st.become(f)
        if env not in self.captured:
            st.heap.pop(env, None)
        return acc

    def put_ent(self, ents, k, v):
        for i, e in enumerate(ents):
            if e[0] == "i" and e[1] is k:
                if all(x[0] == "i" for x in ents[i + 1:]):
                    return ents[:i] + (("i", k, v),) + ents[i + 1:]
                break
        return ents + (("i", k, v),)

    # ------------------------------------------------------------- attributes
    def e_Attribute(self, n, st, fr):
        b = self.ev(n.value, st, fr)
        return self.getattr(b, n.attr, st, n)

    def with_path(self, v, path):
        if v.kind in ("seq", "dict", "e") and v.cell is not None:
            return Val(v.kind, v.t, v.cell, v.views, v.x, path, v.sub)
        return v

    def getattr(self, b, name, st, node=None, quiet=False):
        k = b.kind
        if k == "phi":
            c, x, y = b.x
            cc = assume(c, st.facts)
            if cc is TRUE:
                return self.getattr(x, name, st, node, quiet)
            if cc is FALSE:
                return self.getattr(y, name, st, node, quiet)
            if self.is_none(x):
                return self.none_branch(st, c, y, lambda s, v: self.getattr(v, name, s, node, quiet), True, name, node)
            if self.is_none(y):
                return self.none_branch(st, c, x, lambda s, v: self.getattr(v, name, s, node, quiet), False, name, node)
            return self.branch(st, c, lambda s: self.getattr(x, name, s, node, quiet), lambda s: self.getattr(y, name, s, node, quiet))
        if k == "obj":
            o = self.cont(st, b)
            if name in o.fields:
                v = o.fields[name]
                if v.kind in ("dict", "seq") and v.path is None and o.name is not None:
                    v = self.with_path(v, mk("fld", o.name, name))
                return v
            f, owner = o.cls.lookup(name)
            if f is not None:
                if f.kind == "fn":
                    fi = f.x
                    if fi.kind == "property":
                        return self.call_function(fi, [b], [], st, node)
                    if fi.kind == "cachedprop":
                        v = self.call_function(fi, [b], [], st, node)
                        self.eff(st, "cachedprop", node, callee=fi.qual, obj=b)
                        self.setattr(b, name, v, st, node)
                        return v
                    if fi.kind == "static":
                        return f
                    if fi.kind == "class":
                        return Val("bound", x=(fi, Val("cls", x=o.cls)))
                    return Val("bound", x=(fi, b))
                return f
            if name == "__class__":
                return Val("cls", x=o.cls)
            if name == "__dict__":
                self.note_opaque("__dict__")
                return self.ext(st, mk("opaque", "__dict__"), views=(b,))
            if o.sym is not None:
                v = self.ext(st, mk_attr(o.sym, name))
                self.labels[v.cell] = self.labels.get(b.cell)
                f2 = dict(o.fields)
                f2[name] = v
                st.heap[b.cell] = Obj(o.cls, f2, o.sym, o.name)
                return v
            if not quiet:
                self.eff(st, "attrerror", node, cls=o.cls.name, name=name)
            return self.ext(st, mk("opaque", "missing:" + name))
        if k == "cls":
            f, owner = b.x.lookup(name)
            if f is not None:
                if f.kind == "fn" and f.x.kind == "class":
                    return Val("bound", x=(f.x, b))
                return f
            if name == "__name__":
                return self.cv(b.x.name)
            for fname, dv, fac in b.x.all_dfields():
                if fname == name and dv is not None:
                    return dv
            if not quiet:
                self.eff(st, "attrerror", node, cls=b.x.name, name=name)
            return Val("e", mk("opaque", "missing:" + name))
        if k == "mod":
            e = st.heap.get(b.x.env, {})
            if name in e:
                return e[name]
            sub = self.modules.get(b.x.name + "." + name)
            if sub:
                return Val("mod", x=sub)
            self.eff(st, "attrerror", node, cls=b.x.name, name=name)
            return Val("e", mk("opaque", "missing:" + name))
        if k == "super":
            cls, sv = b.x
            selfcls = st.heap[sv.cell].cls if sv.kind == "obj" else (sv.x if sv.kind == "cls" else cls)
            mro = selfcls.mro()
            after = mro[mro.index(cls) + 1:] if cls in mro else cls.mro()[1:]
            for c in after:
                if name in c.attrs:
                    f = c.attrs[name]
                    if f.kind == "fn":
                        if f.x.kind == "property":
                            return self.call_function(f.x, [sv], [], st, node)
                        if f.x.kind == "static":
                            return f
                        return Val("bound", x=(f.x, sv))
                    return f
            return Val("e", mk("ext", "object." + name))
        if k in ("seq", "dict", "iterview"):
            return Val("extm", x=(b, name))
        if k == "fn":
            if name in ("__name__", "__qualname__"):
                return self.cv(b.x.name)
            return self.ext(st, mk("opaque", "fnattr"))
        if k == "e":
            t = b.t
            if t.op == "ext":
                return Val("e", mk("ext", t.a[0] + "." + name))
            if name in ("loc", "iloc", "at", "iat"):
                return Val("indexer", x=(b, name))
            ct = self.content(st, b)
            return self.ext(st, mk_attr(ct, name), views=(b,) if b.cell is not None else (),
                            path=mk("pattr", b.path, name) if b.path is not None else None)
        if k == "indexer":
            return self.ext(st, mk("opaque", "indexer attr"))
        return self.ext(st, mk_attr(self.snap(st, b), name))

    def is_none(self, v):
        return v.kind == "e" and v.t is NONE

    def none_branch(self, st, c, v, f, none_when, name, node):
        """one alternative is None: using it raises; continue with the other"""
        e = st.fork()
        e.assume(c, none_when)
        self.eff(e, "raise", node, exc="AttributeError(None.%s)" % name, val=None)
        st.assume(c, not none_when)
        return f(st, v)

    def setattr(self, b, name, v, st, node, cond=TRUE):
        if b.kind == "phi":
            for g, l in self.gleaves(b):
                self.setattr(l, name, v, st, node, mk_and(cond, g))
            return
        if b.kind == "obj":
            o = st.heap[b.cell]
            f, _ = o.cls.lookup("%setter%" + name)
            if f is not None:
                self.call_function(f.x, [b, v], [], st, node)
                return
            fields = dict(o.fields)
            old = fields.get(name)
            nv = v
            if cond is not TRUE:
                nv = self.phi_val(st, cond, v, old if old is not None else Val("e", mk("unset", name)))
            fields[name] = nv
            self.eff(st, "setattr", node, obj=b, field=name, val=nv, old=old, cls=o.cls)
            st.heap[b.cell] = Obj(o.cls, fields, o.sym, o.name)
            return
        if b.kind == "cls":
            self.eff(st, "classwrite", node, cls=b.x.qual, field=name, val=v)
            return
        if b.kind == "mod":
            self.eff(st, "globalwrite", node, name=name, module=b.x.name)
            return
        if b.kind == "e":
            self.mutate(st, b, "setattr", self.cv(name), v, node, cond)
            return
        if b.kind == "fn":
            self.eff(st, "globalwrite", node, name=b.x.qual + "." + name, module=b.x.module.name)

    # ------------------------------------------------------------- subscripts
    def ev_slice(self, n, st, fr):
        if isinstance(n, ast.Slice):
            g = [self.snap(st, self.ev(x, st, fr)) if x is not None else NONE for x in (n.lower, n.upper, n.step)]
            return Val("e", mk("slice", *g))
        if isinstance(n, ast.Tuple):
            return self.mkseq(st, "tuple", [self.ev_slice(x, st, fr) for x in n.elts])
        return self.ev(n, st, fr)

    def e_Subscript(self, n, st, fr):
        b = self.ev(n.value, st, fr)
        k = self.ev_slice(n.slice, st, fr)
        return self.index(b, k, st, n)

    def index(self, b, k, st, node):
        if b.kind == "phi":
            c, x, y = b.x
            if self.is_none(x):
                return self.none_branch(st, c, y, lambda s, v: self.index(v, k, s, node), True, "[]", node)
            if self.is_none(y):
                return self.none_branch(st, c, x, lambda s, v: self.index(v, k, s, node), False, "[]", node)
            if all(l.kind in ("e", "seq") for l in self.leaves(b)):
                cc = assume(c, st.facts)
                if cc is TRUE or cc is FALSE:
                    return self.index(x if cc is TRUE else y, k, st, node)
                return self.phi_val(st, c, self.index(x, k, st, node), self.index(y, k, st, node))
            return self.branch(st, c, lambda s: self.index(x, k, s, node), lambda s: self.index(y, k, s, node))
        kt = self.snap(st, k)
        if b.kind == "seq":
            c = self.cont(st, b)
            if is_const(kt) and isinstance(cval(kt), int):
                i = cval(kt)
                if i >= 0:
                    if all(s[0] == "i" for s in c.segs[:i + 1]) and len(c.segs) > i:
                        return c.segs[i][1]
                elif all(s[0] == "i" for s in c.segs[i:]) and len(c.segs) >= -i:
                    return c.segs[i][1]
            if kt.op == "slice" and all(s[0] == "i" for s in c.segs) and all(is_const(x) for x in kt.a):
                return self.mkseq_segs(st, c.kind, c.segs[slice(*[cval(x) for x in kt.a])], node)
            if kt.op == "pos" and len(c.segs) == 1 and c.segs[0][0] == "map" and c.segs[0][1] is kt.a[0] and len(c.segs[0][2]) == 1 \
                    and c.segs[0][2][0][0] == "i" and c.segs[0][3] is TRUE:
                v = c.segs[0][2][0][1]
                if kt.a[1] != 0:
                    v = self.sub_val(v, {mk("elem", kt.a[0], 0): mk("elem", kt.a[0], kt.a[1])})
                return v
            return self.ext(st, mk_idx(self.snap(st, b), kt), views=())
        if b.kind == "dict":
            return self.dict_lookup(b, kt, st, node)
        if b.kind == "indexer":
            base, nm = b.x
            return self.loc_read(base, nm, kt, st, node)
        if b.kind == "obj":
            f, _ = st.heap[b.cell].cls.lookup("__getitem__")
            if f is not None:
                return self.call(Val("bound", x=(f.x, b)), [k], [], st, node)
        if b.kind == "cls":
            return b
        if b.kind == "iterview":
            return self.ext(st, mk("opaque", "idx iterview"))
        t = self.snap(st, b)
        r = mk_idx(t, kt)
        views = ()
        if b.kind == "e" and b.cell is not None and r.op not in ("rows", "cols"):
            views = (b,)
        if r.op == "proj" or (r.op in ("elem",) and tm_names(r.a[0])):
            return Val("e", r)
        return self.ext(st, r, views=views, node=node, path=mk("idx", b.path, kt) if getattr(b, "path", None) is not None else None)

    def loc_read(self, base, nm, kt, st, node):
        if base.kind == "phi":
            c, x, y = base.x
            return self.branch(st, c, lambda s: self.loc_read(x, nm, kt, s, node), lambda s: self.loc_read(y, nm, kt, s, node))
        t = self.snap(st, base)
        if nm in ("loc", "at"):
            r = mk_locidx(t, kt)
        else:
            r = mk("iloc", uncopy(t), kt)
            if kt.op == "pos":
                r = mk("row", uncopy(t), kt)
        views = ()
        slc = kt.op == "slice" or (kt.op == "tuple" and kt.a and kt.a[0].op == "slice")
        if slc and base.kind == "e" and base.cell is not None:
            views = (base,)
        return self.ext(st, r, views=views, node=node)

    def unify(self, pat, t, sub):
        """match an entry's key pattern (loop elements) against a key"""
        if pat is t:
            return True
        if pat.op in ("elem", "pos"):
            if pat in sub:
                return sub[pat] is t
            sub[pat] = t
            return True
        if pat.op == "proj" and pat.a[0].op == "elem":
            if pat in sub:
                return sub[pat] is t
            sub[pat] = t
            return True
        if pat.op == "tuple":
            for i, p in enumerate(pat.a):
                x = t.a[i] if t.op == "tuple" and len(t.a) == len(pat.a) else mk_idx(t, const(i))
                if not self.unify(p, x, sub):
                    return False
            return True
        return False

    def dict_lookup(self, v, kt, st, node, default=None):
        c = self.cont(st, v)
        path = mk("idx", v.path, kt) if v.path is not None else None

        def wrap(x):
            return self.with_path(x, path) if path is not None else x

        def look(ents, i):
            while i >= 0:
                e = ents[i]
                i -= 1
                if e[0] == "i":
                    eq = mk_cmp("==", e[1], kt)
                    eq = assume(eq, st.facts)
                    if eq is TRUE:
                        return wrap(e[2])
                    if eq is FALSE:
                        continue
                    rest = look(ents, i)
                    if rest is None:
                        return wrap(e[2])
                    return self.phi_val(st, eq, wrap(e[2]), rest)
                if e[0] == "pop":
                    if e[1] is kt:
                        return None
                    continue
                if e[0] == "map":
                    r = look_map(e)
                    if r is not None:
                        return wrap(r)
                    continue
                if e[0] == "if":
                    a = look(ents[:i + 1] + e[2], i + len(e[2]))
                    b = look(ents[:i + 1] + e[3], i + len(e[3]))
                    if a is None or b is None:
                        return a or b
                    return self.phi_val(st, e[1], a, b)
                if e[0] == "some":
                    r = look(e[1], len(e[1]) - 1)
                    if r is not None:
                        return r
                    continue
                if e[0] == "ext":
                    return self.ext(st, mk_idx(e[1], kt), path=path)
            return None

        def look_map(e):
            for x in reversed(e[2]):
                if x[0] == "i":
                    sub = {}
                    if self.unify(x[1], kt, sub):
                        sub = {k_: v_ for k_, v_ in sub.items() if k_ is not v_}
                        return self.sub_val(x[2], sub)
                elif x[0] == "map":
                    r = look_map(x)
                    if r is not None:
                        return r
                elif x[0] in ("if",):
                    for y in (x[2], x[3]):
                        r = look_map(("map", e[1], y, e[3])) if y else None
                        if r is not None:
                            return r
                elif x[0] == "some":
                    r = look_map(("map", e[1], x[1], e[3]))
                    if r is not None:
                        return r
            return None
        r = look(c.ents, len(c.ents) - 1)
        if r is not None:
            return r
        if c.sym is not None:
            return self.ext(st, mk_idx(c.sym, kt) if default is None else mk("kwget", c.sym, kt, default), path=path)
        if c.default is not None and default is None:
            nv = self.call(c.default, [], [], st, node)
            c2 = st.heap[v.cell]
            st.heap[v.cell] = Dct(self.put_ent(c2.ents, kt, nv), c2.sym, c2.default)
            return wrap(nv)
        return None if default is not None else self.key_missing(v, kt, st, node)

    def key_missing(self, v, kt, st, node):
        self.eff(st, "keyerror", node, key=kt)
        return self.ext(st, mk("opaque", "missing key", kt))

    # ------------------------------------------------------------- writes
    def mutate(self, st, v, how, key, val, node, cond=TRUE):
        if v.kind == "phi":
            for g, l in self.gleaves(v):
                if not self.is_none(l):
                    self.mutate(st, l, how, key, val, node, mk_and(cond, g))
            return
        if v.kind == "indexer":
            base, nm = v.x
            return self.mutate(st, base, ("setloc" if nm in ("loc", "at") else "setiloc") if how == "setitem" else how, key, val, node, cond)
        kt = self.snap(st, key) if key is not None else None
        vt = self.snap(st, val) if val is not None else None
        old = self.snap(st, v) if v.kind in ("e", "seq", "dict") else None
        self.eff(st, "mutate", node, target=v, how=how, key=kt, value=vt, val=val, keyval=key, old=old, path=v.path, cond=cond,
                 labels=self.labels_of(v, how, key))
        if v.kind == "seq":
            c = st.heap[v.cell]
            if how == "setitem" and is_const(kt) and isinstance(cval(kt), int) and all(s[0] == "i" for s in c.segs) and -len(c.segs) <= cval(kt) < len(c.segs):
                segs = list(c.segs)
                segs[cval(kt)] = ("i", val if cond is TRUE else self.phi_val(st, cond, val, segs[cval(kt)][1]))
                st.heap[v.cell] = Seq(c.kind, segs)
            elif how == "setitem":
                st.heap[v.cell] = Seq(c.kind, (("ext", mk_store(self.snap(st, v), kt, vt)),))
            else:
                st.heap[v.cell] = Seq(c.kind, (("ext", mk("mut", how, self.snap(st, v))),))
            return
        if v.kind == "dict":
            c = st.heap[v.cell]
            if how == "setitem":
                if v.sub:
                    # writing through a summarised entry: weak
                    st.heap[v.cell] = Dct(c.ents + (("some", (("i", kt, val),)),), c.sym, c.default)
                    return
                ents = self.put_ent(c.ents, kt, val)
                n = Dct(ents, c.sym, c.default)
                st.heap[v.cell] = n if cond is TRUE else self.merge_content(st, cond, n, c)
            elif how == "delitem":
                st.heap[v.cell] = Dct(self.del_ent(c.ents, kt), c.sym, c.default)
            return
        if v.kind == "obj":
            f, _ = st.heap[v.cell].cls.lookup("__setitem__")
            if f is not None and how == "setitem":
                self.call(Val("bound", x=(f.x, v)), [key, val], [], st, node)
            return
        if v.kind != "e" or v.cell is None:
            return
        if self.cell_loops.get(v.cell) and self.is_summary(st, v.cell) and not self._covered(st, v):
            self.dirty_new.add(self.cell_site.get(v.cell))
        ct = self.content(st, v)
        if how == "setitem":
            if kt.op in ("const", "elem", "proj", "param", "phi", "pos", "tuple", "list", "fstr") or not (boolish(kt) or kt.op == "slice"):
                if colkeys(kt) is not None:
                    nt = mk("storecols", ct, kt, vt)
                else:
                    nt = mk_store(ct, kt, vt)
            else:
                nt = mk("storeloc", ct, kt, NONE, vt)
        elif how == "setloc":
            nt = mk_storeloc(ct, kt, vt)
        elif how == "setiloc":
            nt = mk("storeiloc", ct, kt, vt)
        elif how == "augassign":
            nt = vt
        elif how == "setattr":
            nt = mk("setattr", ct, kt, vt)
        elif how == "delitem":
            nt = mk("m", "drop", ct, (), (("columns", kt),))
        elif how.startswith("inplace:"):
            nt = vt
        else:
            nt = mk("mut", how, ct, vt if vt is not None else NONE)
        if cond is not TRUE:
            nt = mk_phi(cond, nt, ct)
        if not v.sub:
            st.heap[v.cell] = nt
        else:
            st.heap[v.cell] = mk("summut", st.heap.get(v.cell, v.t), kt if kt is not None else NONE)
        self.touch_views(st, v, how, kt)

    def touch_views(self, st, v, how, kt, depth=0):
        for b in v.views:
            if b.kind != "e" or b.cell is None or depth > 6:
                continue
            bt = self.content(st, b)
            st.heap[b.cell] = mk("viewmut", bt, v.t)
            self.touch_views(st, b, how, kt, depth + 1)

    def _covered(self, st, v):
        return False

    def del_ent(self, ents, kt):
        for i, e in enumerate(ents):
            if e[0] == "i" and e[1] is kt and all(x[0] == "i" for x in ents):
                return ents[:i] + ents[i + 1:]
        return ents + (("pop", kt),)

    def labels_of(self, v, how=None, key=None):
        """labels of the objects whose content this write changes"""
        out = set()
        if v.kind in ("seq", "dict", "obj"):
            l = self.labels.get(v.cell)
            return frozenset([l]) if l else frozenset()
        if v.kind != "e":
            return frozenset()
        if v.cell is not None and self.labels.get(v.cell):
            out.add(self.labels[v.cell])
        # a column assignment on a slice / reinterpretation of a frame does not write through
        col_assign = how in ("setitem", "delitem") and (v.t.op in ("iloc", "rows") or (v.t.op == "call" and v.t.a[0] == "pandas.DataFrame") or
                                                        (v.t.op == "m" and v.t.a[0] in ("head", "tail", "copy")))
        col_assign = col_assign or (how in ("setattr",) and v.t.op in ("iloc", "rows", "call", "m"))
        if not col_assign:
            for b in v.views:
                out |= self.labels_of(b, None)
        return frozenset(out)

    # ------------------------------------------------------------- calls
    def e_Call(self, n, st, fr):
        # super()
        if isinstance(n.func, ast.Name) and n.func.id == "super" and not self.shadowed(st, fr, "super"):
            cls = fr.fn.cls if fr.fn is not None and fr.fn.cls is not None else getattr(fr.fn, "cls_ctx", None)
            sv = fr.self_val
            if n.args:
                c0 = self.ev(n.args[0], st, fr)
                cls = c0.x if c0.kind == "cls" else cls
                if len(n.args) > 1:
                    sv = self.ev(n.args[1], st, fr)
            if cls is not None and sv is not None:
                return Val("super", x=(cls, sv))
        if isinstance(n.func, ast.Attribute):
            recv = self.ev(n.func.value, st, fr)
            args, kw = self.ev_args(n, st, fr)
            self.cur = (fr.module.path, n.lineno, fr.fn.qual if fr.fn else fr.module.name + ".<module>")
            self.call_sites.add((fr.module.path, n.lineno, n.col_offset))
            return self.call_method(recv, n.func.attr, args, kw, st, n)
        f = self.ev(n.func, st, fr)
        args, kw = self.ev_args(n, st, fr)
        self.cur = (fr.module.path, n.lineno, fr.fn.qual if fr.fn else fr.module.name + ".<module>")
        self.call_sites.add((fr.module.path, n.lineno, n.col_offset))
        return self.call(f, args, kw, st, n)

    def shadowed(self, st, fr, name):
        return name in st.heap.get(fr.env, {}) or name in st.heap.get(fr.module.env, {})

    def ev_args(self, n, st, fr):
        args, kw = [], []
        for a in n.args:
            if isinstance(a, ast.Starred):
                v = self.ev(a.value, st, fr)
                if v.kind == "seq" and all(s[0] == "i" for s in self.cont(st, v).segs):
                    args += [s[1] for s in self.cont(st, v).segs]
                else:
                    args.append(("*", v))
            else:
                args.append(self.ev(a, st, fr))
        for k in n.keywords:
            if k.arg is None:
                kw.append((None, self.ev(k.value, st, fr)))
            else:
                kw.append((k.arg, self.ev(k.value, st, fr)))
        return args, kw

    def call(self, f, args, kw, st, node):
        k = f.kind
        for i, (n, v) in enumerate(kw):
            if n is None and v.kind == "phi" and all(x.kind == "dict" for x in v.x[1:3]):
                c, a, b = v.x            # f(**(a if c else b))
                c = assume(c, st.facts)
                if c is TRUE or c is FALSE:
                    return self.call(f, args, kw[:i] + [(None, a if c is TRUE else b)] + kw[i + 1:], st, node)
                return self.branch(st, c, lambda s: self.call(f, args, kw[:i] + [(None, a)] + kw[i + 1:], s, node),
                                   lambda s: self.call(f, args, kw[:i] + [(None, b)] + kw[i + 1:], s, node))
        if k == "fn":
            return self.call_function(f.x, args, kw, st, node)
        if k == "bound":
            return self.call_function(f.x[0], [f.x[1]] + args, kw, st, node)
        if k == "cls":
            return self.instantiate(f.x, args, kw, st, node)
        if k == "partial":
            g, a0, k0 = f.x
            names = {n for n, _ in kw}
            return self.call(g, list(a0) + args, [x for x in k0 if x[0] not in names] + kw, st, node)
        if k == "phi":
            c, a, b = f.x
            if self.is_none(a):
                return self.none_branch(st, c, b, lambda s, v: self.call(v, args, kw, s, node), True, "()", node)
            if self.is_none(b):
                return self.none_branch(st, c, a, lambda s, v: self.call(v, args, kw, s, node), False, "()", node)
            return self.branch(st, c, lambda s: self.call(a, args, kw, s, node), lambda s: self.call(b, args, kw, s, node))
        if k == "extm":
            return self.call_method(f.x[0], f.x[1], args, kw, st, node)
        if k == "obj":
            m, _ = st.heap[f.cell].cls.lookup("__call__")
            if m is not None:
                return self.call_function(m.x, [f] + args, kw, st, node)
        if k == "e":
            t = self.content(st, f)
            if t.op == "ext":
                return self.call_ext(t.a[0], args, kw, st, node)
            if t.op == "attr" and f.views:
                return self.ext_method(f.views[0], t.a[1], args, kw, st, node)
            if t.op == "attr":
                return self.ext_method(Val("e", t.a[0]), t.a[1], args, kw, st, node)
            if t.op == "phi":
                c = t.a[0]
                return self.branch(st, c, lambda s: self.call(Val("e", t.a[1], f.cell, f.views), args, kw, s, node) if t.a[1] is not NONE else self._none_call(s, node),
                                   lambda s: self.call(Val("e", t.a[2], f.cell, f.views), args, kw, s, node) if t.a[2] is not NONE else self._none_call(s, node))
            if t is NONE:
                return self._none_call(st, node)
            at, kt = self.arg_terms(args, kw, st)
            r = mk("callv", t, at, kt)
            self.eff(st, "ext", node, name="<value>", fn=t, args=at, kw=dict(kt), vals=args, kwvals=dict(x for x in kw if x[0]), recv=None, recvv=None, result=r)
            for a in args:
                self.ho(a, st, node, mk("opaque", "hoarg"))
            return self.ext(st, r, node=node)
        self.note_opaque("call of " + k)
        return self.ext(st, mk("opaque", "call", self.kid("call", st, node)))

    def _none_call(self, st, node):
        self.eff(st, "raise", node, exc="TypeError(None())", val=None)
        raise PathEnd()

    def arg_terms(self, args, kw, st):
        at = tuple(self.snap(st, a) if isinstance(a, Val) else mk("star", self.snap(st, a[1])) for a in args)
        kt = []
        for n, v in kw:
            if n is None:
                ents, sym = self.ents_of(v, st)
                for e in ents:
                    if e[0] == "i" and is_const(e[1]) and isinstance(cval(e[1]), str):
                        kt.append((cval(e[1]), self.snap(st, e[2])))
                    else:
                        kt.append(("**", mk("ents", mk("kv", *self.ent_term(st, e, 0)))))
                if sym is not None and sym.op != "dict":
                    kt.append(("**", sym))
            else:
                kt.append((n, self.snap(st, v)))
        return at, tuple(sorted(kt, key=lambda x: x[0]))

    # ------- repo functions
    def bind(self, fi, args, kw, st, node):
        env = {}
        errors = []
        pos = list(fi.pos)
        extra = []
        star = None
        i = 0
        for a in args:
            if isinstance(a, tuple):
                star = a[1]
                continue
            if star is not None:
                continue
            if i < len(pos):
                env[pos[i]] = a
                i += 1
            else:
                extra.append(a)
        if star is not None:
            j = 0
            while i < len(pos):
                if pos[i] not in fi.defaults:
                    env[pos[i]] = self.index(star, self.cv(j), st, node)
                i += 1
                j += 1
        if extra:
            if fi.vararg:
                env[fi.vararg] = self.mkseq(st, "tuple", extra)
            else:
                errors.append("too many positional arguments (%d for %d)" % (len(args), len(pos)))
        elif fi.vararg:
            env[fi.vararg] = self.mkseq(st, "tuple", []) if star is None else self.mkseq_segs(st, "tuple", self.segs_of(star, st))
        rest = []
        sym = None
        given = set(env)
        for n, v in kw:
            if n is None:
                ents, s2 = self.ents_of(v, st)
                for e in ents:
                    if e[0] == "i" and is_const(e[1]) and isinstance(cval(e[1]), str):
                        nm = cval(e[1])
                        if (nm in pos or nm in fi.kwonly):
                            if nm in given:
                                errors.append("argument %r given twice" % nm)
                            env[nm] = e[2]
                        elif fi.kwarg:
                            rest.append(e)
                        else:
                            errors.append("unexpected keyword argument %r" % nm)
                    else:
                        rest.append(e)
                if s2 is not None and s2.op != "dict":
                    sym = s2 if sym is None else mk("dict", (mk("seg", "sym"), sym), (mk("seg", "sym"), s2))
                continue
            if n in pos or n in fi.kwonly:
                if n in given:
                    errors.append("argument %r given twice" % n)
                env[n] = v
                given.add(n)
            elif fi.kwarg:
                rest.append(("i", const(n), v))
            else:
                errors.append("unexpected keyword argument %r" % n)
        if fi.kwarg:
            env[fi.kwarg] = self.mkdict(st, rest, sym)
        for n in pos + fi.kwonly:
            if n not in env:
                if n in fi.defaults:
                    env[n] = fi.defaults[n]
                    if sym is not None:
                        env[n] = self.maybe_kw(env[n], sym, n, st)
                elif sym is None:
                    errors.append("missing argument %r" % n)
                    env[n] = self.ext(st, mk("opaque", "missing arg " + n))
                else:
                    env[n] = self.ext(st, mk_idx(sym, const(n)))
        if errors:
            self.eff(st, "binderror", node, callee=fi.qual, errors=tuple(errors))
        return env

    def maybe_kw(self, dv, sym, name, st):
        return dv

    def call_function(self, fi, args, kw, st, node):
        h = self.hooks.get(fi.qual)
        if h is not None:
            r = h(self, fi, args, kw, st, node)
            if r is not None:
                return r
        if len(self.stack) > 70 or self.stack.count(fi.qual) >= 3:
            self.note_opaque("recursion " + fi.qual)
            return self.ext(st, mk("opaque", "rec", fi.qual))
        env = self.bind(fi, args, kw, st, node)
        if fi.cached:
            self.eff(st, "cachedcall", node, callee=fi.qual, env=dict(env))
        e = ("env", self.nuid())
        st.heap[e] = env
        self.analysed_funcs.add(fi.qual)
        self_val = None
        if fi.cls is not None and fi.kind != "static" and fi.pos:
            self_val = env.get(fi.pos[0])
        else:
            self_val = getattr(fi, "self_ctx", None)
        fr = Frame(e, fi, fi.module, fi.cls if fi.cls is not None else getattr(fi, "cls_ctx", None), self_val, fi.parent_env or ())
        self.eff(st, "enter", node, callee=fi.qual, env=env, fn=fi)
        save = self.cur
        self.stack.append(fi.qual)
        self.cstack.append((fi.qual, getattr(node, "lineno", 0), getattr(node, "col_offset", 0)))
        try:
            if fi.is_lambda:
                self.cur = (fi.module.path, fi.node.lineno, fi.qual)
                return self.ev(fi.node.body, st, fr)
            if fi.is_gen:
                acc = self.mkseq(st, "list", [])
                fr.yields = acc.cell
            g0, f0 = st.guards, st.facts
            body = fi.node.body
            ends = []
            fall, outs = self.exec_block(body, st.fork(), fr)
            ends = [(s, v) for k, s, v in outs if k == "ret"]
            if fall is not None:
                ends.append((fall, self.cv(None)))
            if not ends:
                raise PathEnd()
            if e not in self.captured:
                for s_, _ in ends:
                    s_.heap.pop(e, None)
            cs, cvl = ends[-1]
            for s, v in reversed(ends[:-1]):
                rel = [x for x in s.guards[len(g0):]] if s.guards[:len(g0)] == g0 else [x for x in s.guards if x not in g0]
                rel = [x for x in rel if x not in cs.guards]
                c = mk_and(*rel) if rel else mk("opaque", "ret", self.kid(("ret", len(ends)), st, node))
                m = self.merge(c, s, cs, g0)
                cvl = self.phi_val(m, c, v, cvl)
                cs = m
            if len(ends) > 1:
                cs.guards = g0 + tuple(x for x in cs.guards if x not in g0)
            st.become(cs)
            if fi.is_gen:
                return acc
            if fi.cached:
                self.label_reachable(st, cvl, "shared:cached result of " + fi.qual)
            return cvl
        finally:
            self.stack.pop()
            self.cstack.pop()
            self.cur = save

    def instantiate(self, ci, args, kw, st, node, sym=None):
        c = self.new_cell(st, node)
        o = Obj(ci, {}, None, mk("new", ci.name, self.kid("new", st, node) if st.loops else self.nuid() + 10 ** 6))
        st.heap[c] = o
        v = Val("obj", cell=c)
        self.eff(st, "new", node, cls=ci, val=v)
        init, owner = ci.lookup("__init__")
        if init is not None:
            self.call_function(init.x, [v] + args, kw, st, node)
        elif ci.dataclass or ci.all_dfields():
            fl = ci.all_dfields()
            names = [f[0] for f in fl]
            given = {}
            for n, a in zip(names, [a for a in args if isinstance(a, Val)]):
                given[n] = a
            bad = []
            for n, a in kw:
                if n is None:
                    ents, s2 = self.ents_of(a, st)
                    for e in ents:
                        if e[0] == "i" and is_const(e[1]):
                            given[cval(e[1])] = e[2]
                elif n in names:
                    given[n] = a
                else:
                    bad.append("unexpected keyword argument %r" % n)
            fields = {}
            for n, dv, fac in fl:
                if n in given:
                    fields[n] = given[n]
                elif fac is not None:
                    fields[n] = self.call(fac, [], [], st, node)
                elif dv is not None:
                    fields[n] = dv
                else:
                    bad.append("missing argument %r" % n)
            if bad:
                self.eff(st, "binderror", node, callee=ci.qual, errors=tuple(bad))
            st.heap[c] = Obj(ci, fields, None, o.name)
            pi, _ = ci.lookup("__post_init__")
            if pi is not None:
                self.call_function(pi.x, [v], [], st, node)
        elif (args or kw) and not ci.ext_bases():
            self.eff(st, "binderror", node, callee=ci.qual, errors=("takes no arguments",))
        return v

    # ------- methods
    def call_method(self, recv, name, args, kw, st, node):
        k = recv.kind
        if k == "phi":
            c, a, b = recv.x
            cc = assume(c, st.facts)
            if cc is TRUE:
                return self.call_method(a, name, args, kw, st, node)
            if cc is FALSE:
                return self.call_method(b, name, args, kw, st, node)
            if self.is_none(a):
                return self.none_branch(st, c, b, lambda s, v: self.call_method(v, name, args, kw, s, node), True, name, node)
            if self.is_none(b):
                return self.none_branch(st, c, a, lambda s, v: self.call_method(v, name, args, kw, s, node), False, name, node)
            return self.branch(st, c, lambda s: self.call_method(a, name, args, kw, s, node),
                               lambda s: self.call_method(b, name, args, kw, s, node))
        if k == "e" and recv.t is NONE:
            self.eff(st, "raise", node, exc="AttributeError(None.%s)" % name, val=None)
            raise PathEnd()
        if k in ("obj", "cls", "mod", "super", "fn"):
            if k == "cls" and name == "from_records":
                pass
            f = self.getattr(recv, name, st, node)
            return self.call(f, args, kw, st, node)
        if k == "seq":
            return self.seq_method(recv, name, args, kw, st, node)
        if k == "dict":
            return self.dict_method(recv, name, args, kw, st, node)
        if k == "iterview":
            return self.ext(st, mk("opaque", "iterview method"))
        if k == "e" and recv.t.op == "ext":
            return self.call_ext(recv.t.a[0] + "." + name, args, kw, st, node)
        return self.ext_method(recv, name, args, kw, st, node)

    def seq_log(self, st, recv, name, args, node):
        if recv.sub:
            self.crossed.add(recv.cell)
        self.eff(st, "mutate", node, target=recv, how="." + name, key=None, value=None, val=args[0] if args else None, keyval=None,
                 old=None, path=recv.path, cond=TRUE, labels=self.labels_of(recv))

    def seq_method(self, recv, name, args, kw, st, node):
        c = self.cont(st, recv)
        if name in ("append", "add"):
            self.seq_log(st, recv, name, args, node)
            c = st.heap[recv.cell]
            st.heap[recv.cell] = Seq(c.kind, c.segs + (("i", args[0]),))
            return self.cv(None)
        if name == "extend" or (name == "update" and c.kind == "set"):
            self.seq_log(st, recv, name, args, node)
            c = st.heap[recv.cell]
            st.heap[recv.cell] = Seq(c.kind, c.segs + tuple(self.segs_of(args[0], st)))
            return self.cv(None)
        if name == "insert":
            self.seq_log(st, recv, name, args, node)
            c = st.heap[recv.cell]
            i = self.snap(st, args[0])
            if is_const(i) and isinstance(cval(i), int) and 0 <= cval(i) <= len(c.segs) and all(s[0] == "i" for s in c.segs[:cval(i)]):
                st.heap[recv.cell] = Seq(c.kind, c.segs[:cval(i)] + (("i", args[1]),) + c.segs[cval(i):])
            else:
                st.heap[recv.cell] = Seq(c.kind, (("ext", mk("mut", "insert", self.snap(st, recv), i, self.snap(st, args[1]))),))
            return self.cv(None)
        if name == "copy":
            return self.mkseq_segs(st, c.kind, c.segs, node)
        if name in ("remove", "discard"):
            self.seq_log(st, recv, name, args, node)
            t = self.snap(st, recv)
            x = self.snap(st, args[0])
            st.heap[recv.cell] = Seq(c.kind, (("ext", mk("without", t, x)),))
            return self.cv(None)
        if name == "pop":
            self.seq_log(st, recv, name, args, node)
            i = self.snap(st, args[0]) if args else const(-1)
            if is_const(i) and all(s[0] == "i" for s in c.segs) and -len(c.segs) <= cval(i) < len(c.segs):
                l = list(c.segs)
                v = l.pop(cval(i))[1]
                st.heap[recv.cell] = Seq(c.kind, l)
                return v
            t = self.snap(st, recv)
            st.heap[recv.cell] = Seq(c.kind, (("ext", mk("mut", "pop", t, i)),))
            return self.ext(st, mk_idx(t, i))
        if name == "clear":
            self.seq_log(st, recv, name, args, node)
            st.heap[recv.cell] = Seq(c.kind, ())
            return self.cv(None)
        if name in ("sort", "reverse"):
            self.seq_log(st, recv, name, args, node)
            at, kt = self.arg_terms(args, kw, st)
            for n_, v_ in kw:
                self.ho(v_, st, node, mk("elem", self.snap(st, recv), 0))
            st.heap[recv.cell] = Seq(c.kind, (("ext", mk("call", "sorted" if name == "sort" else "reversed", (self.snap(st, recv),), kt)),))
            return self.cv(None)
        if name == "index":
            return self.ext(st, mk("m", "index", self.snap(st, recv), (self.snap(st, args[0]),), ()))
        at, kt = self.arg_terms(args, kw, st)
        t = mk("m", name, self.snap(st, recv), at, kt)
        self.eff(st, "ext", node, name="." + name, fn=None, args=at, kw=dict(kt), vals=args, kwvals=dict(kw), recv=self.snap(st, recv), recvv=recv, result=t)
        if name in ("union", "intersection", "difference", "symmetric_difference"):
            return self.ext(st, t)
        return self.ext(st, t)

    def dict_method(self, recv, name, args, kw, st, node):
        c = self.cont(st, recv)
        if name in ("keys", "values", "items"):
            ident = self.dict_ident(recv, st) if name == "keys" else mk(name, self.snap(st, recv))
            return Val("iterview", t=ident if name == "keys" else ident, x=lambda s, m=name: self.plan_dict(self.cont(s, recv), s, m))
        if name == "get":
            kt = self.snap(st, args[0])
            d = args[1] if len(args) > 1 else (dict(kw).get("default") or self.cv(None))
            if c.default is not None:
                c = Dct(c.ents, c.sym, None)
            v = self.dict_lookup(recv, kt, st, node, default=self.snap(st, d))
            if v is None:
                return d
            if c.sym is None and c.ents and not any(e[0] == "i" and e[1] is kt for e in c.ents) and not any(e[0] == "map" for e in c.ents):
                return v
            return v
        if name == "pop":
            kt = self.snap(st, args[0])
            d = args[1] if len(args) > 1 else None
            self.eff(st, "mutate", node, target=recv, how=".pop", key=kt, value=None, val=None, keyval=args[0], old=None, path=recv.path, cond=TRUE,
                     labels=self.labels_of(recv))
            hit = [e for e in c.ents if e[0] == "i" and e[1] is kt]
            if hit:
                v = hit[-1][2]
                st.heap[recv.cell] = Dct(self.del_ent(c.ents, kt), c.sym, c.default)
                return v
            if c.sym is not None:
                dt = self.snap(st, d) if d is not None else NONE
                dv = (d,) if d is not None and d.kind in ("seq", "dict", "obj") else ()
                return self.ext(st, mk("kwpop", c.sym, kt, dt), views=(Val("e", c.sym, self.sym_cell(st, c.sym)),) + dv)
            if d is not None and all(e[0] == "i" for e in c.ents):
                return d
            v = self.dict_lookup(recv, kt, st, node)
            st.heap[recv.cell] = Dct(self.del_ent(c.ents, kt), c.sym, c.default)
            return v
        if name == "setdefault":
            kt = self.snap(st, args[0])
            d = args[1] if len(args) > 1 else self.cv(None)
            cur = self.dict_lookup(recv, kt, st, node, default=NONE)
            if cur is None:
                self.mutate(st, recv, "setitem", args[0], d, node)
                return d
            return cur
        if name == "update":
            self.eff(st, "mutate", node, target=recv, how=".update", key=None, value=None, val=args[0] if args else None, keyval=None, old=None,
                     path=recv.path, cond=TRUE, labels=self.labels_of(recv))
            ents, sym = [], None
            if args:
                ents, sym = self.ents_of(args[0], st)
            c = st.heap[recv.cell]
            new = c.ents
            for e in ents:
                new = self.put_ent(new, e[1], e[2]) if e[0] == "i" else new + (e,)
            for n, v in kw:
                if n is not None:
                    new = self.put_ent(new, const(n), v)
            if sym is not None:
                new = new + (("ext", sym),)
            st.heap[recv.cell] = Dct(new, c.sym, c.default)
            return self.cv(None)
        if name == "copy":
            v = self.mkdict(st, c.ents, c.sym, c.default, node)
            return v
        if name == "clear":
            self.eff(st, "mutate", node, target=recv, how=".clear", key=None, value=None, val=None, keyval=None, old=None, path=recv.path, cond=TRUE,
                     labels=self.labels_of(recv))
            st.heap[recv.cell] = Dct((), None, c.default)
            return self.cv(None)
        at, kt = self.arg_terms(args, kw, st)
        return self.ext(st, mk("m", name, self.snap(st, recv), at, kt))

    def sym_cell(self, st, sym):
        key = ("symcell", sym)
        if key not in self._symcells:
            c = self.new_cell(st)
            self.cell_loops[c] = ()
            self.init_term[c] = sym
            self._symcells[key] = c
            self.labels[c] = "param:%s" % show(sym)
        return self._symcells[key]

    # ------- higher order
    def ho(self, f, st, node, *param_terms, kw=(), prefix=()):
        """interpret a function value passed to a library routine; returns the term of its result (or None)"""
        if isinstance(f, tuple):
            return None
        if f.kind not in ("fn", "bound", "partial", "phi"):
            return None
        if f.kind == "phi" and not any(l.kind in ("fn", "bound", "partial") for l in self.leaves(f)):
            return None
        box = []

        def body(s2):
            ps = [self.ext(s2, p) if p.op != "const" else Val("e", p) for p in param_terms]
            v = self.call(f, list(prefix) + ps, list(kw), s2, node)
            box.append(self.snap(s2, v))
            return s2, []
        res, outs = self.sym_loop(st, mk("ho", *param_terms), body, node)
        st.become(res)
        return box[-1] if box else None

    # ------- library methods
    def ext_method(self, recv, name, args, kw, st, node):
        rt = self.snap(st, recv)
        # repo-independent special receivers
        if recv.kind == "indexer":
            return self.ext(st, mk("opaque", "indexer call"))
        hot = None
        args = list(args)
        kw = list(kw)
        ty = self.ty(rt)
        if name in HO_METHODS or name in ("sort_values", "sort_index", "groupby", "rename", "reduce", "rolling"):
            hot = self.ho_method(recv, rt, name, args, kw, st, node)
        at, kt = self.arg_terms(args, kw, st)
        if hot:
            at = tuple(hot.get(("a", i), x) for i, x in enumerate(at))
            kt = tuple((k, hot.get(("k", k), v)) for k, v in kt)
        sig = SIG_M.get(name)
        if name == "sort_values" and at and "by" not in dict(kt):
            if ty != "series":
                sig = ["by", "axis", "ascending", "inplace", "kind", "na_position", "ignore_index", "key"]
            else:
                sig = ["axis", "ascending", "inplace", "kind", "na_position", "ignore_index", "key"]
        at2, kt2 = at, kt
        if sig:
            kd = dict(kt)
            rest = []
            for i, a in enumerate(at):
                if i < len(sig) and sig[i] not in kd and a.op != "star":
                    kd[sig[i]] = a
                else:
                    rest.append(a)
            at2, kt2 = tuple(rest), tuple(sorted(kd.items(), key=lambda x: x[0]))
        kd = dict(kt2)
        inplace = kd.get("inplace") is TRUE
        nm = {"progress_apply": "apply", "aggregate": "agg", "to_list": "tolist", "progress_map": "map", "isna": "isnull", "notna": "notnull"}.get(name, name)
        views = ()
        res = None
        draw = None
        if name == "sample" and ty not in ("rng",):
            draw = ("sample", kd.get("random_state", NONE))
        elif name in DRAW_METHODS and (self.is_rng(rt) or (ty == "rng")):
            draw = (name, rt)
        # ---- canonical results
        if draw is not None and name == "shuffle":
            did = self.draw_id(st, node)
            self.eff(st, "draw", node, how="shuffle", rng=draw[1], args=at, kw=kd, site=did[0], recv=rt, result=mk("draw", did, "shuffle", rt, at, kt2))
            if args:
                self.mutate(st, args[0], ".shuffle", None, Val("e", mk("draw", did, "shuffle", rt, at, kt2)), node)
            return self.cv(None)
        if draw is not None:
            did = self.draw_id(st, node)
            d = mk("draw", did, draw[0], draw[1], (rt,) + at2 if name == "sample" else at2, tuple((k, v) for k, v in kt2 if k != "random_state"))
            self.eff(st, "draw", node, how=draw[0], rng=draw[1], args=at2, kw=kd, recv=rt, result=d, recvv=recv, site=did[0])
            return self.ext(st, d, node=node)
        if nm in REDSET and ty not in ("str", "dict", "rng"):
            k3 = dict(kt)
            if at and "axis" not in k3:
                k3["axis"] = at[0]
            res = mk_red(nm, rt, tuple(sorted(k3.items())))
        elif nm == "abs" and not at:
            res = mk("abs", rt)
        elif nm == "equals" and ty == "frame" and kd.get("other") is not None and uncopy(kd["other"]) is uncopy(rt):
            res = TRUE
        elif nm == "copy" and not kd.get("deep") is FALSE:
            res = mk_copy(rt)
            if ty == "dict" or rt.op == "kwpop":
                views = (recv,)
        elif nm == "copy":
            res = mk_copy(rt)
            views = (recv,)
        elif nm in ("tolist",):
            r = self.mkseq_segs(st, "list", self.term_segs(rt), node)
            self.log_ext(st, node, "." + name, recv, rt, at2, kt2, args, kw, rt)
            return r
        elif nm == "to_numpy" and not at and not kd:
            res = mk_attr(rt, "values")
            views = (recv,)
        elif nm == "assign":
            return self.df_assign(recv, rt, kw, st, node)
        elif nm in M_BIN and len(at) == 1 and not kt:
            res = mk_bin(M_BIN[nm], rt, at[0])
        elif nm in M_CMP and len(at) == 1 and not kt:
            res = mk_cmp(M_CMP[nm], rt, at[0])
        elif nm == "keys" and not at:
            res = mk("keys", rt)
        elif nm == "__len__":
            res = mk_len(rt)
        elif nm == "__getitem__":
            return self.index(recv, args[0], st, node)
        elif nm == "__setitem__":
            self.mutate(st, recv, "setitem", args[0], args[1], node)
            return self.cv(None)
        elif nm == "iterrows":
            src = mk("rowsof", uncopy(rt))
            return Val("iterview", t=mk("m", "iterrows", rt, (), ()), x=lambda s: [("sym", src, lambda n: ("tup", [
                Val("e", mk("rowidx", src.a[0], n)), self.ext(s, mk("row", src.a[0], mk("pos", src, n)))]))])
        elif nm == "itertuples":
            src = mk("rowsof", uncopy(rt))
            return Val("iterview", t=mk("m", "itertuples", rt, (), ()), x=lambda s: [("sym", src, lambda n: self.ext(s, mk("row", src.a[0], mk("pos", src, n))))])
        elif nm == "items" and not at:
            res = mk("items", rt)
        elif nm == "reset_index" and not kd.get("inplace"):
            res = mk("m", nm, rt, at2, kt2)
        elif nm == "get" and ty in ("frame",) and at:
            res = mk_idx(rt, at[0])
        elif nm == "pop" and at and rt.op in ("kwpop", "kwargs", "param") and ty in ("dict", "?"):
            res = mk("m", "pop", rt, at2, kt2)
        elif nm == "transpose" and not at:
            res = mk_attr(rt, "T")
        elif nm == "sum" and False:
            pass
        elif nm == "take" and len(at) == 1:
            res = mk("iloc", uncopy(rt), at[0])
        if res is None:
            res = mk("m", nm, rt, at2, kt2)
        self.log_ext(st, node, "." + name, recv, rt, at2, kt2, args, kw, res)
        if inplace:
            kq = tuple((k, v) for k, v in kt2 if k != "inplace")
            self.mutate(st, recv, "inplace:" + name, None, Val("e", mk("m", nm, rt, at2, kq)), node)
            return self.cv(None)
        if kd.get("copy") is FALSE:
            views = (recv,)
        if name in VIEW_METHODS and not views:
            views = (recv,) if recv.kind == "e" else ()
        if "out" in dict(kw):
            self.mutate(st, dict(kw)["out"], ".out", None, Val("e", res), node)
        if name in MUT_METHODS and self.really_mutates(rt, ty, name):
            self.mutate(st, recv, "." + name, args[0] if args and isinstance(args[0], Val) else None, Val("e", mk("tuple", *at)), node)
            if name in ("append", "extend", "insert", "sort", "reverse", "clear", "add", "discard", "update"):
                return self.cv(None)
        if nm in ("apply", "map", "agg", "transform", "filter", "pipe", "applymap") and hot and not kw and nm == "pipe":
            pass
        return self.ext(st, res, views=views, node=node)

    def really_mutates(self, rt, ty, name):
        if name in ("append", "insert", "add", "reverse", "extend", "remove", "pop", "update") and ty in ("index", "str"):
            return False
        if ty in ("frame", "series") and name in ("append", "add", "put", "partition"):
            return False
        if ty == "series" and name in ("sort",):
            return False
        if rt.op == "call" and str(rt.a[0]).startswith(("matplotlib.", "networkx.", "seaborn.")):
            return True
        return True

    def log_ext(self, st, node, name, recv, rt, at, kt, args, kw, res):
        self.eff(st, "ext", node, name=name, fn=None, args=at, kw=dict(kt), vals=args, kwvals=dict(x for x in kw if x[0]), recv=rt, recvv=recv, result=res)

    def ty(self, t, d=0):
        """coarse library type of a term: frame series array index list dict str model rng ?"""
        if d > 12:
            return "?"
        o = t.op
        if o == "param":
            return t.a[1] if len(t.a) > 1 else "?"
        if o == "const":
            return "str" if isinstance(cval(t), str) else "num"
        if o == "attr":
            if t.a[1] in ("columns", "index"):
                return "index"
            if t.a[1] == "values":
                return "array"
            if t.a[1] == "T":
                return self.ty(t.a[0], d + 1)
            return "?"
        if o in ("copy", "store", "storeloc", "rows", "viewmut", "storecols", "storeiloc"):
            return self.ty(t.a[0], d + 1)
        if o == "cols":
            return "frame"
        if o == "idx":
            b = self.ty(t.a[0], d + 1)
            if b == "frame" and strish(t.a[1]):
                return "series"
            return "?"
        if o == "draw":
            return self.ty(t.a[3][0], d + 1) if t.a[1] == "sample" and t.a[3] else "array"
        if o == "call":
            if t.a[0] in ("pandas.DataFrame", "pandas.concat"):
                return "frame"
            if t.a[0] == "pandas.Series":
                return "series"
            if t.a[0] in RNG_CTORS:
                return "rng"
            if t.a[0] in ("sorted", "list"):
                return "list"
            if t.a[0] == "dict":
                return "dict"
            return "?"
        if o == "m":
            if t.a[0] in ("sort_values", "rename", "drop", "reset_index", "fillna", "reindex", "head", "tail", "assign", "join", "replace",
                          "drop_duplicates", "set_index", "sort_index", "astype", "iloc"):
                return self.ty(t.a[1], d + 1)
            if t.a[0] in ("agg", "pivot_table", "trees_to_dataframe", "merge"):
                return "frame"
            if t.a[0] in ("split", "lower", "upper", "join", "strip", "capitalize", "format", "replace"):
                return "str"
            return "?"
        if o == "phi":
            a, b = self.ty(t.a[1], d + 1), self.ty(t.a[2], d + 1)
            return a if a == b else (a if b == "?" else b if a == "?" else "?")
        if o in ("setof",):
            return "set"
        if o in ("fstr",):
            return "str"
        return "?"

    def is_rng(self, t):
        for x in tm.walk(t):
            if x.op == "call" and x.a[0] in RNG_CTORS:
                return True
            if x.op == "param" and len(x.a) > 1 and x.a[1] == "rng":
                return True
            if x.op not in ("phi", "call", "attr", "idx", "fld", "loopout", "loopin", "param", "cmp", "isnone", "not", "and", "or", "truth", "isinstance", "const"):
                return False
        return False

    def ho_method(self, recv, rt, name, args, kw, st, node):
        hot = {}
        kd = {n: v for n, v in kw if n}
        extra = []
        if name in ("apply", "progress_apply", "applymap", "transform", "pipe", "filter"):
            extra = [(n, v) for n, v in kw if n not in ("axis", "raw", "result_type", "args", "func", "meta")]
        if name in ("apply", "progress_apply"):
            ax = self.snap(st, kd["axis"]) if "axis" in kd else (self.snap(st, args[1]) if len(args) > 1 and isinstance(args[1], Val) else const(0))
            if rt.op == "m" and rt.a[0] == "groupby":
                p = mk("group", rt)
            elif rt.op == "idx" and rt.a[0].op == "m" and rt.a[0].a[0] == "groupby":
                p = mk("group", rt)
            elif is_const(ax) and cval(ax) in (1, "columns"):
                p = mk("row", uncopy(rt), mk("pos", mk("rowsof", uncopy(rt)), 0))
            elif self.ty(rt) == "frame":
                p = mk("elemcol", uncopy(rt))
            else:
                p = mk("elem", uncopy(rt), 0)
        elif name in ("map", "progress_map", "applymap"):
            p = mk("elem", uncopy(rt), 0)
        elif name in ("sort_values", "sort_index"):
            p = mk("hokey", uncopy(rt))
        elif name in ("transform", "filter", "agg", "aggregate") and rt.op == "m" and rt.a[0] == "groupby":
            p = mk("group", rt)
        elif name == "pipe":
            p = rt
        else:
            p = mk("hoparam", rt)
        for i, a in enumerate(args):
            if isinstance(a, Val) and a.kind in ("fn", "bound", "partial", "phi"):
                r = self.ho(a, st, node, p, kw=extra)
                if r is not None:
                    hot[("a", i)] = mk("lam", p, r)
        for n, a in kw:
            if n in ("func", "key", "arg", "by") and isinstance(a, Val) and a.kind in ("fn", "bound", "partial", "phi"):
                r = self.ho(a, st, node, p)
                if r is not None:
                    hot[("k", n)] = mk("lam", p, r)
            elif isinstance(a, Val) and a.kind == "fn":
                r = self.ho(a, st, node, p)
                if r is not None:
                    hot[("k", n)] = mk("lam", p, r)
        return hot

    def df_assign(self, recv, rt, kw, st, node):
        t = mk_copy(rt)
        at = []
        for n, v in kw:
            if n is None:
                ents, sym = self.ents_of(v, st)
                for e in ents:
                    t = self.assign_ent(t, e, st)
                if sym is not None:
                    t = mk("assignsym", t, sym)
            else:
                if v.kind in ("fn", "bound", "partial"):
                    r = self.ho(v, st, node, t)
                    vt = r if r is not None else mk("opaque", "assign fn")
                else:
                    vt = self.snap(st, v)
                t = mk_store(t, const(n), vt)
        at, kt = self.arg_terms([], kw, st)
        self.log_ext(st, node, ".assign", recv, rt, at, kt, [], kw, t)
        return self.ext(st, t, node=node)

    def assign_ent(self, t, e, st):
        if e[0] == "i":
            return mk_store(t, e[1], self.snap(st, e[2]))
        if e[0] == "map":
            inner = e[2]
            cond = e[3]
            if len(inner) == 1 and inner[0][0] == "if" and not inner[0][3]:
                cond = mk_and(cond, inner[0][1])
                inner = inner[0][2]
            if len(inner) == 1 and inner[0][0] == "i":
                return mk("assignmap", t, e[1], inner[0][1], self.snap(st, inner[0][2]), cond)
        if e[0] == "if":
            a, b = t, t
            for x in e[2]:
                a = self.assign_ent(a, x, st)
            for x in e[3]:
                b = self.assign_ent(b, x, st)
            return mk_phi(e[1], a, b)
        return mk("assignsym", t, mk("opaque", "ents", self.kid("ents", st)))

    # ------- library functions and builtins
    def call_ext(self, name, args, kw, st, node):
        b = getattr(self, "b_" + name.replace(".", "_"), None) if name in SPECIAL else None
        if b is not None:
            r = b(args, kw, st, node)
            if r is not None:
                return r
        return self.generic_ext(name, args, kw, st, node)

    def generic_ext(self, name, args, kw, st, node):
        hot = {}
        if name == "numpy.apply_along_axis":
            kd0 = {n: v for n, v in kw if n}
            fn = args[0] if args else kd0.get("func1d")
            ax = args[1] if len(args) > 1 else kd0.get("axis")
            arr = args[2] if len(args) > 2 else kd0.get("arr")
            ekw = [(n, v) for n, v in kw if n not in ("func1d", "axis", "arr")]
            p = mk("slice1d", self.snap(st, arr), self.snap(st, ax))
            r = self.ho(fn, st, node, p, kw=ekw)
            if r is None:
                r = mk("callv", self.snap(st, fn), (p,), tuple((n, self.snap(st, v)) for n, v in ekw if n))
            res = mk("along", self.snap(st, arr), self.snap(st, ax), r)
            at, kt = self.arg_terms(args, kw, st)
            self.log_ext(st, node, name, None, None, at, kt, args, kw, res)
            return self.ext(st, res, node=node)
        for i, a in enumerate(args):
            if isinstance(a, Val) and a.kind in ("fn", "bound", "partial"):
                r = self.ho(a, st, node, mk("hoparam", mk("ext", name)))
                if r is not None:
                    hot[("a", i)] = mk("lam", mk("hoparam", mk("ext", name)), r)
        for n, a in kw:
            if isinstance(a, Val) and a.kind in ("fn", "bound", "partial") and n:
                r = self.ho(a, st, node, mk("hoparam", mk("ext", name)))
                if r is not None:
                    hot[("k", n)] = mk("lam", mk("hoparam", mk("ext", name)), r)
        at, kt = self.arg_terms(args, kw, st)
        if hot:
            at = tuple(hot.get(("a", i), x) for i, x in enumerate(at))
            kt = tuple((k, hot.get(("k", k), v)) for k, v in kt)
        if name == "pandas.DataFrame.from_records":
            canon = "pandas.DataFrame"
        else:
            canon = name
        sig = SIG_F.get(name)
        if sig:
            kd = dict(kt)
            rest = []
            for i, a in enumerate(at):
                if i < len(sig) and sig[i] not in kd and a.op != "star":
                    kd[sig[i]] = a
                else:
                    rest.append(a)
            at, kt = tuple(rest), tuple(sorted(kd.items(), key=lambda x: x[0]))
        kd = dict(kt)
        res = None
        views = ()
        short = name.split(".")[-1]
        isnp = name.startswith("numpy.")
        x = at[0] if at else None
        if isnp and short in REDSET and name.count(".") == 1:
            k3 = {k: v for k, v in kd.items() if k != "a"}
            xx = kd.get("a", x)
            if len(at) > 1 and "axis" not in k3:
                k3["axis"] = at[1]
            if xx is not None:
                res = mk_red(short, xx, tuple(sorted(k3.items())))
        elif name in ("numpy.abs", "numpy.absolute", "math.fabs", "numpy.fabs") and len(at) == 1:
            res = mk("abs", x)
        elif name in ("numpy.square",) and len(at) == 1:
            res = tm.mk_pow(x, const(2))
        elif name in ("numpy.sqrt", "math.sqrt") and len(at) == 1:
            res = tm.mk_pow(x, const(0.5))
        elif name in ("numpy.power", "math.pow", "operator.pow") and len(at) == 2:
            res = tm.mk_pow(x, at[1])
        elif name in UFUNC_BIN and len(at) == 2:
            res = mk_bin(UFUNC_BIN[name], at[0], at[1])
        elif name in UFUNC_CMP and len(at) == 2:
            res = mk_cmp(UFUNC_CMP[name], at[0], at[1])
        elif name in ("numpy.negative", "operator.neg") and len(at) == 1:
            res = mk_neg(x)
        elif name in ("numpy.logical_and", "numpy.bitwise_and", "operator.and_") and len(at) == 2:
            res = mk_bin("&", at[0], at[1])
        elif name in ("numpy.logical_or", "numpy.bitwise_or", "operator.or_") and len(at) == 2:
            res = mk_bin("|", at[0], at[1])
        elif name in ("numpy.logical_not", "numpy.invert", "operator.not_") and len(at) == 1:
            res = mk_not(x)
        elif name in ("numpy.isnan", "pandas.isnull", "pandas.isna", "math.isnan") and len(at) == 1:
            res = mk("isnan", x)
        elif name in ("numpy.array", "numpy.asarray", "numpy.asanyarray", "numpy.copy") and len(at) == 1:
            res = mk("conv", "array", x) if x.op != "conv" else x
            if name in ("numpy.asarray", "numpy.asanyarray") or kd.get("copy") is FALSE:
                views = tuple(a for a in args[:1] if isinstance(a, Val) and a.kind == "e" and a.cell is not None)
                res = x if self.ty(x) in ("array",) else res
        elif name in ("numpy.transpose",) and len(at) == 1:
            res = mk_attr(x, "T")
        elif name == "numpy.size" and len(at) == 1:
            res = mk_len(x)
        elif name in ("numpy.flip", "numpy.sort", "numpy.unique") and len(at) == 1 and not kt:
            if name == "numpy.sort" and x.op == "call" and x.a[0] in ("numpy.unique", "numpy.sort") and not x.a[2]:
                res = x
            else:
                res = mk("call", name, (strip_conv(x) if name != "numpy.flip" else x,), ())
        if res is None:
            res = mk("call", canon, at, kt)
        # random sources
        base = name
        if name.startswith(GLOBAL_RNG) and name not in RNG_CTORS and short not in ("seed", "get_state", "set_state", "Generator", "RandomState", "default_rng"):
            did = self.draw_id(st, node)
            d = mk("draw", did, short, mk("ext", name.rsplit(".", 1)[0]), at, kt)
            self.eff(st, "draw", node, how=short, rng=mk("ext", name.rsplit(".", 1)[0]), args=at, kw=kd, recv=None, result=d, site=did[0])
            if short == "shuffle" and args:
                self.mutate(st, args[0], ".shuffle", None, Val("e", d), node)
                return self.cv(None)
            return self.ext(st, d, node=node)
        self.log_ext(st, node, name, None, None, at, kt, args, kw, res)
        if name in VIEW_FUNCS and not views and kd.get("copy") is not TRUE:
            a0 = args[0] if args else dict(x for x in kw if x[0]).get("data")
            if isinstance(a0, Val) and a0.kind == "e" and a0.cell is not None:
                views = (a0,)
        if name == "numpy.nan_to_num" and kd.get("copy") is FALSE and args:
            self.mutate(st, args[0], "inplace:nan_to_num", None, Val("e", res), node)
        if name in MUT_FUNCS and args and isinstance(args[MUT_FUNCS[name]], Val):
            self.mutate(st, args[MUT_FUNCS[name]], "." + short, args[1] if len(args) > 1 else None, args[-1], node)
        ko = dict(x for x in kw if x[0]).get("out")
        if ko is not None:
            self.mutate(st, ko, ".out", None, Val("e", res), node)
        if res.op == "const":
            return Val("e", res)
        return self.ext(st, res, views=views, node=node)

    def pos_or_kw(self, args, kw, i, name):
        for n, v in kw:
            if n == name:
                return v
        if len(args) > i and isinstance(args[i], Val):
            return args[i]
        return None

    # ---- builtins with structure
    def b_len(self, args, kw, st, node):
        v = args[0]
        if v.kind == "seq":
            c = self.cont(st, v)
            if all(s[0] == "i" for s in c.segs):
                return self.cv(len(c.segs))
        if v.kind == "dict":
            c = self.cont(st, v)
            if c.sym is None and all(s[0] == "i" for s in c.ents):
                return self.cv(len(c.ents))
        if v.kind == "phi":
            return self.branch(st, v.x[0], lambda s: self.b_len([v.x[1]], [], s, node), lambda s: self.b_len([v.x[2]], [], s, node))
        if v.kind == "obj":
            f, _ = st.heap[v.cell].cls.lookup("__len__")
            if f is not None:
                return self.call(Val("bound", x=(f.x, v)), [], [], st, node)
        return Val("e", mk_len(self.snap(st, v)))

    def b_list(self, args, kw, st, node):
        return self.to_seq("list", args, st, node)

    def b_tuple(self, args, kw, st, node):
        return self.to_seq("tuple", args, st, node)

    def b_set(self, args, kw, st, node):
        return self.to_seq("set", args, st, node)

    def b_frozenset(self, args, kw, st, node):
        return self.to_seq("set", args, st, node)

    def to_seq(self, kind, args, st, node):
        if not args:
            return self.mkseq(st, kind, [], node)
        v = args[0]
        if isinstance(v, tuple):
            v = v[1]
        if kind != "set" and v.kind == "seq" and self.cont(st, v).kind == "set" and len(self.cont(st, v).segs) > 1:
            self.eff(st, "setiter", node, what="convert")
        if kind != "set" and v.kind == "seq" and self.cont(st, v).kind == "set" and len(self.cont(st, v).segs) == 1 and self.cont(st, v).segs[0][0] != "i":
            self.eff(st, "setiter", node, what="convert")
            return self.mkseq_segs(st, kind, [("ext", self.snap(st, v))], node)
        if kind != "set" and v.kind == "e" and self.is_setish(self.snap(st, v)):
            self.eff(st, "setiter", node, what="convert")
        return self.mkseq_segs(st, kind, self.segs_of(v, st), node)

    def is_setish(self, t):
        if t.op in ("setof", "set"):
            return True
        if t.op == "m" and t.a[0] in ("union", "intersection", "difference", "symmetric_difference"):
            return self.is_setish(t.a[1]) or self.ty(t.a[1]) == "set"
        if t.op == "bin" and t.a[0] in ("-", "&", "|"):
            return self.is_setish(t.a[1])
        return False

    def b_dict(self, args, kw, st, node):
        ents, sym = [], None
        if args:
            if args[0].kind == "iterview":
                segs = self.segs_of(args[0], st)
                if all(s[0] == "i" and s[1].kind == "seq" for s in segs):
                    for s in segs:
                        cs = self.cont(st, s[1]).segs
                        if len(cs) == 2:
                            ents.append(("i", self.snap(st, cs[0][1]), cs[1][1]))
                elif len(segs) == 1 and segs[0][0] == "map" and len(segs[0][2]) == 1 and segs[0][2][0][0] == "i" and segs[0][2][0][1].kind == "seq":
                    cs = self.cont(st, segs[0][2][0][1]).segs
                    ents.append(("map", segs[0][1], (("i", self.snap(st, cs[0][1]), cs[1][1]),), segs[0][3]))
                else:
                    return None
            elif args[0].kind in ("dict", "phi"):
                ents, sym = self.ents_of(args[0], st)
            elif args[0].kind == "seq":
                segs = self.cont(st, args[0]).segs
                if all(s[0] == "i" and s[1].kind == "seq" for s in segs):
                    for s in segs:
                        cs = self.cont(st, s[1]).segs
                        ents.append(("i", self.snap(st, cs[0][1]), cs[1][1]))
                elif len(segs) == 1 and segs[0][0] == "map" and len(segs[0][2]) == 1 and segs[0][2][0][0] == "i" and segs[0][2][0][1].kind == "seq":
                    cs = self.cont(st, segs[0][2][0][1]).segs
                    ents.append(("map", segs[0][1], (("i", self.snap(st, cs[0][1]), cs[1][1]),), segs[0][3]))
                else:
                    return None
            else:
                t = self.snap(st, args[0])
                if t.op in ("param", "kwpop", "kwargs") or self.ty(t) == "dict":
                    return self.mkdict(st, [], t, None, node)
                if t.op == "const" and t is NONE:
                    return None
                return None
        for n, v in kw:
            if n is None:
                e2, s2 = self.ents_of(v, st)
                ents += e2
                sym = s2 if sym is None else sym
            else:
                ents = list(self.put_ent(tuple(ents), const(n), v))
        return self.mkdict(st, ents, sym, None, node)

    def b_range(self, args, kw, st, node):
        ts = [self.snap(st, a) for a in args]
        if len(ts) == 1:
            ts = [const(0), ts[0], const(1)]
        elif len(ts) == 2:
            ts = ts + [const(1)]
        return Val("e", mk("range", *ts[:3]))

    def b_enumerate(self, args, kw, st, node):
        v = args[0]
        start = self.pos_or_kw(args, kw, 1, "start")
        s0 = self.snap(st, start) if start is not None else const(0)
        if is_const(s0) and cval(s0) == 0:
            return Val("iterview", t=mk("enumerate", self.iter_norm(self.snap(st, v)) if v.kind != "iterview" else (v.t or mk("opaque", "it")), s0),
                       x=lambda s: self.plan_zip_pos(self.plan(v, s, node), s))
        return None

    def b_zip(self, args, kw, st, node):
        if any(isinstance(a, tuple) for a in args):
            return None
        vs = list(args)

        def plan(s):
            ps = [self.plan(v, s, node) for v in vs]
            if all(self.flat_items(p) for p in ps):
                n = min((len(p) for p in ps), default=0)
                return [("item", ("tup", [p[i][1] for p in ps])) for i in range(n)]
            if all(len(p) == 1 and p[0][0] in ("sym", "nest") for p in ps):
                its = {p[0][1] for p in ps}
                if len(its) == 1 and all(p[0][0] == "sym" or (p[0][3] is TRUE and len(p[0][2]) == 1 and p[0][2][0][0] == "item") for p in ps):
                    it = its.pop()
                    if all(p[0][0] == "sym" for p in ps):
                        return [("sym", it, lambda n: ("tup", [p[0][2](n) for p in ps]))]
                    return [("nest", it, [("item", ("tup", [p[0][2](0) if p[0][0] == "sym" else p[0][2][0][1] for p in ps]))], TRUE)]
            ts = [self.iter_norm(v.t if v.kind == "iterview" and v.t is not None else self.snap(s, v)) for v in vs]
            z = mk("zip", *ts)
            return [("sym", z, lambda n: Val("e", mk("elem", z, n)))]
        return Val("iterview", t=mk("zip", *[self.iter_norm(v.t if v.kind == "iterview" and v.t is not None else self.snap(st, v)) for v in vs]), x=plan)

    def b_map(self, args, kw, st, node):
        f, its = args[0], args[1:]
        it = its[0] if len(its) == 1 else self.b_zip(its, [], st, node)
        acc = self.mkseq(st, "list", [], node)

        def body(s2, elem):
            a = [elem] if len(its) == 1 else [self.index(elem, self.cv(i), s2, node) for i in range(len(its))]
            v = self.call(f, a, [], s2, node)
            c = s2.heap[acc.cell]
            s2.heap[acc.cell] = Seq(c.kind, c.segs + (("i", v),))
            return s2, []
        fall, _ = self.run_iter(it, st, body, node)
        if fall is None:
            raise PathEnd()
        st.become(fall)
        return acc

    def b_filter(self, args, kw, st, node):
        f, it = args
        acc = self.mkseq(st, "list", [], node)

        def body(s2, elem):
            v = elem if self.is_none(f) else self.call(f, [elem], [], s2, node)
            c = self.cond(v, s2)
            if c is FALSE:
                return s2, []
            a = s2.fork()
            if c is not TRUE:
                a.assume(c, True)
            cc = a.heap[acc.cell]
            a.heap[acc.cell] = Seq(cc.kind, cc.segs + (("i", elem),))
            return (a if c is TRUE else self.merge(c, a, s2, s2.guards)), []
        fall, _ = self.run_iter(it, st, body, node)
        st.become(fall)
        return acc

    def b_sorted(self, args, kw, st, node):
        t = self.snap(st, args[0]) if args[0].kind != "iterview" else (args[0].t or mk("opaque", "it"))
        t = strip_conv(t)
        if t.op == "setof":
            t = t
        kk = []
        for n, v in kw:
            r = self.ho(v, st, node, mk("elem", t, 0)) if isinstance(v, Val) else None
            kk.append((n, mk("lam", mk("elem", t, 0), r) if r is not None else self.snap(st, v)))
        res = mk("call", "sorted", (t,), tuple(sorted(kk)))
        self.log_ext(st, node, "sorted", None, None, (t,), tuple(kk), args, kw, res)
        return self.mkseq_segs(st, "list", [("ext", res)], node)

    def red_builtin(self, name, args, kw, st, node):
        if len(args) == 1 and isinstance(args[0], Val):
            v = args[0]
            if v.kind == "iterview":
                v = self.mkseq_segs(st, "list", self.segs_of(v, st), node)
            if v.kind == "seq" and name in ("any", "all"):
                c = self.cont(st, v)
                if all(s[0] == "i" for s in c.segs):
                    ts = [self.truth(s[1], st) for s in c.segs]
                    return Val("e", mk_or(*ts) if name == "any" else mk_and(*ts))
            if v.kind == "seq" and name == "sum":
                c = self.cont(st, v)
                if c.segs and all(s[0] == "i" for s in c.segs) and not kw:
                    acc = self.snap(st, c.segs[0][1])
                    for s in c.segs[1:]:
                        acc = mk_bin("+", acc, self.snap(st, s[1]))
                    return self.ext(st, acc)
            t = self.snap(st, v)
            kk = []
            for n, x in kw:
                r = self.ho(x, st, node, mk("elem", t, 0)) if isinstance(x, Val) else None
                kk.append((n, mk("lam", mk("elem", t, 0), r) if r is not None else self.snap(st, x)))
            r = mk_red(name, t, tuple(sorted(kk)))
            return Val("e", r) if name in ("any", "all") else self.ext(st, r)
        return None

    def b_sum(self, args, kw, st, node):
        return self.red_builtin("sum", args, kw, st, node)

    def b_min(self, args, kw, st, node):
        return self.red_builtin("min", args, kw, st, node)

    def b_max(self, args, kw, st, node):
        return self.red_builtin("max", args, kw, st, node)

    def b_any(self, args, kw, st, node):
        return self.red_builtin("any", args, kw, st, node)

    def b_all(self, args, kw, st, node):
        return self.red_builtin("all", args, kw, st, node)

    def b_abs(self, args, kw, st, node):
        return self.ext(st, mk("abs", self.snap(st, args[0])))

    def b_bool(self, args, kw, st, node):
        return Val("e", self.cond(args[0], st)) if args else self.cv(False)

    def b_isinstance(self, args, kw, st, node):
        v, c = args[0], args[1]
        return Val("e", self.isinst(v, c, st))

    def isinst(self, v, c, st):
        if v.kind == "phi":
            return mk_phi(v.x[0], self.isinst(v.x[1], c, st), self.isinst(v.x[2], c, st))
        if c.kind == "seq":
            return mk_or(*[self.isinst(v, s[1], st) for s in self.cont(st, c).segs])
        if c.kind == "cls":
            if v.kind == "obj":
                return const(st.heap[v.cell].cls.is_sub(c.x))
            if v.kind == "e":
                if v.t.op == "const":
                    return FALSE
                return mk("isinstance", self.snap(st, v), c.x.name)
            return FALSE
        ct = self.snap(st, c)
        if v.kind == "obj":
            return const(show(ct) in [str(b) for b in st.heap[v.cell].cls.ext_bases()])
        if v.kind == "seq":
            k = self.cont(st, v).kind
            return const(show(ct) == k)
        if v.kind == "dict":
            return const(show(ct) == "dict")
        t = self.snap(st, v)
        if t.op == "const" and ct.op == "ext" and ct.a[0] in ("str", "int", "float", "bool"):
            return const(type(cval(t)).__name__ == ct.a[0] or (ct.a[0] == "int" and isinstance(cval(t), bool)))
        ty = self.ty(t)
        if ct.op == "ext":
            known = {"frame": "pandas.DataFrame", "series": "pandas.Series", "list": "list", "dict": "dict"}
            if ty in known and ct.a[0] in known.values():
                return const(known[ty] == ct.a[0])
        return mk("isinstance", t, show(ct))

    def b_hasattr(self, args, kw, st, node):
        v, n = args[0], self.snap(st, args[1])
        return Val("e", self.hasattr_t(v, n, st))

    def hasattr_t(self, v, n, st):
        if v.kind == "phi":
            return mk_phi(v.x[0], self.hasattr_t(v.x[1], n, st), self.hasattr_t(v.x[2], n, st))
        if v.kind == "obj" and is_const(n):
            o = st.heap[v.cell]
            if o.sym is None:
                if cval(n) in o.fields:
                    f = o.fields[cval(n)]
                    return TRUE
                return const(o.cls.lookup(cval(n))[0] is not None)
            return mk("hasattr", o.sym, n)
        if v.kind in ("seq", "dict"):
            return const(is_const(n) and cval(n) in ("append", "copy", "pop", "__len__", "__iter__"))
        return mk("hasattr", self.snap(st, v), n)

    def b_getattr(self, args, kw, st, node):
        n = self.snap(st, args[1])
        if not is_const(n):
            return None
        if len(args) > 2:
            c = assume(self.hasattr_t(args[0], n, st), st.facts)
            if c is TRUE:
                return self.getattr(args[0], cval(n), st, node)
            if c is FALSE:
                return args[2]
            return self.branch(st, c, lambda s: self.getattr(args[0], cval(n), s, node), lambda s: args[2])
        return self.getattr(args[0], cval(n), st, node)

    def b_vars(self, args, kw, st, node):
        return self.getattr(args[0], "__dict__", st, node) if len(args) == 1 else None

    def b_setattr(self, args, kw, st, node):
        n = self.snap(st, args[1])
        if is_const(n) and isinstance(cval(n), str):
            self.setattr(args[0], cval(n), args[2], st, node)
        else:
            self.eff(st, "mutate", node, target=args[0], how="setattr?", key=n, value=None, val=args[2], keyval=args[1], old=None, path=None, cond=TRUE,
                     labels=self.labels_of(args[0]))
            self.note_opaque("setattr with symbolic name")
        return self.cv(None)

    def b_type(self, args, kw, st, node):
        if len(args) == 1 and args[0].kind == "obj":
            return Val("cls", x=st.heap[args[0].cell].cls)
        return None

    def b_str(self, args, kw, st, node):
        if len(args) == 1:
            t = self.snap(st, args[0])
            if is_const(t) and isinstance(cval(t), str):
                return args[0]
            if is_const(t) and isinstance(cval(t), (int,)):
                return self.cv(str(cval(t)))
        return None

    def b_iter(self, args, kw, st, node):
        return args[0] if len(args) == 1 and args[0].kind in ("seq", "iterview", "dict") else None

    def b_print(self, args, kw, st, node):
        return self.cv(None)

    def b_copy_deepcopy(self, args, kw, st, node):
        return self.deep(args[0], st, node, {})

    def deep(self, v, st, node, memo):
        if v.kind in ("obj", "seq", "dict") and v.cell in memo:
            return memo[v.cell]
        if v.kind == "obj":
            o = st.heap[v.cell]
            c = self.new_cell(st, node)
            n = Val("obj", cell=c)
            memo[v.cell] = n
            st.heap[c] = Obj(o.cls, {}, o.sym, mk("new", o.cls.name, self.nuid()))
            f = {k: self.deep(x, st, node, memo) for k, x in o.fields.items()}
            st.heap[c] = Obj(o.cls, f, o.sym, st.heap[c].name)
            return n
        if v.kind == "seq":
            cc = self.cont(st, v)
            n = self.mkseq_segs(st, cc.kind, [("i", self.deep(s[1], st, node, memo)) if s[0] == "i" else s for s in cc.segs], node)
            memo[v.cell] = n
            return n
        if v.kind == "dict":
            cc = self.cont(st, v)
            n = self.mkdict(st, [("i", s[1], self.deep(s[2], st, node, memo)) if s[0] == "i" else s for s in cc.ents], cc.sym, cc.default, node)
            memo[v.cell] = n
            return n
        if v.kind == "phi":
            return Val("phi", x=(v.x[0], self.deep(v.x[1], st, node, memo), self.deep(v.x[2], st, node, memo)))
        if v.kind == "e":
            t = self.content(st, v)
            if t.op == "const":
                return v
            return self.ext(st, mk_copy(t), node=node)
        return v

    def b_copy_copy(self, args, kw, st, node):
        v = args[0]
        if v.kind == "obj":
            o = st.heap[v.cell]
            c = self.new_cell(st, node)
            st.heap[c] = Obj(o.cls, dict(o.fields), o.sym, mk("new", o.cls.name, self.nuid()))
            return Val("obj", cell=c)
        if v.kind == "seq":
            return self.mkseq_segs(st, self.cont(st, v).kind, self.cont(st, v).segs, node)
        if v.kind == "dict":
            return self.mkdict(st, self.cont(st, v).ents, self.cont(st, v).sym, self.cont(st, v).default, node)
        if v.kind == "e":
            t = self.content(st, v)
            if self.ty(t) == "frame":
                return self.ext(st, mk_copy(t), node=node)
            return self.ext(st, mk_copy(t), views=(v,) if self.ty(t) == "dict" else (), node=node)
        return v

    def b_functools_partial(self, args, kw, st, node):
        return Val("partial", x=(args[0], tuple(args[1:]), tuple(kw)))

    def b_functools_reduce(self, args, kw, st, node):
        f, it = args[0], args[1]
        p = self.plan(it, st, node)
        if self.flat_items(p):
            items = [self.mat(st, x[1]) for x in p]
            acc = args[2] if len(args) > 2 else items.pop(0)
            for i in items:
                acc = self.call(f, [acc, i], [], st, node)
            return acc
        return None

    def b_itertools_combinations(self, args, kw, st, node):
        v = self.pos_or_kw(args, kw, 0, "iterable")
        r = self.pos_or_kw(args, kw, 1, "r")
        if v.kind == "seq" and self.cont(st, v).kind == "set" or (v.kind == "e" and self.is_setish(self.snap(st, v))):
            self.eff(st, "setiter", node, what="convert")
        t = self.iter_norm(v.t if v.kind == "iterview" and v.t is not None else self.snap(st, v))
        res = mk("combinations", t, self.snap(st, r))
        self.log_ext(st, node, "itertools.combinations", None, None, (t, self.snap(st, r)), (), args, kw, res)
        return Val("e", res)

    def b_itertools_product(self, args, kw, st, node):
        if kw or len(args) != 2 or any(isinstance(a, tuple) for a in args):
            return None
        a, b = args

        def plan(s):
            pa = self.plan(a, s, node)
            acc = []
            for x in pa:
                if x[0] == "sym":
                    ia = x[1]
                    pb = self.plan(b, s, node)
                    inner = []
                    for y in pb:
                        if y[0] == "sym":
                            n = 1 if y[1] is ia else 0
                            inner.append(("nestsym", y[1], n, y[2]))
                        else:
                            return None
                    acc.append((ia, x[2], inner))
                else:
                    return None
            out = []
            for ia, fa, inner in acc:
                ib, n, fb = inner[0][1], inner[0][2], inner[0][3]
                out.append(("nest", ia, [("nest2", ib, ("tup", [fa(0), fb(n)]))], TRUE))
            return out
        segs = []
        pa, pb = self.plan(a, st, node), self.plan(b, st, node)
        if self.flat_items(pa) and self.flat_items(pb):
            return self.mkseq(st, "list", [self.mkseq(st, "tuple", [self.mat(st, x[1]), self.mat(st, y[1])]) for x in pa for y in pb], node)
        if len(pa) == 1 and len(pb) == 1 and pa[0][0] == "sym" and pb[0][0] == "sym":
            ia, ib = pa[0][1], pb[0][1]
            n = 1 if ia is ib else 0
            tup = self.mkseq(st, "tuple", [self.mat(st, pa[0][2](0)), self.mat(st, pb[0][2](n))])
            return self.mkseq_segs(st, "list", [("map", ia, (("map", ib, (("i", tup),), TRUE),), TRUE)], node)
        return None

    def b_itertools_chain(self, args, kw, st, node):
        segs = []
        for a in args:
            if isinstance(a, tuple):
                return None
            segs += self.segs_of(a, st)
        return self.mkseq_segs(st, "list", segs, node)

    def b_collections_defaultdict(self, args, kw, st, node):
        return self.mkdict(st, (), None, args[0] if args else None, node)

    def b_collections_OrderedDict(self, args, kw, st, node):
        return self.b_dict(args, kw, st, node)

    def b_dataclasses_fields(self, args, kw, st, node):
        v = args[0]
        ci = v.x if v.kind == "cls" else (st.heap[v.cell].cls if v.kind == "obj" else None)
        if ci is None:
            return None
        items = []
        for n, dv, fac in ci.all_dfields():
            c = self.new_cell(st, node)
            st.heap[c] = Obj(self.field_class(), {"name": self.cv(n), "default": dv if dv is not None else Val("e", mk("opaque", "MISSING"))}, None, mk("new", "Field", self.nuid()))
            items.append(Val("obj", cell=c))
        return self.mkseq(st, "tuple", items, node)

    def field_class(self):
        from .loader import ClassInfo
        if not hasattr(self, "_fc"):
            self._fc = ClassInfo("Field", "dataclasses.Field", None, None)
        return self._fc

    def b_dataclasses_replace(self, args, kw, st, node):
        v = args[0]
        if v.kind != "obj":
            return None
        o = st.heap[v.cell]
        c = self.new_cell(st, node)
        f = dict(o.fields)
        for n, x in kw:
            if n:
                f[n] = x
        st.heap[c] = Obj(o.cls, f, o.sym, mk("new", o.cls.name, self.nuid()))
        return Val("obj", cell=c)

    def b_dataclasses_asdict(self, args, kw, st, node):
        v = args[0]
        if v.kind != "obj":
            return None
        o = st.heap[v.cell]
        return self.mkdict(st, [("i", const(n), o.fields[n]) for n, _, _ in o.cls.all_dfields() if n in o.fields], None, None, node)

    def b_tqdm(self, args, kw, st, node):
        at, kt = self.arg_terms(args, kw, st)
        self.log_ext(st, node, "tqdm.tqdm", None, None, at, kt, args, kw, mk("progress"))
        v = self.pos_or_kw(args, kw, 0, "iterable")
        return v if v is not None else self.ext(st, mk("progress"))

    def b_numpy_random_default_rng(self, args, kw, st, node):
        s = self.pos_or_kw(args, kw, 0, "seed")
        if s is not None and s.kind == "e" and self.is_rng(self.snap(st, s)):
            return s        # a Generator is passed through unchanged
        return None


SPECIAL = {"len", "list", "tuple", "set", "frozenset", "dict", "range", "enumerate", "zip", "map", "filter", "sorted", "sum", "min", "max", "any",
           "all", "abs", "bool", "isinstance", "hasattr", "getattr", "setattr", "vars", "type", "str", "iter", "print", "copy.deepcopy", "copy.copy",
           "functools.partial", "functools.reduce", "itertools.combinations", "itertools.product", "itertools.chain",
           "collections.defaultdict", "collections.OrderedDict", "dataclasses.fields", "dataclasses.replace", "dataclasses.asdict",
           "numpy.random.default_rng"}
for _t in TQDM:
    SPECIAL.add(_t)
    setattr(Interp, "b_" + _t.replace(".", "_"), Interp.b_tqdm)


def arr_cmp(t):
    """comparison of arrays / columns: yields an array, not a truth value"""
    if t.op == "cmp":
        return arrayish(t.a[1]) or arrayish(t.a[2])
    if t.op in ("and", "or", "not"):
        return any(arr_cmp(x) for x in t.a)
    return False
