"""Entry points: symbolic drivers for every public operation of the package.

A scenario builds receiver objects by interpreting their constructors, passes symbolic arguments (labelled as owned by
the caller) and interprets the operation.  A Run keeps the resulting state, the effects of the operation and the loop
records.  Nothing is executed.
"""
import time

from .engine import PathEnd, State, Val, Obj, Dct, Seq
from .interp import Interp
from .loader import AnalysisBroken
from .terms import mk, const, NONE, add_fact, T

PUBLIC = {
    "friedman": ("artemis.interactions_methods.model_agnostic", "FriedmanHStatisticMethod"),
    "greenwell": ("artemis.interactions_methods.model_agnostic", "GreenwellMethod"),
    "sejong": ("artemis.interactions_methods.model_agnostic", "SejongOhMethod"),
    "split": ("artemis.interactions_methods.model_specific", "SplitScoreMethod"),
    "cmd": ("artemis.interactions_methods.model_specific", "ConditionalMinimalDepthMethod"),
    "imp_pdp": ("artemis.importance_methods.model_agnostic", "PartialDependenceBasedImportance"),
    "imp_perm": ("artemis.importance_methods.model_agnostic", "PermutationImportance"),
    "imp_split": ("artemis.importance_methods.model_specific", "SplitScoreImportance"),
    "imp_depth": ("artemis.importance_methods.model_specific", "MinimalDepthImportance"),
    "additivity": ("artemis.additivity", "AdditivityMeter"),
    "comparator": ("artemis.comparison", "FeatureInteractionMethodComparator"),
    "pdvis": ("artemis.visualizer", "PartialDependenceVisualizer"),
    "calc": ("artemis._utilities.pd_calculator", "PartialDependenceCalculator"),
    "handler": ("artemis._utilities._handler", "GBTreesHandler"),
}
INTER = ("friedman", "greenwell", "sejong", "split", "cmd")
RUN_BUDGET = 45
PDB = ("friedman", "greenwell")


class Run:
    def __init__(self, name):
        self.name = name
        self.marks = {}
        self.vals = {}
        self.opaque = {}

    def effects(self, kind=None, since=None, until=None):
        a = self.marks.get(since, 0) if since else self.op
        b = self.marks.get(until) if until else None
        for e in self.log[a:b]:
            if kind is None or e.kind == kind:
                yield e


class S:
    """one scenario run"""

    def __init__(self, eng, run, base=None):
        self.e, self.run = eng, run
        self.st = (base.s.st if base is not None else eng.base).fork()
        self.base = base
        self.ended = False
        self.pref = ""           # prefix of the names of all arguments (earlier calls use "old.")

    # -- arguments
    def p(self, name, ty, label=True, sub=None):
        t = mk("param", self.pref + name, ty)
        v = self.e.ext(self.st, t)
        if label:
            self.e.labels[v.cell] = "param:" + (label if isinstance(label, str) else name)
        return v

    def num(self, name):
        return Val("e", mk("param", self.pref + name, "num"))

    def strp(self, name):
        return Val("e", mk("param", self.pref + name, "str"))

    def boolp(self, name):
        return Val("e", mk("param", self.pref + name, "bool"))

    def c(self, v):
        return self.e.cv(v)

    def none(self):
        return self.e.cv(None)

    def kwargs(self, name="kwargs"):
        c = self.e.new_cell(self.st)
        self.st.heap[c] = Dct((), mk("kwargs", name))
        return Val("dict", cell=c)

    def label_reachable(self, v, label, skip=()):
        """everything reachable from v now belongs to `label`"""
        return self.e.label_reachable(self.st, v, label, skip)

    # -- operations
    def cls(self, key):
        return public_class(self.e, key)

    def new(self, key, *args, **kw):
        return self.e.call(Val("cls", x=self.cls(key)), list(args), list(kw.items()), self.st, None)

    def call(self, obj, name, args=(), kw=None, star=None):
        """call a method; returns the value, or None when every path raises"""
        kwl = list((kw or {}).items())
        if star is not None:
            kwl.append((None, star))
        try:
            return self.e.call_method(obj, name, list(args), kwl, self.st, None)
        except PathEnd:
            self.ended = True
            return None

    def func(self, module, name, args, kw=None):
        m = self.e.modules.get(module)
        if m is None or name not in self.e.base.heap[m.env]:
            raise AnalysisBroken("%s.%s is gone" % (module, name))
        try:
            return self.e.call(self.e.base.heap[m.env][name], list(args), list((kw or {}).items()), self.st, None)
        except PathEnd:
            self.ended = True
            return None

    def mark(self, name="op"):
        self.run.marks[name] = len(self.e.log) - self.run.log0

    def fields(self, obj):
        return self.st.heap[obj.cell].fields

    def setfield(self, obj, name, v):
        o = self.st.heap[obj.cell]
        f = dict(o.fields)
        f[name] = v
        self.st.heap[obj.cell] = Obj(o.cls, f, o.sym, o.name)

    def field(self, obj, name):
        return self.st.heap[obj.cell].fields.get(name)

    def snap(self, v):
        return self.e.snap(self.st, v)

    def fieldt(self, obj, name):
        v = self.field(obj, name)
        return None if v is None else self.snap(v)

    def fact(self, t, v=True):
        self.st.facts = add_fact(self.st.facts, t, v)


def public_class(eng, key):
    modn, name = PUBLIC[key]
    m = eng.modules.get(modn)
    v = eng.base.heap.get(m.env, {}).get(name) if m is not None else None
    if v is None or v.kind != "cls":
        raise AnalysisBroken("public class %s.%s is gone" % (modn, name))
    return v.x


def execute(eng, name, scenario, base=None):
    """run a scenario, twice if objects created in loops are written later (their reads then become locations)"""
    eng.dirty_sites = set(base.dirty) if base is not None else set()
    eng.steps = 0
    eng.run_deadline = time.time() + max(RUN_BUDGET / 2 ** len(eng.partial), 8)
    for attempt in range(3):
        eng.dirty_new = set()
        run = Run(name)
        run.eng = eng
        run.log0 = len(eng.log)
        l0 = len(eng.loop_recs)
        t0 = len(eng.tests)
        op0 = dict(eng.opaque)
        s = S(eng, run, base)
        run.s = s
        try:
            scenario(s)
        except BaseException:
            eng.partial.append((name, eng.log[run.log0:]))
            raise
        if not (eng.dirty_new - eng.dirty_sites):
            break
        eng.dirty_sites = eng.dirty_sites | eng.dirty_new
        if attempt < 2:
            del eng.log[run.log0:]
            del eng.loop_recs[l0:]
            del eng.tests[t0:]
    run.log = eng.log[run.log0:]
    run.loops = eng.loop_recs[l0:]
    run.tests = eng.tests[t0:]
    run.op = run.marks.get("op", 0)
    run.opaque = {k: v for k, v in eng.opaque.items() if v != op0.get(k, 0)}
    run.dirty = set(eng.dirty_sites)
    eng.dirty_sites = set()
    return run


# ------------------------------------------------------------------ argument sets
def calc_obj(s, labelled=True, X=None, model=None, pf="none"):
    """a calculator the caller built earlier (its own model / data / predict function)"""
    m = model or s.p("calc_model", "model", label="calc.model")
    x = X or s.p("calc_X", "frame", label="calc.X")
    f = s.none() if pf == "none" else s.p("calc_predict", "func")
    c = s.new("calc", m, x, f, s.num("calc_batchsize"))
    if labelled:
        s.label_reachable(c, "param:pd_calculator")
    return c


def fit_args(s, key, n="none", features="none", pf="none", calc="none", extra=None):
    """keyword arguments of fit / importance for class key"""
    kw = {}
    d = lambda flag, v: s.none() if flag == "none" else v()
    if key in ("friedman", "greenwell", "additivity", "imp_pdp"):
        kw["model"] = s.p("model", "model")
        kw["X"] = s.p("X", "frame")
        kw["n"] = d(n, lambda: s.num("n"))
        kw["predict_function"] = d(pf, lambda: s.p("predict_function", "func"))
        if key != "additivity":
            kw["features"] = d(features, lambda: s.p("features", "list"))
        kw["show_progress"] = s.boolp("show_progress")
        kw["batchsize"] = s.num("batchsize")
        kw["pd_calculator"] = s.none() if calc == "none" else calc_obj(s)
        if key == "friedman":
            kw["calculate_ova"] = s.boolp("calculate_ova")
    elif key == "sejong":
        kw["model"] = s.p("model", "model")
        kw["X"] = s.p("X", "frame")
        kw["y_true"] = s.p("y_true", "any")
        kw["n"] = d(n, lambda: s.num("n"))
        kw["n_repeat"] = s.num("n_repeat")
        kw["features"] = d(features, lambda: s.p("features", "list"))
        kw["show_progress"] = s.boolp("show_progress")
    elif key == "imp_perm":
        kw["model"] = s.p("model", "model")
        kw["X"] = s.p("X", "frame")
        kw["y_true"] = s.p("y_true", "any")
        kw["n_repeat"] = s.num("n_repeat")
        kw["features"] = d(features, lambda: s.p("features", "list"))
        kw["show_progress"] = s.boolp("show_progress")
    elif key == "cmd":
        kw["model"] = s.p("model", "model")
        kw["show_progress"] = s.boolp("show_progress")
    elif key == "split":
        kw["show_progress"] = s.boolp("show_progress")
        kw["interaction_selected_metric"] = s.strp("interaction_metric")
        kw["importance_selected_metric"] = s.strp("importance_metric")
        kw["only_def_interactions"] = s.boolp("only_def")
    elif key == "imp_split":
        kw["features"] = d(features, lambda: s.p("features", "list"))
        kw["selected_metric"] = s.strp("importance_metric")
        kw["show_progress"] = s.boolp("show_progress")
    elif key == "imp_depth":
        kw["model"] = s.p("model", "model")
        kw["tree_id_to_depth_split"] = s.p("tree_splits", "dict")
    if extra:
        kw.update(extra)
    return kw


def handler_obj(s, package=None):
    """a unified handler the caller built earlier"""
    h = s.e.call(Val("cls", x=s.cls("handler")), [], [], s.st, None)
    s.setfield(h, "package", s.c(package) if package else s.strp("package"))
    s.setfield(h, "trees_df", s.p("trees_df", "frame"))
    s.label_reachable(h, "param:model")
    return h


def new_method(s, key, metric=None):
    ci = s.cls(key)
    init, _ = ci.lookup("__init__")
    names = init.x.pos[1:] if init is not None else []
    kw = {}
    if "random_state" in names:
        kw["random_state"] = Val("e", mk("param", "random_state", "num"))
    if "normalized" in names:
        kw["normalized"] = s.boolp("normalized")
    if metric is not None and "metric" in names:
        kw["metric"] = metric
    return s.new(key, **kw)


OPNAME = {"friedman": "fit", "greenwell": "fit", "sejong": "fit", "split": "fit", "cmd": "fit", "additivity": "fit",
          "imp_pdp": "importance", "imp_perm": "importance", "imp_split": "importance", "imp_depth": "importance"}


def run_fit(s, key, obj=None, pkg=None, handler=True, metric=None, **opt):
    obj = obj or new_method(s, key, metric)
    kw = fit_args(s, key, **opt)
    if key in ("split", "imp_split"):
        kw["model"] = handler_obj(s, pkg) if handler or key == "imp_split" else s.p("model", "model")
    s.kw = kw
    s.mark("fit")
    s.mark("op")
    s.ret = s.call(obj, OPNAME[key], (), kw)
    return obj


def simple_type(eng, t):
    ty = eng.ty(t) if t is not None else None
    return ty or "any"


def fitted(s, key, tag="self", ova="frame", pkg=None, **opt):
    """a fitted method: fit is interpreted, then its result fields are replaced by opaque tables named <tag>.<field>"""
    obj = run_fit(s, key, pkg=pkg, **opt)
    if s.ended:
        raise AnalysisBroken("fit of %s never succeeds" % key)
    return abstract(s, obj, tag, ova)


def abstract(s, obj, tag, ova="frame"):
    e = s.e
    pref, s.pref = s.pref, ""
    abstracted = []
    for n, v in sorted(s.fields(obj).items()):
        if n in ("method", "visualizer", "_random_generator", "metric", "normalized", "predict_function", "model"):
            continue
        t = s.snap(v)
        if t is NONE:
            continue
        if v.kind == "obj":
            continue
        if n == "ova" and ova == "none":
            s.setfield(obj, n, s.none())
            continue
        ty = simple_type(e, t)
        if ty in ("any", None) and n in ("ovo", "ova", "feature_importance", "full_result", "full_ovo", "raw_result_df"):
            ty = "frame"
        nv = s.p("%s.%s" % (tag, n), ty, label="%s.%s" % (tag, n))
        s.e.labels[nv.cell] = "fitted:%s.%s" % (tag, n)
        s.setfield(obj, n, nv)
        abstracted.append(n)
    s.pref = pref
    s.label_reachable(obj, "fitted:" + tag)
    s.abstracted = abstracted
    s.st.guards, s.st.facts = (), {}        # what follows is a new call with arguments of its own
    s.mark("op")
    return obj


VIS = ("heatmap", "graph", "bar_chart", "bar_chart_ova", "summary", "lollipop", "bar_chart_conditional")


def fitted_base(eng, keys=INTER, tags=("self",), **opt):
    """state with one fitted method per class (and tag), interpreted once and shared by all drivers that start from it"""
    k = ("fitted", tuple(keys), tuple(tags), tuple(sorted(opt.items())))
    if k in eng.cache:
        return eng.cache[k]
    if len(keys) * len(tags) == 1:
        def sc(s):
            s.objs = {(keys[0], tags[0]): fitted(s, keys[0], tags[0], **opt)}
        eng.cache[k] = execute(eng, "fit " + keys[0], sc)
        return eng.cache[k]
    # cells are globally unique: the states of separate fits can be united
    parts = [(key, tag, fitted_base(eng, (key,), (tag,), **opt)) for key in keys for tag in tags]
    run = Run("fit " + " ".join(keys))
    run.eng, run.log, run.loops, run.op, run.log0 = eng, [], [], 0, len(eng.log)
    run.dirty = set()
    run.tests = []
    s = run.s = S(eng, run)
    s.objs = {}
    for key, tag, r in parts:
        for c, v in r.s.st.heap.items():
            if c not in s.st.heap:
                s.st.heap[c] = v
        run.dirty |= r.dirty
        s.objs.update(r.s.objs)
    eng.cache[k] = run
    return run
