"""Scenario suites shared by the checks: every public operation with symbolic arguments."""
from . import harness as H
from .harness import (INTER, PDB, VIS, execute, fit_args, fitted_base, handler_obj, new_method, run_fit, OPNAME)
from .engine import Val
from .terms import mk, const, NONE


class Item:
    """one analysed operation"""

    def __init__(self, name, run, **meta):
        self.name, self.run, self.__dict__["meta"] = name, run, meta

    def __getattr__(self, k):
        try:
            return self.__dict__["meta"][k]
        except KeyError:
            raise AttributeError(k)


def cached(chk, name, f):
    r = chk.sh.runs.get(name)
    if r is None:
        r = chk.sh.runs[name] = chk.guard("analysis", name, f) or "failed"
    if r == "failed":
        return None
    chk.seen(r.run)
    return r


PD_OPTS = [{}, {"n": "1", "features": "1", "pf": "1"}, {"calc": "1"}, {"calc": "1", "n": "1", "features": "1", "pf": "1"}]
PD_MORE = [{"n": "1"}, {"features": "1"}, {"pf": "1"}, {"calc": "1", "features": "1"}, {"calc": "1", "n": "1"}, {"calc": "1", "pf": "1"}]
ROW_OPTS = [{}, {"n": "1", "features": "1"}]
ROW_MORE = [{"n": "1"}, {"features": "1"}]


def opt_name(o):
    return ",".join("%s" % k if v == "1" else "%s=%s" % (k, v) for k, v in sorted(o.items())) or "defaults"


def fit_item(chk, key, opts=None, **more):
    """fit/importance of class key.  more: pkg, handler, metric (name of a metric class or 'sym')"""
    opts = dict(opts or {})
    nm = "%s.%s(%s%s)" % (key, OPNAME[key], opt_name(opts), "".join(";%s=%s" % kv for kv in sorted(more.items())))

    def go():
        def sc(s):
            metric = None
            if more.get("metric") == "sym":
                metric = s.p("metric", "any")
            elif more.get("metric"):
                m = s.e.modules["artemis._utilities.performance_metrics"]
                metric = s.e.call(s.e.base.heap[m.env][more["metric"]], [], [], s.st, None)
            s.m = new_method(s, key, metric)
            s.mark("op")
            run_fit(s, key, s.m, pkg=more.get("pkg"), handler=more.get("handler", True), **opts)
        return Item(nm, execute(chk.eng, nm, sc), key=key, opts=opts, more=more, kind="fit")
    return cached(chk, nm, go)


def fit_suite(chk, keys=None, light=False):
    out = []

    def add(key, opts=None, **more):
        if keys is None or key in keys:
            i = fit_item(chk, key, opts, **more)
            if i is not None:
                out.append(i)
    th = chk.thorough
    for key in ("friedman", "greenwell", "additivity", "imp_pdp"):
        os_ = PD_OPTS if not light else PD_OPTS[1:2]
        for o in os_ + (PD_MORE if th else []):
            add(key, {k: v for k, v in o.items() if not (key == "additivity" and k == "features")})
    for o in ROW_OPTS + (ROW_MORE if th else []):
        add("sejong", o)
    add("sejong", {}, metric="Accuracy")
    for o in ({}, {"features": "1"}):
        add("imp_perm", o)
        add("imp_split", o)
    add("imp_perm", {}, metric="Accuracy")
    add("imp_perm", {}, metric="MSE")
    for p in ("xgboost", "lightgbm"):
        add("split", {}, pkg=p)
        add("imp_split", {}, pkg=p)
    add("split", {})
    add("split", {}, handler=False)
    add("cmd")
    add("imp_depth")
    return out


def plot_item(chk, key, vt, title=True, ova="frame", kw=True):
    nm = "%s.plot(%s%s%s)" % (key, vt, "" if ova == "frame" else ";no ova", ("" if title else ";default title") + ("" if kw else ";no options"))

    def go():
        b = fitted_base(chk.eng, (key,), **({} if ova == "frame" else {"ova": ova}))

        def sc(s):
            s.m = b.s.objs[key, "self"]
            s.mark("op")
            a = {"vis_type": s.c(vt) if isinstance(vt, str) and vt != "?" else s.strp("vis_type")}
            if title:
                a["title"] = s.strp("title")
            a["figsize"] = s.p("figsize", "tuple")
            s.ret = s.call(s.m, "plot", (), a, star=s.kwargs() if kw else None)
        return Item(nm, execute(chk.eng, nm, sc, b), key=key, vt=vt, kind="plot")
    return cached(chk, nm, go)


def plot_suite(chk, keys=INTER, types=VIS):
    out = []
    for k in keys:
        for v in types:
            i = plot_item(chk, k, v)
            if i is not None:
                out.append(i)
        if k == "friedman":
            for v in types:
                i = plot_item(chk, k, v, ova="none")
                if i is not None:
                    out.append(i)
    return out


def method_item(chk, key, nm, f, **meta):
    def go():
        b = fitted_base(chk.eng, (key,))

        def sc(s):
            s.m = b.s.objs[key, "self"]
            s.mark("op")
            s.ret = f(s)
        return Item(nm, execute(chk.eng, nm, sc, b), key=key, **meta)
    return cached(chk, nm, go)


def profile_suite(chk, keys=PDB):
    out = []
    for k in keys:
        for f2 in (False, True):
            for kind in ("colormesh", "contour"):
                nm = "%s.plot_profile(%s,%s)" % (k, "f1,f2" if f2 else "f1", kind)
                out.append(method_item(chk, k, nm, lambda s, f2=f2, kind=kind: s.call(s.m, "plot_profile", (), dict(
                    feature1=s.strp("f1"), feature2=s.strp("f2") if f2 else s.none(), kind=s.c(kind), figsize=s.p("figsize", "tuple"))),
                    kind="profile", f2=f2, style=kind))
        for kind in ("colormesh", "contour"):
            nm = "%s.plot_zenplot(%s)" % (k, kind)
            out.append(method_item(chk, k, nm, lambda s, kind=kind: s.call(s.m, "plot_zenplot", (), dict(
                zenpath_length=s.num("zenpath_length"), kind=s.c(kind), figsize=s.p("figsize", "tuple"))), kind="zen", style=kind))
    return [x for x in out if x is not None]


def value_suite(chk):
    out = []
    for k in INTER:
        nm = "%s.interaction_value" % k
        out.append(method_item(chk, k, nm, lambda s: s.call(s.m, "interaction_value", (s.strp("f1"), s.strp("f2"))), kind="value"))
    for k in PDB:
        for fn, a in (("get_pd_single", 1), ("get_pd_pairs", 2), ("get_pd_minus_single", 1)):
            def f(s, fn=fn, a=a):
                c = s.field(s.m, "pd_calculator")
                return s.call(c, fn, [s.strp("f%d" % (i + 1)) for i in range(a)])
            out.append(method_item(chk, k, "%s.pd_calculator.%s" % (k, fn), f, kind="getter"))
    return [x for x in out if x is not None]


def cmp_item(chk, k1, k2, op="summary"):
    nm = "comparator.%s(%s,%s)" % (op, k1, k2)

    def go():
        if k1 == k2:
            b = fitted_base(chk.eng, (k1,), ("m1", "m2"))
        else:
            b = fitted_base(chk.eng, (k1, k2), ("m1", "m2"))

        def sc(s):
            s.m1, s.m2 = b.s.objs[k1, "m1"], b.s.objs[k2, "m2"]
            s.cmp = s.new("comparator")
            s.mark("op")
            if op == "summary":
                s.ret = s.call(s.cmp, "summary", (s.m1, s.m2))
            elif op == "correlations":
                s.ret = s.call(s.cmp, "correlations", (s.m1, s.m2))
            elif op == "correlation":
                s.ret = s.call(s.cmp, "correlation", (s.m1, s.m2, s.strp("correlation_method")))
            else:
                s.ret = s.call(s.cmp, "comparison_plot", (), dict(method1=s.m1, method2=s.m2, n_labels=s.num("n_labels"),
                                                                   add_correlation_box=s.boolp("add_box"), figsize=s.p("figsize", "tuple")))
        return Item(nm, execute(chk.eng, nm, sc, b), k1=k1, k2=k2, op=op, kind="cmp")
    return cached(chk, nm, go)


CMP_QUICK = [("friedman", "greenwell"), ("greenwell", "sejong"), ("sejong", "cmd"), ("split", "friedman"), ("cmd", "split"), ("cmd", "cmd")]


def cmp_suite(chk, ops=("summary", "comparison_plot", "correlations")):
    pairs = CMP_QUICK if not chk.thorough else [(a, b) for a in INTER for b in INTER]
    out = []
    for a, b in pairs:
        for op in ops:
            i = cmp_item(chk, a, b, op)
            if i is not None:
                out.append(i)
    return out


def pdvis_item(chk):
    nm = "PartialDependenceVisualizer.plot"

    def go():
        def sc(s):
            s.m = s.new("pdvis", s.p("model", "model"), s.p("X", "frame"))
            s.mark("op")
            s.ret = s.call(s.m, "plot", (), dict(features=s.p("features", "list"), grid_resolution=s.num("grid_resolution"),
                                                 title=s.strp("title"), figsize=s.p("figsize", "tuple")), star=s.kwargs())
        return Item(nm, execute(chk.eng, nm, sc), kind="pdvis")
    return cached(chk, nm, go)


def handler_item(chk):
    """GBTreesHandler(model): builds the unified table"""
    nm = "GBTreesHandler(model)"

    def go():
        def sc(s):
            s.mark("op")
            s.m = s.e.call(Val("cls", x=s.cls("handler")), [s.p("model", "model")], [], s.st, None)
        return Item(nm, execute(chk.eng, nm, sc), kind="handler")
    return cached(chk, nm, go)


def handler_items(chk):
    i = handler_item(chk)
    return [i] if i is not None else []


def unfitted_items(chk):
    """every reading operation on methods that were only constructed"""
    out = []

    def add(nm, sc, **meta):
        def go():
            return Item(nm, execute(chk.eng, nm, sc), **meta)
        i = cached(chk, nm, go)
        if i is not None:
            out.append(i)
    for k in INTER:
        for vt in VIS + ("?",):
            def sc(s, k=k, vt=vt):
                s.m = new_method(s, k)
                s.mark("op")
                s.ret = s.call(s.m, "plot", (), dict(vis_type=s.strp("vis_type") if vt == "?" else s.c(vt), title=s.strp("title"),
                                                     figsize=s.p("figsize", "tuple")), star=s.kwargs())
            add("unfitted %s.plot(%s)" % (k, vt), sc, key=k, op="plot")

        def sc(s, k=k):
            s.m = new_method(s, k)
            s.mark("op")
            s.ret = s.call(s.m, "interaction_value", (s.strp("f1"), s.strp("f2")))
        add("unfitted %s.interaction_value" % k, sc, key=k, op="value")
    for k in PDB:
        for f2 in (False, True):
            def sc(s, k=k, f2=f2):
                s.m = new_method(s, k)
                s.mark("op")
                s.ret = s.call(s.m, "plot_profile", (), dict(feature1=s.strp("f1"), feature2=s.strp("f2") if f2 else s.none()))
            add("unfitted %s.plot_profile(%s)" % (k, "f1,f2" if f2 else "f1"), sc, key=k, op="profile")

        def sc(s, k=k):
            s.m = new_method(s, k)
            s.mark("op")
            s.ret = s.call(s.m, "plot_zenplot", (), dict(zenpath_length=s.num("zenpath_length")))
        add("unfitted %s.plot_zenplot" % k, sc, key=k, op="zen")
    for k1, k2 in CMP_QUICK:
        for which in (1, 2):
            for op in ("summary", "comparison_plot", "correlations", "correlation"):
                nm = "unfitted comparator.%s(%s%s,%s%s)" % (op, "" if which == 2 else "unfitted ", k1, "" if which == 1 else "unfitted ", k2)

                def go(k1=k1, k2=k2, which=which, op=op, nm=nm):
                    kf = k2 if which == 1 else k1
                    b = fitted_base(chk.eng, (kf,), ("m1",))

                    def sc(s):
                        f = b.s.objs[kf, "m1"]
                        u = new_method(s, k1 if which == 1 else k2)
                        a = (u, f) if which == 1 else (f, u)
                        s.cmp = s.new("comparator")
                        s.mark("op")
                        if op == "correlation":
                            a = a + (s.strp("correlation_method"),)
                        s.ret = s.call(s.cmp, op, a)
                    return Item(nm, execute(chk.eng, nm, sc, b), op=op, key=k1)
                i = cached(chk, nm, go)
                if i is not None:
                    out.append(i)
    return out


def read_suite(chk):
    """all operations that read fitted methods"""
    return plot_suite(chk) + profile_suite(chk) + value_suite(chk) + cmp_suite(chk)


def term(x):
    return x


def where_of(e):
    return e.where()


CALC_OPS = {
    "single": [("calculate_pd_single", {}), ("calculate_pd_single", {"features": ("features", "list")})],
    "pairs": [("calculate_pd_pairs", {}), ("calculate_pd_pairs", {"feature_pairs": ("pairs", "pairs")}),
              ("calculate_pd_pairs", {"feature_pairs": ("pairs", "pairs"), "all_combinations": False}), ("calculate_pd_pairs", {"all_combinations": False})],
    "minus": [("calculate_pd_minus_single", {}), ("calculate_pd_minus_single", {"features": ("features", "list")})],
}


def calc_item(chk, op, kw):
    """one calculation of a partial dependence calculator that was built just before"""
    nm = "PartialDependenceCalculator.%s(%s)" % (op, ", ".join("%s=%s" % (k, v if not isinstance(v, tuple) else "given") for k, v in sorted(kw.items())) or "defaults")

    def go():
        def sc(s):
            s.m = s.new("calc", model=s.p("model", "model"), X=s.p("X", "frame"), predict_function=s.p("predict_function", "func"), batchsize=s.num("batchsize"))
            args = {}
            for k, v in kw.items():
                args[k] = s.c(v) if not isinstance(v, tuple) else s.p(*v)
            args["show_progress"] = s.boolp("show_progress")
            s.mark("op")
            s.ret = s.call(s.m, op, (), args)
        return Item(nm, execute(chk.eng, nm, sc), kind="calc", what=op)
    return cached(chk, nm, go)


def calc_items(chk):
    out = []
    for kind in ("single", "pairs", "minus"):
        for op, kw in CALC_OPS[kind]:
            i = calc_item(chk, op, kw)
            if i is not None:
                i.__dict__["meta"]["cache"] = kind
                out.append(i)
    return out


def getter_item(chk, op, args):
    """one read of a calculator whose tables have been calculated"""
    nm = "PartialDependenceCalculator.%s(%s)" % (op, ", ".join(args))

    def go():
        def sc(s):
            s.m = s.new("calc", model=s.p("model", "model"), X=s.p("X", "frame"), predict_function=s.p("predict_function", "func"), batchsize=s.num("batchsize"))
            if op is None:
                return
            for c in ("calculate_pd_single", "calculate_pd_pairs", "calculate_pd_minus_single"):
                s.call(s.m, c, (), {})
            s.mark("op")
            a = {k: s.strp(k) if k != "feature_values" else s.p(k, "pairs" if "pairs" in op else "list") for k in args}
            s.ret = s.call(s.m, op, (), a)
        return Item(nm, execute(chk.eng, nm, sc), kind="get", what=op)
    return cached(chk, nm, go)
