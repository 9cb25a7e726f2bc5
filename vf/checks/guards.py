"""C04 / C05 / C06 / C11 / C15: which calls and errors happen under which conditions (partial evaluation of path conditions)."""
from .. import suites as S
from .. import query as q
from ..harness import execute, new_method, run_fit, PUBLIC, calc_obj, handler_obj
from ..terms import (T, walk, show, is_const, cval, NONE, TRUE, FALSE, assume, add_fact, mk, const, mk_cmp, mk_not, mk_and, mk_or, strip_conv, subst)

NOTFIT = "MethodNotFittedException"
NOTVIS = "VisualizationNotSupportedException"
PLOTLIBS = ("matplotlib.", "seaborn.", "networkx.")
DRAW_METHODS = {".barh", ".bar", ".scatter", ".plot", ".pcolormesh", ".annotate", ".text", ".set_title", ".set_xlabel", ".set_ylabel",
                ".add_subplot", ".add_axes", ".contour", ".contourf", ".suptitle", ".imshow", ".hist", ".vlines", ".hlines"}
PRIM = {"seaborn.heatmap", "seaborn.barplot", "networkx.draw", "networkx.draw_networkx", "matplotlib.pyplot.scatter", "matplotlib.pyplot.bar",
        "matplotlib.pyplot.barh", "matplotlib.pyplot.plot", "matplotlib.pyplot.pcolormesh", "matplotlib.pyplot.contourf", ".barh", ".bar", ".scatter",
        ".plot", ".imshow", ".vlines", ".hlines", ".stem", ".fill_between", ".matshow", "matplotlib.pyplot.imshow", "matplotlib.pyplot.stem", "matplotlib.pyplot.hlines",
        ".pcolormesh", "matplotlib.pyplot.vlines", "seaborn.scatterplot", ".contourf", "networkx.draw_networkx_edges"}


def is_draw(e):
    if e.kind != "ext":
        return False
    if e.name.startswith(PLOTLIBS):
        t = e.name.split(".")[-1]
        return t not in ("get_cmap", "Normalize", "ScalarMappable", "from_list", "from_pandas_edgelist", "circular_layout", "GridSpec", "Graph", "DiGraph")
    return e.name in DRAW_METHODS


def may(e, facts=None):
    """guards of e under facts: None impossible, () certain (on the path), else residual"""
    return q.guard_under(e.guards, facts or {})


# ------------------------------------------------------------------ C06
def check_C06(chk):
    """Must-raise / never-raise analysis: every reading operation on a method that was only constructed ends, on every path,
    in MethodNotFittedException with no drawing call before it; on a fitted method (for every class, with and without
    one-vs-all values) no path raises it, except the one-vs-all bar chart without one-vs-all values."""
    for it in S.unfitted_items(chk):
        run = it.run
        bad = None
        for e in run.effects():
            if e.kind == "raise":
                if NOTFIT not in str(e.exc):
                    bad = (e, "raises %s instead of %s" % (e.exc, NOTFIT))
                    break
                if not may_guard(e):
                    break                       # certain: nothing after it happens
            elif is_draw(e):
                bad = (e, "draws (%s) before the method is checked" % e.name)
                break
        if bad:
            chk.bad("must refuse", it.name, bad[1], bad[0].where())
        elif not run.s.ended:
            if returns_none_value(run) is None:
                chk.und("must refuse", it.name, "not resolved")
            else:
                chk.bad("must refuse", it.name, "an unfitted method is accepted", "")
        else:
            chk.good("must refuse", it.name)
    for it in S.read_suite(chk):
        for e in it.run.effects("raise"):
            if NOTFIT in str(e.exc):
                if it.kind == "plot" and it.vt == "bar_chart_ova" and "no ova" in it.name:
                    continue
                chk.bad("must accept", it.name, "a fitted method is refused as not fitted", e.where())
                break
        else:
            if it.run.s.ended and it.kind != "plot":
                exc = [str(e.exc) for e in it.run.effects("raise")]
                chk.bad("must accept", it.name, "always fails on a fitted method: %s" % ", ".join(exc), "")
            else:
                chk.good("must accept", it.name)


def may_guard(e):
    return [g for g in e.guards if g is not TRUE]


def returns_none_value(run):
    return True


# ------------------------------------------------------------------ C11
def declared(chk, it):
    s = it.run.s
    v = s.field(s.m, "visualizer")
    if v is None or v.kind != "obj":
        return None
    vc = s.field(v, "vis_config")
    if vc is None or vc.kind != "obj":
        return None
    a = s.field(vc, "accepted_visualizations")
    if a is None:
        cls = s.st.heap[vc.cell].cls
        a, _ = cls.lookup("accepted_visualizations")
        if a is None:
            return None
    t = strip_conv(s.snap(a))
    if t.op == "setof":
        t = strip_conv(t.a[0])
    if t.op in ("list", "tuple", "set") and all(is_const(x) for x in t.a):
        return [cval(x) for x in t.a]
    return None


def check_C11(chk):
    """Typestate of plot requests: for every method class and every plot type (plus an undeclared name) the declared set
    decides: undeclared types end in VisualizationNotSupportedException on every path before any drawing call, declared
    types never raise it and reach a drawing primitive fed from the fitted tables."""
    types = set(S.VIS)
    m = chk.eng.modules.get("artemis._utilities.domain")
    for key in S.INTER:
        dec = None
        for vt in list(S.VIS) + ["no such plot"]:
            it = S.plot_item(chk, key, vt)
            if it is None:
                continue
            if dec is None:
                dec = declared(chk, it)
                if dec is None:
                    chk.und("declared set", key, "the declared plot types could not be resolved")
                elif not dec:
                    chk.bad("declared set", key, "no plot type is declared for this method", "artemis/visualizer/_configuration.py")
                elif not all(isinstance(x, str) for x in dec):
                    chk.bad("declared set", key, "declared plot types are not names: %s" % dec, "artemis/visualizer/_configuration.py")
                else:
                    chk.good("declared set", key)
            if dec is None:
                continue
            run = it.run
            raised = [e for e in run.effects("raise") if NOTVIS in str(e.exc)]
            draws = [e for e in run.effects() if is_draw(e)]
            if vt not in dec:
                other = [e for e in run.effects("raise") if NOTVIS not in str(e.exc)]
                if draws and (not raised or draws[0].seq < raised[0].seq):
                    chk.bad("reject", it.name, "an unsupported plot type is drawn (%s)" % draws[0].name, draws[0].where())
                elif other and (not raised or other[0].seq < raised[0].seq) and not may_guard(other[0]):
                    chk.bad("reject", it.name, "raises %s instead of %s" % (other[0].exc, NOTVIS), other[0].where())
                elif not raised or not run.s.ended:
                    chk.bad("reject", it.name, "an unsupported plot type is not rejected", raised[0].where() if raised else "")
                else:
                    chk.good("reject", it.name)
                continue
            if raised:
                chk.bad("accept", it.name, "a declared plot type is rejected", raised[0].where())
                continue
            if run.s.ended:
                e = [e for e in run.effects("raise")]
                chk.bad("accept", it.name, "a declared plot type always fails: %s" % (e[-1].exc if e else "?"), e[-1].where() if e else "")
                continue
            prim = [e for e in run.effects("ext") if e.name in PRIM or e.name.startswith("seaborn.") or e.name.startswith("networkx.draw")]
            if not prim:
                if any(o for o in run.opaque):
                    chk.und("accept", it.name, "drawing not resolved")
                else:
                    chk.bad("accept", it.name, "a declared plot type draws nothing", "artemis/visualizer/_visualizer.py")
                continue
            wh = always(prim)
            if wh is False:
                chk.bad("accept", it.name, "a declared plot type is only drawn if %s" % " and ".join(show(g, 3) for g in may(prim[0]) or ())[:200], prim[0].where())
                continue
            if wh is None:
                chk.und("accept", it.name, "the condition for drawing was not resolved")
                continue
            chk.guard("columns", it.name, plot_columns, chk, key, it)
            need = NEED.get(vt, ())
            alld = set()
            for e in run.effects("ext"):
                for x in list(e.args) + list(e.kw.values()) + ([e.recv] if e.recv is not None else []):
                    if isinstance(x, T):
                        alld |= q.params_in(x)
            miss = [n for n in need if not any(p == "self." + x for x in n.split("|") for p in alld)]
            if vt == "summary" and key == "friedman" and not any(p == "self.ova" for p in alld):
                miss.append("ova")
            nn = [e for e in run.effects("raise") if "None" in str(e.exc) and not may_guard(e)]
            if nn:
                chk.bad("accept", it.name, "the drawing routine works on data that is missing (%s)" % nn[0].exc, nn[0].where())
            elif miss:
                chk.bad("accept", it.name, "the drawing routine does not receive %s" % ", ".join(miss), "artemis/visualizer/_visualizer.py")
            else:
                chk.good("accept", it.name)


def always(prim):
    """is something drawn on every path?  True / False / None"""
    gs = []
    for e in prim:
        g = may(e)
        if g is None:
            continue
        g = [x for x in g if x is not TRUE]
        if not g:
            return True
        gs.append(mk_and(*g))
    if not gs:
        return None
    d = mk_or(*gs)
    if d is TRUE:
        return True
    # no alternative left once every condition fails?
    f = {}
    for g in gs:
        f = add_fact(f, g, False)
        if q.guard_under([mk_not(x) for x in gs], f) is None:
            return True
    return None if any(x.op in ("opaque", "deep", "loopin", "loopout") for x in walk(d)) else False


def table_columns(chk, key):
    """{table: columns} of a fitted method, from the construction of its tables"""
    from .trees import Cols, Unknown, Missing, NEED as TREE
    out = {}
    for it in S.fit_suite(chk, keys=(key,)):
        s = it.run.s
        m = {mk("param", "interaction_metric", "str"): const("mean_gain"), mk("param", "importance_metric", "str"): const("mean_gain")}
        C = Cols({mk("param", "trees_df", "frame"): {c: (True, None) for c in TREE["xgboost"]}}, it.run)
        for n in ("ovo", "ova", "feature_importance", "full_result"):
            v = s.field(s.m, n)
            if v is None:
                continue
            t = s.snap(v)
            for cs, leaf in q.phi_leaves(subst(t, m) if key == "split" else t, 20):
                if leaf is NONE:
                    continue
                try:
                    c = set(C(leaf))
                except Missing:
                    continue
                except Unknown:
                    out[n] = None
                    continue
                if n not in out:
                    out[n] = c
                elif out[n] is not None:
                    out[n] &= c
        break
    return out


def plot_columns(chk, key, it):
    """every column a drawing routine reads from a result table exists in the table the method's fit builds"""
    from .trees import Cols, Unknown, Missing, need, strs
    memo = chk.__dict__.setdefault("_tabcols", {})
    if key not in memo:
        memo[key] = table_columns(chk, key)
    tabs = memo[key]
    base = {}
    for n, cols in tabs.items():
        p = it.run.s.field(it.run.s.m, n)
        if cols and p is not None:
            base[it.run.s.snap(p)] = {c: (True, None) for c in cols}
    C = Cols(base, it.run)
    seen, n, bad = set(), 0, set()
    for e in it.run.log[it.run.marks.get("op", 0):]:
        ts = [t for nm in ("key", "value", "result") for t in [getattr(e, nm, None)] if isinstance(t, T)] + [t for t in getattr(e, "args", None) or () if isinstance(t, T)]
        kw = getattr(e, "kw", None)
        if e.kind == "ext" and kw:
            ts += [t for t in (kw.values() if isinstance(kw, dict) else [v for _, v in kw]) if isinstance(t, T)]
        asks = []
        for t in ts:
            for x in walk(t, seen):
                try:
                    if x.op == "idx" and is_const(x.a[1]) and isinstance(cval(x.a[1]), str):
                        asks.append((x.a[0], [cval(x.a[1])], "read"))
                    elif x.op == "m" and x.a[0] in ("set_index", "sort_values", "groupby"):
                        k = C.kw(x, "by", 0) if x.a[0] != "set_index" else C.kw(x, "keys", 0)
                        asks.append((x.a[1], strs(k), "used"))
                    elif x.op == "m" and x.a[0] in ("pivot_table", "pivot"):
                        asks.append((x.a[1], [c for nm, i in (("values", 0), ("index", 1), ("columns", 2)) for k in [C.kw(x, nm, i)] if k is not None for c in strs(k)], "used"))
                except (Unknown, IndexError):
                    continue
        if e.kind == "ext" and isinstance(kw, dict):
            fr = kw.get("data") or kw.get("df") or (e.args[0] if e.name in ("seaborn.barplot", "networkx.from_pandas_edgelist", "seaborn.scatterplot") and e.args else None)
            if e.name in ("seaborn.barplot", "seaborn.scatterplot") and fr is not None:
                asks.append((fr, [cval(kw[k]) for k in ("x", "y", "hue") if k in kw and is_const(kw[k]) and isinstance(cval(kw[k]), str)], "drawn"))
            if e.name == "networkx.from_pandas_edgelist" and fr is not None:
                asks.append((fr, [cval(kw[k]) for k in ("source", "target", "edge_attr") if k in kw and is_const(kw[k]) and isinstance(cval(kw[k]), str)], "drawn"))
        for fr, cs, how in asks:
            try:
                d = C(fr)
                n += 1
                for c in cs:
                    need(d, c, how)
            except Missing as ex:
                if str(ex) not in bad and not ex.maybe:
                    bad.add(str(ex))
                    chk.bad("columns", it.name, str(ex), e.where())
            except Unknown:
                continue
    if not bad:
        if n:
            chk.good("columns", it.name)
        chk.count("plot columns", n)


NEED = {"heatmap": ("ovo",), "graph": ("ovo",), "bar_chart": ("ovo",), "bar_chart_ova": ("ova",), "summary": ("ovo",),
        "lollipop": ("full_result",), "bar_chart_conditional": ("ovo", "feature_importance")}


# ------------------------------------------------------------------ C04
def prediction_effects(run):
    for e in run.effects("ext"):
        if e.name in (".predict", ".predict_proba", "<value>") or (e.name.startswith(".predict")):
            yield e


def check_C04(chk):
    """Call-provenance: every prediction call of a fit is enumerated with its path condition.  With a predict function
    supplied all of them call it on the explained model; without one they are predict_proba (second column only) exactly
    when the model has it and predict otherwise; permutation based explanations call predict only."""
    for it in S.fit_suite(chk, keys=("friedman", "greenwell", "additivity", "imp_pdp", "sejong", "imp_perm")):
        run = it.run
        bad = False
        n = 0
        for e in prediction_effects(run):
            n += 1
            subj = "%s: prediction in %s" % (it.name, e.func)
            ok = judge_prediction(chk, it, e, subj)
            if ok is False:
                bad = True
        if n == 0:
            chk.und("prediction source", it.name, "no prediction call found")
        else:
            chk.good("prediction source", it.name) if not bad else None
        chk.count("prediction calls", n)
        # probabilities: second column only
        terms = set(q.results(it).values())
        for e in run.effects("mutate"):
            if e.value is not None:
                terms.add(e.value)
        probs = set()
        okp = set()
        for t in terms:
            for x in walk(t):
                if x.op == "m" and x.a[0] == "predict_proba":
                    probs.add(x)
                if x.op == "idx" and x.a[0].op == "m" and x.a[0].a[0] == "predict_proba" and second_col(x.a[1]):
                    okp.add(x)
                elif x.op == "idx" and x.a[0].op == "m" and x.a[0].a[0] == "predict_proba":
                    chk.bad("second column", it.name, "class probabilities are read as [%s], not as the second column" % show(x.a[1], 4), "")
                elif x.op == "m" and x.a[0] == "predict_proba":
                    pass
                elif any(c.op == "m" and c.a[0] == "predict_proba" for c in _direct(x)) and x.op not in ("idx", "phi", "conv"):
                    chk.bad("second column", it.name, "class probabilities are used without selecting the second column (%s)" % show(x, 3), "")
        for t in terms:
            x = altered(t, is_prediction)
            if x is not None:
                chk.bad("used unchanged", it.name, "predictions are changed by %s before they are used" % show(x, 3)[:200], "")
                break
        else:
            chk.good("used unchanged", it.name)
        for x in okp:
            chk.good("second column", "%s: %s" % (it.name, show(x, 3)))


def _direct(x):
    from ..terms import children
    return children(x)


def second_col(k):
    if k.op == "tuple" and len(k.a) == 2 and k.a[0].op == "slice" and all(y is NONE for y in k.a[0].a):
        return is_const(k.a[1]) and cval(k.a[1]) == 1
    return False


def judge_prediction(chk, it, e, subj):
    pf = mk("param", "predict_function", "func")
    row = it.key in ("sejong", "imp_perm")
    g = may(e)
    if g is None:
        return True
    if e.name == "<value>":
        fn = e.fn
        if fn is not None and fn.op == "param" and fn.a[0] == "calc_predict":
            return True
        if fn is pf:
            if row:
                return chk.bad("prediction source", subj, "permutation scores use a predict function", e.where())
            a0 = e.args[0] if e.args else None
            if a0 is not None and a0 is not mk("param", "model", "model"):
                if a0 is mk("param", "calc_model", "model"):
                    return True
                return chk.bad("prediction source", subj, "the predict function is called on %s" % show(a0, 3), e.where())
            return True
        return None if fn is not None and fn.op in ("opaque",) else True
    if e.recv is None:
        return None
    mods = [x for x in walk(e.recv) if x.op == "param" and x.a[0] in ("model", "calc_model")]
    if not mods:
        return None
    m = mods[0]
    if row:
        if e.name != ".predict":
            return chk.bad("prediction source", subj, "scores %s instead of the plain predictions" % e.name[1:], e.where())
        return True
    if it.opts.get("pf") == "1" and m.a[0] == "model":
        g2 = q.guard_under(e.guards, q.facts_of((mk("truth", pf), True), (pf, True), (mk("call", "callable", (pf,), ()), True), (mk("isnone", pf), False)))
        if g2 is None:
            return True
        own = [x for x in g2 if q.mentions_param(x, "predict_function") and not has_pred(x) and not called(x, pf)]
        if own and not any(y.op in ("opaque", "deep") for x in own for y in walk(x)):
            return chk.bad("prediction source", subj, "a supplied predict function is only used unless %s" % show(own[0], 4), e.where())
        if own:
            chk.und("prediction source", subj, "condition on the predict function not resolved", e.where())
            return None
        return chk.bad("prediction source", subj, "calls %s of the model although a predict function was supplied" % e.name[1:], e.where())
    has_pp = mk("hasattr", m, "predict_proba")
    cands = [x for gg in e.guards for x in walk(gg) if x.op == "hasattr" and x.a[0] is m]
    hp = [x for x in cands if "predict_proba" in str(x.a[1])]
    hp = hp[0] if hp else has_pp
    want = e.name == ".predict_proba"
    if e.name not in (".predict", ".predict_proba"):
        return chk.bad("prediction source", subj, "predictions come from %s" % e.name[1:], e.where())
    wrong = q.guard_under(e.guards, q.facts_of((hp, not want)))
    if wrong is None:
        return True
    other = [x for x in wrong if any(y is m for y in walk(x)) and x.op != "hasattr" and not (x.op == "not" and x.a[0].op == "hasattr")
             and not only_hasattr(x, m)]
    other = [x for x in other if not has_pred(x)]
    if other:
        chk.und("prediction source", subj, "condition on the model not resolved: %s" % show(other[0], 4), e.where())
        return None
    return chk.bad("prediction source", subj, ("plain predictions are used although the model offers probabilities" if not want else
                                               "probabilities are requested from a model that does not offer them"), e.where())


def called(x, pf):
    return any(y.op == "callv" and pf in y.a or y.op == "call" and y.a[0] is pf for y in walk(x))


ALTER = {"clip", "round", "rint", "around", "nan_to_num", "maximum", "minimum", "floor", "ceil", "trunc", "fix", "sign", "abs", "fabs", "absolute", "exp", "log", "log1p", "expm1", "sqrt",
         "tanh", "argmax", "argmin", "where", "sort", "cumsum", "diff", "fillna", "rank", "roll", "flip", "unique", "expit", "logit"}


def is_prediction(x):
    while x.op == "idx":
        x = x.a[0]
    if x.op == "callv":
        return x.a[0].op == "param" and x.a[0].a[0] in ("predict_function", "calc_predict")
    return x.op == "m" and x.a[0] in ("predict", "predict_proba")


def altered(t, isp):
    """a term that changes the numbers of a prediction before they are used"""
    for x in walk(t):
        if x.op in ("m", "call"):
            n = str(x.a[0]).split(".")[-1]
            if n in ALTER and any(isp(strip_conv(c)) for c in _direct(x)):
                return x
    return None


def only_hasattr(x, m):
    return all(y.op in ("hasattr", "not", "and", "or") or y is m or y.op == "const" for y in walk(x))


def has_pred(x):
    return any(y.op == "m" and str(y.a[0]).startswith("predict") for y in walk(x))


# ------------------------------------------------------------------ C05
RESULT_FIELDS = {"ovo", "ova", "feature_importance", "additivity_index", "full_result", "preds"}


def check_C05(chk):
    """Partial evaluation of the acceptance test of a supplied calculator: with a different model, or the same model and
    different data, every path ends in ValueError before any prediction or stored result; with both equal no path raises it,
    and then no other calculator is created and every partial dependence value read belongs to the supplied one."""
    for it in S.fit_suite(chk, keys=("friedman", "greenwell", "additivity", "imp_pdp")):
        if it.opts.get("calc") != "1":
            continue
        chk.guard("match test", it.name, judge_calc, chk, it)


def judge_calc(chk, it):
    run = it.run
    s = run.s
    model, cm = mk("param", "model", "model"), mk("param", "calc_model", "model")
    X, cX = mk("param", "X", "frame"), mk("param", "calc_X", "frame")
    rs = [e for e in run.effects("raise") if "ValueError" in str(e.exc)]
    atoms = set()
    for e in run.effects():
        for g in e.guards:
            for x in walk(g):
                if x.op in ("cmp", "m", "isnone", "truth", "hasattr", "in", "red", "isinstance") and q.params_in(x) & {"calc_model", "calc_X"} \
                        and q.params_in(x) & {"model", "X"}:
                    atoms.add(x)
    data = [x for x in atoms if "calc_X" in q.params_in(x) and "X" in q.params_in(x)]
    same_model = mk_cmp("==", model, cm)
    # the data that is explained: sampled when n is given
    n = it.opts.get("n") == "1"

    def explained(t):
        t = strip_conv(t)
        while t.op in ("copy",):
            t = t.a[0]
        if n:
            return t.op in ("draw", "iloc", "rows", "idx", "m", "call", "locidx") and q.mentions_param(t, "n") and q.mentions_param(t, "X")
        return t is X
    eq = None
    lossy = None
    unknown = None
    for x in data:
        if x.op == "m" and x.a[0] == "equals":
            a, b = x.a[1], dict(x.a[3]).get("other", x.a[2][0] if x.a[2] else None)
            if b is not None and {a, b} & {cX}:
                o = b if a is cX else a
                if explained(o):
                    eq = x
                elif strip_conv(o) is X:
                    return chk.bad("match test", it.name, "the calculator's data is compared with the unsampled data", rs[-1].where() if rs else "")
                else:
                    unknown = x
            elif any(y.op == "attr" and y.a[1] in ("columns", "shape", "index", "dtypes") for y in (a, b) if y is not None):
                lossy = x
            elif b is not None and "features" in it.opts and part_of(a, b, cX) and q.mentions_param(a, "features"):
                lossy = x      # only the requested columns, while the other columns enter every prediction
            else:
                unknown = x
        elif x.op == "cmp" and x.a[0] == "==":
            a, b = x.a[1], x.a[2]
            if {a, b} == {cX, X}:
                lossy = x      # identity of frames: rejects equal data
            elif any(y.op in ("attr", "len") for y in (a, b)):
                lossy = x
            else:
                unknown = x
        else:
            unknown = x
    subj = it.name
    w = rs[0].where() if rs else it.name
    inconclusive = unknown is not None and eq is None
    # model test
    model_atom = any(same_model in set(walk(g)) for e in run.effects() for g in e.guards)
    if not model_atom:
        ms = [x for x in atoms if "calc_model" in q.params_in(x) and "model" in q.params_in(x)]
        if ms and all(partial_view(x) for x in ms):
            chk.bad("match test", subj + ": model", "models are only compared by %s" % show(ms[0], 4), w)
        elif ms:
            chk.und("match test", subj + ": model", "comparison of models not resolved: %s" % show(ms[0], 4))
        else:
            chk.bad("match test", subj + ": model", "the model of the calculator is never compared with the explained model", w)
    else:
        must_raise(chk, it, subj + ": other model", rs, [(same_model, False)], "a calculator of another model is accepted")
    if eq is None:
        if unknown is not None:
            chk.und("match test", subj + ": data", "comparison of data not resolved: %s" % show(unknown, 4))
        elif lossy is not None:
            chk.bad("match test", subj + ": data", "data is only compared by %s" % show(lossy, 4), w)
        else:
            chk.bad("match test", subj + ": data", "the data of the calculator is never compared with the explained data", w)
    elif model_atom:
        must_raise(chk, it, subj + ": other data", rs, [(same_model, True), (eq, False)], "a calculator of other data is accepted",
                   [x for x in data if x is not eq])
    if model_atom and eq is not None:
        f = q.facts_of((same_model, True), *[(x, True) for x in data if x.op == "m" and x.a[0] == "equals"])
        for e in rs:
            g = may(e, f)
            if g is None:
                continue
            g2 = [x for x in g if q.params_in(x) & {"calc_model", "calc_X"}]
            if not g2 or not g:
                chk.bad("match test", subj + ": match", "a matching calculator is rejected", e.where())
            else:
                chk.und("match test", subj + ": match", "a further condition was not resolved: %s" % show(g2[0], 4), e.where())
            break
        else:
            chk.good("match test", subj + ": match")
    # the supplied calculator serves all values
    news = [e for e in run.effects("new") if "PartialDependenceCalculator" in str(e.d.get("cls", ""))]
    sup = s.kw["pd_calculator"]
    supt = s.snap(sup)
    f = q.facts_of((same_model, True), *[(x, True) for x in data])
    bad = False
    for e in news:
        if may(e, f) is not None:
            bad = chk.bad("served by it", subj, "another calculator is created although one was supplied", e.where()) is False
            break
    for name, t in q.results(it).items():
        for x in walk(assume(t, f)):
            if x.op == "new" and "PartialDependenceCalculator" in str(x.a[0]) and x is not supt:
                bad = chk.bad("served by it", subj, "%s does not come from the supplied calculator" % name, "") is False
                break
    pc = s.field(s.m, "pd_calculator")
    if pc is not None and assume(s.snap(pc), f) is not supt:
        t = assume(s.snap(pc), f)
        bad = chk.bad("served by it", subj, "the stored calculator is %s" % show(t, 3), "") is False
    if not bad:
        chk.good("served by it", subj)


def part_of(a, b, cX):
    """both sides select the same columns, one of them from the calculator's data"""
    a, b = strip_conv(a), strip_conv(b)
    return a.op == b.op and a.op in ("idx", "cols") and a.a[1] is b.a[1] and cX in (strip_conv(a.a[0]), strip_conv(b.a[0]))


def partial_view(x):
    """an equality of something that different models can share: type, class, name, parameters, printed form"""
    if x.op != "cmp" or x.a[0] not in ("==", "is"):
        return False
    return all(y.op == "attr" and y.a[1].startswith("__") or y.op == "call" and y.a[0] in ("type", "str", "repr", "len", "dir", "hasattr")
               or y.op == "m" and y.a[0] in ("get_params",) or y.op == "attr" and partial_view(mk("cmp", "==", y.a[0], y.a[0])) for y in x.a[1:3])


def must_raise(chk, it, subj, rs, conds, msg, free=()):
    """under the conditions, and whatever the further tests `free` give, a ValueError is raised before anything is computed"""
    used = [x for x in free if any(x in set(walk(g)) for e in rs for g in e.guards)]
    used = [x for x in used if not any(x is not y and x in set(walk(y)) for y in used)][:4]
    for bits in range(1 << len(used)):
        f = q.facts_of(*(list(conds) + [(x, bool(bits >> i & 1)) for i, x in enumerate(used)]))
        if not raised_first(chk, it, subj, rs, f, msg):
            return False
    return chk.good("match test", subj)


def raised_first(chk, it, subj, rs, f, msg):
    sure = None
    for e in rs:
        g = may(e, f)
        if g is None:
            continue
        if not [x for x in g if x is not TRUE]:
            sure = e
            break
    if sure is None:
        poss = [e for e in rs if may(e, f) is not None]
        if poss:
            return chk.bad("match test", subj, msg + " unless " + show(mk_not(may(poss[0], f)[-1]), 4), poss[0].where())
        return chk.bad("match test", subj, msg, rs[0].where() if rs else "")
    # nothing computed or stored before
    for e in it.run.effects():
        if e.seq >= sure.seq:
            break
        if may(e, f) is None:
            continue
        if e.kind == "setattr" and e.field in RESULT_FIELDS and e.val is not None:
            v = e.val
            t = v if isinstance(v, T) else getattr(v, "t", None)
            if v is None or t is NONE:
                continue
            return chk.bad("match test", subj, "%s is stored before the calculator is checked" % e.field, e.where())
        if e.kind == "ext" and e.name in (".predict", ".predict_proba", "<value>"):
            return chk.bad("match test", subj, "predictions are made before the calculator is checked", e.where())
        if e.kind == "mutate" and any(l.startswith("param:pd_calculator") for l in e.labels):
            return chk.bad("match test", subj, "the calculator is filled before it is checked", e.where())
    return True


# ------------------------------------------------------------------ C15
def split_item(chk, handler, pkg=None):
    nm = "split.fit on a fitted method (%s)" % ("raw model" if not handler else "handler" + (" " + pkg if pkg else ""))

    def go():
        b = S.fitted_base(chk.eng, ("split",), **({"pkg": pkg} if pkg else {}))

        def sc(s):
            s.m = b.s.objs["split", "self"]
            run_fit(s, "split", s.m, pkg=pkg, handler=handler)
        return S.Item(nm, execute(chk.eng, nm, sc, b), key="split", kind="fit", opts={}, more={})
    return S.cached(chk, nm, go)


def metric_names(chk):
    """metric names the package offers, harvested from its source: constants compared or used with cover in them, and others"""
    out = set()
    for mod in chk.eng.modules.values():
        import ast
        for n in ast.walk(mod.tree):
            if isinstance(n, ast.ClassDef) and "Metric" in n.name:
                for b in n.body:
                    v = getattr(b, "value", None)
                    if isinstance(b, (ast.Assign, ast.AnnAssign)) and isinstance(v, ast.Constant) and isinstance(v.value, str):
                        out.add(v.value)
    base = {"mean_gain", "sum_gain", "mean_cover", "sum_cover", "mean_depth", "mean_weighted_depth", "root_frequency", "weighted_root_frequency"}
    return sorted(out | base)


def check_C15(chk):
    """Decision table of the rejection conditions, read off the path conditions by partial evaluation: package outside
    {xgboost, lightgbm} <=> ModelNotSupportedException; lightgbm with a cover metric in either role <=>
    MetricNotSupportedException; and no attribute of the method is written before either error."""
    names = metric_names(chk)
    im, fm = mk("param", "interaction_metric", "str"), mk("param", "importance_metric", "str")
    for pkg in ("lightgbm", "xgboost", None):
        it = split_item(chk, True, pkg)
        if it is None:
            continue
        rs = [e for e in it.run.effects("raise") if "MetricNotSupported" in str(e.exc)]
        others = [e for e in it.run.effects("raise") if "MetricNotSupported" not in str(e.exc)]
        pkgs = [pkg] if pkg else ["lightgbm", "xgboost"]
        for p in pkgs:
            pf = [] if pkg else [(mk_cmp("==", mk("param", "package", "str"), const(c)), c == p) for c in ("lightgbm", "xgboost")]
            for a in names:
                for b in names:
                    f = q.facts_of(*(pf + [(mk_cmp("==", im, const(n)), n == a) for n in names] + [(mk_cmp("==", fm, const(n)), n == b) for n in names]))
                    want = p == "lightgbm" and ("cover" in a or "cover" in b)
                    subj = "%s, interactions by %s, importance by %s (%s)" % (p, a, b, "handler" if pkg else "any handler")
                    sure = [e for e in rs if may(e, f) == ()]
                    poss = [e for e in rs if may(e, f) is not None]
                    if want and not poss:
                        chk.bad("metric table", subj, "the cover based metric is accepted for lightgbm", "")
                    elif want and not sure:
                        chk.und("metric table", subj, "rejection depends on %s" % show(may(poss[0], f)[-1], 4), poss[0].where())
                    elif not want and sure:
                        chk.bad("metric table", subj, "a supported metric is rejected", sure[0].where())
                    elif not want and poss:
                        chk.und("metric table", subj, "rejection depends on %s" % show(may(poss[0], f)[-1], 4), poss[0].where())
                    else:
                        chk.good("metric table", subj)
        for e in rs:
            untouched(chk, it, e)
    it = split_item(chk, False)
    if it is not None:
        rs = [e for e in it.run.effects("raise") if "ModelNotSupported" in str(e.exc)]
        if not rs:
            chk.bad("model table", it.name, "no model is ever rejected", "artemis/_utilities/_handler.py")
        ms = [e for e in it.run.effects("raise") if "MetricNotSupported" in str(e.exc)]
        for c in GOOD_MODELS + BAD_MODELS:
            model_row(chk, rs, c, c in BAD_MODELS)
        for c in GOOD_MODELS:
            for a, b in (("mean_cover", "mean_gain"), ("mean_gain", "sum_cover"), ("sum_cover", "mean_cover"), ("sum_gain", "mean_gain"), ("mean_depth", "root_frequency")):
                f = Facts(c, {"interaction_metric": a, "importance_metric": b})
                model_case(chk, ms, f, "metric table", "%s, interactions by %s, importance by %s" % (c, a, b), c.startswith("lightgbm.") and ("cover" in a + b), "metric")
        for e in rs + [x for x in it.run.effects("raise") if "MetricNotSupported" in str(x.exc)]:
            untouched(chk, it, e)


GOOD_MODELS = ["xgboost.sklearn.XGBRegressor", "xgboost.sklearn.XGBClassifier", "xgboost.core.Booster", "lightgbm.sklearn.LGBMClassifier", "lightgbm.sklearn.LGBMRegressor",
               "lightgbm.basic.Booster"]
BAD_MODELS = ["sklearn.ensemble._forest.RandomForestRegressor", "sklearn.ensemble._hist_gradient_boosting.gradient_boosting.HistGradientBoostingRegressor",
              "catboost.core.CatBoostRegressor", "xgboost_ray.main.Booster", "lightgbm_ray.sklearn.RayLGBMRegressor", "mypackage.lightgbm.Booster", "mypackage.sklearn.XGBRegressor",
              "str", "boosters.xgboost", "lgb.Booster"]
ATTRS = {"xgboost.sklearn": {"get_booster": True, "booster_": False, "trees_to_dataframe": False}, "xgboost.core": {"get_booster": False, "booster_": False, "trees_to_dataframe": True},
         "lightgbm.sklearn": {"get_booster": False, "booster_": True, "trees_to_dataframe": False}, "lightgbm.basic": {"get_booster": False, "booster_": False, "trees_to_dataframe": True}}


class Unk(Exception):
    pass


class Facts:
    """constant evaluation of conditions for a model of a given class"""

    def __init__(self, cls, params=None, attrs=None):
        self.cls, self.params, self.attrs, self.asked = cls, params or {}, attrs or {}, set()

    def model(self, t):
        return t.op == "param" and t.a[0] == "model"

    def type_of(self, t):
        return (t.op == "call" and t.a[0] == "type" and t.a[1] and self.model(t.a[1][0])) or (t.op == "attr" and t.a[1] == "__class__" and self.model(t.a[0]))

    def ev(self, t):
        import re
        if not isinstance(t, T):
            return t
        o = t.op
        if o == "const":
            return cval(t)
        if o == "param" and t.a[0] in self.params:
            return self.params[t.a[0]]
        if self.type_of(t):
            return ("type", self.cls)
        if o == "conv":
            v = self.ev(t.a[1])
            k = str(t.a[0])
            if k in ("list", "tuple", "set") and isinstance(v, (list, tuple, set, str)):
                return {"list": list, "tuple": tuple, "set": set}[k](v)
            if k == "str":
                return self.string(v)
            raise Unk
        if o == "attr":
            v = self.ev(t.a[0])
            if isinstance(v, tuple) and v and v[0] == "type":
                if t.a[1] == "__module__":
                    return v[1].rpartition(".")[0] or "builtins"
                if t.a[1] in ("__name__", "__qualname__"):
                    return v[1].rpartition(".")[2]
            raise Unk
        if o == "fstr":
            return "".join(self.string(self.ev(x)) for x in t.a)
        if o == "fmt" and len(t.a) == 1:
            return self.string(self.ev(t.a[0]))
        if o in ("not", "truth"):
            return (not self.ev(t.a[0])) if o == "not" else bool(self.ev(t.a[0]))
        if o in ("and", "or"):
            unk = False
            for x in t.a:
                try:
                    if bool(self.ev(x)) == (o == "or"):
                        return o == "or"
                except Unk:
                    unk = True
            if unk:
                raise Unk
            return o == "and"
        if o == "phi":
            return self.ev(t.a[1] if self.ev(t.a[0]) else t.a[2])
        if o == "isnone":
            return self.ev(t.a[0]) is None
        if o == "isinstance":
            if self.model(t.a[0]) and "Handler" in str(t.a[1]):
                return False
            raise Unk
        if o == "hasattr" and self.model(t.a[0]):
            n = str(t.a[1])
            self.asked.add(n)
            if n in self.attrs:
                return self.attrs[n]
            raise Unk
        if o in ("list", "tuple", "set") and all(isinstance(x, T) and x.op != "seg" for x in t.a):
            return {"list": list, "tuple": tuple, "set": set}[o](self.ev(x) for x in t.a)
        if o == "setof":
            return set(self.ev(t.a[0]))
        if o == "dict" and all(isinstance(x, tuple) and len(x) == 2 for x in t.a):
            return {self.ev(k): self.ev(v) if v.op == "const" else None for k, v in t.a}
        if o == "in":
            a, b = self.ev(t.a[0]), self.ev(t.a[1])
            try:
                return a in b
            except TypeError:
                raise Unk
        if o == "cmp":
            a, b = self.ev(t.a[1]), self.ev(t.a[2])
            return {"==": lambda: a == b, "!=": lambda: a != b, "<": lambda: a < b, "<=": lambda: a <= b}.get(t.a[0], self.unk)()
        if o == "idx":
            v, k = self.ev(t.a[0]), t.a[1]
            if k.op == "slice":
                k = slice(*[self.ev(x) for x in k.a])
            else:
                k = self.ev(k)
            try:
                return v[k]
            except (TypeError, IndexError, KeyError):
                raise Unk
        if o == "map":
            src = self.ev(t.a[0])
            from ..terms import subst
            el = [x for x in walk(t.a[1]) if x.op == "elem" and x.a[0] is t.a[0]]
            out = []
            for v in src:
                if not isinstance(v, str):
                    raise Unk
                m = {x: const(v) for x in el}
                if t.a[2] is TRUE or self.ev(subst(t.a[2], m)):
                    out.append(self.ev(subst(t.a[1], m)))
            return out
        if o == "red" and t.a[0] in ("any", "all"):
            v = self.ev(t.a[1])
            return {"any": any, "all": all}[t.a[0]](v)
        if o == "bin" and t.a[0] == "+":
            return self.ev(t.a[1]) + self.ev(t.a[2])
        if o == "call":
            n = t.a[0]
            if n in ("re.search", "re.match", "re.fullmatch", "re.findall", "re.sub", "re.split"):
                kw = {k: self.ev(v) for k, v in t.a[2]}
                return getattr(re, n[3:])(*[self.ev(x) for x in t.a[1]], **kw)
            if n == "str":
                return self.string(self.ev(t.a[1][0]))
            if n in ("any", "all", "len", "list", "tuple", "set", "sorted"):
                return {"any": any, "all": all, "len": len, "list": list, "tuple": tuple, "set": set, "sorted": sorted}[n](self.ev(t.a[1][0]))
            raise Unk
        if o == "m":
            v = self.ev(t.a[1])
            args = [self.ev(x) for x in t.a[2]] + [self.ev(x) for _, x in t.a[3]]
            if isinstance(v, str) and t.a[0] in ("split", "rsplit", "startswith", "endswith", "lower", "upper", "partition", "rpartition", "strip", "lstrip", "rstrip", "replace", "find",
                                                 "removeprefix", "removesuffix", "count", "index", "casefold", "join"):
                return getattr(v, t.a[0])(*args)
            if isinstance(v, re.Match) and t.a[0] in ("group", "groups"):
                return getattr(v, t.a[0])(*args)
            raise Unk
        raise Unk

    def unk(self):
        raise Unk

    def string(self, v):
        if isinstance(v, tuple) and v and v[0] == "type":
            return "<class '%s'>" % v[1]
        if isinstance(v, (str, int)):
            return str(v)
        raise Unk


def model_case(chk, rs, f, rule, subj, want, what):
    """does one of the raises happen for this model?  attributes the conditions ask for are tried both ways"""
    def once(attrs):
        f.attrs = attrs
        f.asked = set()
        out = False
        for e in rs:
            r = True
            for g in e.guards:
                try:
                    if not f.ev(g):
                        r = False
                        break
                except Unk:
                    r = None
                except Exception:
                    r = None
            if r:
                return True
            if r is None:
                out = None
        return out
    known = ATTRS.get(f.cls.rpartition(".")[0], {})
    todo, seen = [dict(known)], 0
    while todo and seen < 40:
        seen += 1
        attrs = todo.pop()
        r = once(attrs)
        new = [a for a in sorted(f.asked) if a not in attrs]
        if r is None and new:
            todo += [dict(attrs, **{new[0]: True}), dict(attrs, **{new[0]: False})]
            continue
        if r is None:
            return chk.und(rule, subj, "the test was not resolved")
        if r != want:
            how = " if it has %s" % ", ".join(a if v else "no " + a for a, v in attrs.items() if a not in known) if set(attrs) - set(known) else ""
            return chk.bad(rule, subj, ("an unsupported %s is accepted" if want else "a supported %s is rejected") % what + how, rs[0].where() if rs else "")
    chk.good(rule, subj)


def model_row(chk, rs, c, want):
    model_case(chk, rs, Facts(c), "model table", "model of class %s" % c, want, "model")


def untouched(chk, it, r):
    """no write to the method or what it owned before the error"""
    eng = chk.eng
    f = {}
    for g in r.guards:
        f = add_fact(f, g, True)
    subj = "%s: %s" % (it.name, r.exc)
    for e in it.run.effects():
        if e.seq >= r.seq:
            break
        if q.guard_under(e.guards, f) is None:
            continue
        if e.kind == "setattr":
            l = eng.labels.get(e.obj.cell) if e.obj is not None else None
            if l and l.startswith("fitted:"):
                return chk.bad("rejected fit", subj, "%s is changed before the request is rejected" % (l[7:] + "." + e.field), e.where())
        elif e.kind == "mutate":
            for l in e.labels:
                if l.startswith("fitted:"):
                    return chk.bad("rejected fit", subj, "%s is modified before the request is rejected" % l[7:], e.where())
    chk.good("rejected fit", subj)
