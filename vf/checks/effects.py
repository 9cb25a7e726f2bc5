"""C01 / C02 / C24: who may write to what (alias and effect analysis)."""
from .. import suites as S
from ..terms import T, walk, is_const, cval, show, const, strip_conv

CALC_FIXED = {"model", "X", "predict_function", "X_len", "batchsize"}


def obj_label(eng, e):
    return eng.labels.get(e.obj.cell) if e.obj is not None else None


def mentions(t, s):
    c = const(s)
    return t is not None and any(x is c for x in walk(t))


def writes(run, eng):
    """(effect, label, is_setattr, description) of every write to a labelled object in the operation"""
    for e in run.effects():
        if e.kind == "mutate":
            for l in sorted(e.labels):
                yield e, l, False, "%s%s" % (e.how, "" if e.key is None else " [%s]" % show(e.key, 3))
        elif e.kind == "setattr":
            l = obj_label(eng, e)
            if l:
                yield e, l, True, "attribute %s assigned" % e.field


def is_pd_fill(e):
    return e.kind == "mutate" and (mentions(e.path, "pd_values") or (e.key is not None and mentions(e.key, "pd_values")))


def check_C01(chk):
    """Alias/effect analysis: in every public operation no write (item or attribute assignment, in-place method, out=,
    augmented assignment through a view) reaches an object labelled as owned by the caller; the only permitted writes are
    fills of pd_values of a supplied calculator."""
    eng = chk.eng
    items = S.fit_suite(chk) + S.cmp_suite(chk) + S.plot_suite(chk) + S.profile_suite(chk) + [S.pdvis_item(chk)]
    for it in items:
        if it is None:
            continue
        run = it.run
        n = 0
        bad = False
        for e, l, sa, what in writes(run, eng):
            n += 1
            owned = l.startswith("param:") or (l.startswith("fitted:m") and it.kind == "cmp")
            if not owned:
                continue
            if l.startswith("param:pd_calculator"):
                if sa and e.field not in CALC_FIXED:
                    continue
                if not sa and is_pd_fill(e):
                    continue
            bad = True
            chk.bad("caller-owned", it.name, "writes to %s (%s)" % (l.split(":", 1)[1], what), e.where())
        chk.count("writes examined", sum(1 for e in run.effects() if e.kind in ("mutate", "setattr")))
        if not bad:
            chk.good("caller-owned", it.name)
        for e in run.effects("ext"):
            # option dictionaries given by the caller inside **kwargs
            pass


def check_C02(chk):
    """Effect analysis of every read operation on a fitted method (plots, profiles, zenplots, value lookups, getters,
    comparisons): no write reaches the method, its tables, its calculator or its stored partial dependence values; in fit
    operations every write to a stored pd_values table stores an average of predictions into selected positions."""
    eng = chk.eng
    for it in S.read_suite(chk):
        run = it.run
        bad = False
        for e, l, sa, what in writes(run, eng):
            if not l.startswith("fitted:"):
                continue
            if ".visualizer" in l:
                continue          # C24
            bad = True
            chk.bad("read-only", it.name, "%s changes %s (%s)" % ("reading" if it.kind != "plot" else "plotting", l.split(":", 1)[1], what), e.where())
        chk.count("writes examined", sum(1 for e in run.effects() if e.kind in ("mutate", "setattr")))
        if not bad:
            chk.good("read-only", it.name)
    for it in S.fit_suite(chk, keys=("friedman", "greenwell", "imp_pdp", "additivity")):
        for e in it.run.effects("mutate"):
            if not (e.path is not None and mentions(e.path, "pd_values")) and not (e.labels and any("pd_values" in l for l in e.labels)):
                continue
            subj = "%s: write to pd_values in %s" % (it.name, e.func)
            v = e.value
            if e.how in ("setitem",) and v is not None and avg_of_prediction(v):
                chk.good("pd fill", subj)
            elif e.how == "augassign" or e.how.startswith((".", "inplace")):
                chk.bad("pd fill", subj, "stored partial dependence values altered in place (%s)" % e.how, e.where(), value=v)
            elif e.how == "setitem" and v is not None and not has_prediction(v):
                chk.bad("pd fill", subj, "stored value is not derived from predictions", e.where(), value=v)
            elif e.how == "setitem" and reads_loc(v):
                chk.bad("pd fill", subj, "stored value derived from stored values", e.where(), value=v)
            else:
                chk.und("pd fill", subj, "stored value not recognised: %s" % (show(v, 5) if v is not None else None), e.where())


def has_prediction(v):
    return any(x.op == "callv" or (x.op == "m" and str(x.a[0]).startswith("predict")) for x in walk(v))


def reads_loc(v):
    return any(x.op == "loc" for x in walk(v))


def avg_of_prediction(v):
    if v.op == "phi":
        return avg_of_prediction(v.a[1]) and avg_of_prediction(v.a[2])
    return v.op == "red" and v.a[0] == "mean" and has_prediction(v.a[1])


def check_C24(chk):
    """Effect analysis: no operation writes to process-wide state (module variables, class attributes, shared default
    objects, cached results, library-wide settings) and no plot call writes to the plot configuration kept by an object."""
    eng = chk.eng
    for it in S.fit_suite(chk) + S.read_suite(chk) + [S.pdvis_item(chk)]:
        if it is None:
            continue
        run = it.run
        bad = in_context = False
        for e in run.log:
            for what in shared_write(eng, e):
                bad = chk.bad("process-wide", it.name, what, e.where()) is False
            if e.kind == "mutate" and global_params(e.old) and not in_context:
                bad = chk.bad("process-wide", it.name, "changes library-wide settings: %s" % show(e.old, 2), e.where()) is False
            elif e.kind == "ext" and e.name.split(".")[-1] in ("rc_context", "axes_style", "plotting_context", "option_context", "errstate"):
                in_context = True          # settings changed inside are restored
            elif e.kind == "ext" and fixed_figure(e):
                bad = chk.bad("process-wide", it.name, "draws on a figure that other calls share (%s with a fixed number)" % e.name, e.where()) is False
            elif e.kind == "ext" and library_wide(e) and not in_context:
                bad = chk.bad("process-wide", it.name, "changes library-wide settings: %s" % e.name, e.where()) is False
        for e, l, sa, what in writes(run, eng):
            if l.startswith("fitted:") and ".visualizer" in l:
                bad = chk.bad("plot options", it.name, "plot configuration changed: %s (%s)" % (l.split(":", 1)[1], what), e.where()) is False
        chk.count("writes examined", sum(1 for e in run.log if e.kind in ("mutate", "setattr", "classwrite", "globalwrite")))
        if not bad:
            chk.good("independent", it.name)
    # operations that were not analysed to their end: the writes seen until then are real
    for name, log in list(eng.partial):
        for e in log:
            for what in shared_write(eng, e):
                chk.bad("process-wide", name, what, e.where())
    # two objects of one class share no mutable part
    for key in S.INTER:
        chk.guard("no sharing", key, sharing, chk, key)


def sharing(chk, key):
    from ..harness import execute, new_method
    eng = chk.eng

    def sc(s):
        s.a = new_method(s, key)
        s.b = new_method(s, key)
    run = execute(eng, "two %s objects" % key, sc)
    chk.seen(run)
    s = run.s
    ra = reach(eng, s.st, s.a)
    rb = reach(eng, s.st, s.b)
    common = [c for c in ra if c in rb and not (eng.labels.get(c) or "").startswith("shared:")]
    # shared ones are tolerated only while nothing writes to them (checked above)
    subj = "two %s objects" % key
    if common:
        chk.bad("no sharing", subj, "two separately built objects share %s" % ra[common[0]], "")
    else:
        chk.good("no sharing", subj)


def reach(eng, st, v):
    seen = {}
    from ..engine import Obj

    def go(v, p):
        if v is None or v.kind not in ("obj",) or v.cell in seen:
            return
        seen[v.cell] = p
        c = st.heap.get(v.cell)
        if isinstance(c, Obj):
            for n, x in c.fields.items():
                go(x, p + "." + n)
    go(v, "object")
    return seen


def library_wide(e):
    n = e.name
    if n.startswith((".",)):
        r = e.recv
        return r is not None and r.op == "ext" and ("rcParams" in str(r.a[0])) and n in (".update", ".__setitem__")
    tail = n.split(".")[-1]
    if n.startswith("seaborn.") and tail in ("set", "set_theme", "set_style", "set_palette", "set_context", "set_color_codes", "reset_defaults"):
        return True
    if n.startswith("matplotlib.") and tail in ("rc", "rcdefaults", "use", "set_cmap"):
        return tail != "use"
    if n in ("pandas.set_option", "numpy.random.seed", "random.seed", "numpy.seterr", "numpy.set_printoptions"):
        return True
    return False


def shared_write(eng, e):
    """descriptions of the writes of e to state that several objects share"""
    if e.kind == "classwrite":
        yield "class attribute %s.%s assigned" % (e.cls, e.field)
    elif e.kind == "globalwrite":
        yield "module variable %s assigned" % e.name
    elif e.kind == "mutate":
        for l in e.labels:
            if l.startswith("shared:"):
                yield "shared object (%s) modified by %s" % (l[7:], e.how)
    elif e.kind == "setattr":
        l = obj_label(eng, e)
        if l and l.startswith("shared:"):
            yield "shared object (%s): attribute %s assigned" % (l[7:], e.field)


def global_params(t):
    t = t and strip_conv(t)
    return t is not None and t.op in ("ext", "attr") and any(isinstance(x, str) and x.split(".")[-1] in ("rcParams", "rcParamsDefault") for x in t.a)


def fixed_figure(e):
    if not e.name.startswith("matplotlib.pyplot."):
        return False
    tail = e.name.split(".")[-1]
    if tail not in ("figure", "subplots", "subplot_mosaic"):
        return False
    kw = e.kw if isinstance(e.kw, dict) else dict(e.kw or ())
    n = kw.get("num") or (e.args[0] if tail == "figure" and e.args else None)
    return n is not None and is_const(n) and cval(n) is not None
