"""C25: calls match their callees."""
from .. import suites as S
from .. import query as q
from ..libsig import Libs, open_names, frame_plot_names
from ..terms import T, walk, show, is_const, cval

LIBS = ("seaborn.", "networkx.", "sklearn.", "matplotlib.", "pandas.", "numpy.", "statistics.", "math.")
NOTERR = {"object"}


def axesish(t, d=0):
    """a matplotlib Axes object"""
    if t is None or d > 6:
        return False
    if t.op == "phi":
        return axesish(t.a[1], d + 1) and axesish(t.a[2], d + 1)
    if t.op == "idx" and t.a[0].op == "call" and t.a[0].a[0] == "matplotlib.pyplot.subplots" and is_const(t.a[1]) and cval(t.a[1]) == 1:
        c = t.a[0]
        return not c.a[1] and not ({"nrows", "ncols", "squeeze"} & set(dict(c.a[2])))
    if t.op == "call":
        return t.a[0] in ("matplotlib.pyplot.gca", "matplotlib.pyplot.subplot", "matplotlib.pyplot.axes", "matplotlib.pyplot.subplot2grid")
    if t.op == "m":
        return t.a[0] in ("add_subplot", "add_axes", "gca")
    return False


def figureish(t, d=0):
    """a matplotlib Figure object"""
    if t is None or d > 6:
        return False
    if t.op == "phi":
        return figureish(t.a[1], d + 1) and figureish(t.a[2], d + 1)
    if t.op == "idx" and t.a[0].op == "call" and t.a[0].a[0] == "matplotlib.pyplot.subplots" and is_const(t.a[1]):
        return cval(t.a[1]) == 0
    return t.op == "call" and t.a[0] in ("matplotlib.pyplot.figure", "matplotlib.pyplot.gcf")


def feasible(e):
    return not any(is_const(g) and cval(g) is False for g in e.guards)


def draw_kwds(libs):
    out = {"ax", "with_labels", "arrows"}
    for f in ("draw_networkx", "draw_networkx_nodes", "draw_networkx_edges", "draw_networkx_labels"):
        s = libs.resolve("networkx." + f)
        if s is None:
            return None
        out |= set(s.pos) | set(s.kwonly)
    return out


def check_C25(chk):
    """Call binding: every call the public operations can reach is bound against its callee's parameter list: package
    functions and constructors in the analysed source, library functions and methods in the installed library sources.
    Unknown, doubled or missing arguments, names and attributes that do not exist are violations."""
    libs = Libs()
    ncalls = 0
    allow = draw_kwds(libs)
    items = S.fit_suite(chk) + S.read_suite(chk) + [S.pdvis_item(chk)] + S.handler_items(chk) + extra(chk)
    seen = {}
    for it in items:
        if it is None:
            continue
        bad = False
        for e in it.run.log:
            if e.kind == "enter":
                ncalls += 1
                seen.setdefault(("p", e.callee), it)
            elif e.kind in ("binderror", "attrerror", "nameerror", "importerror") and feasible(e):
                bad = True
                if e.kind == "binderror":
                    chk.bad("package call", it.name, "call of %s does not fit its parameters: %s" % (e.callee, "; ".join(map(str, e.errors))), e.where())
                elif e.kind == "attrerror":
                    chk.bad("package name", it.name, "%s has no attribute %s" % (e.cls, e.name), e.where())
                else:
                    chk.bad("package name", it.name, "name %s does not exist" % e.name, e.where())
            elif e.kind == "ext":
                ncalls += 1
                r = lib_call(chk, libs, e, allow)
                if r is None:
                    continue
                nm, errs = r
                k = ("l", nm, e.func)
                if errs:
                    bad = True
                    chk.bad("library call", "%s in %s" % (nm, e.func), "%s %s" % (nm, "; ".join(errs)), e.where())
                elif k not in seen:
                    seen[k] = it
                    chk.good("library call", "%s in %s" % (nm, e.func))
        if not bad:
            chk.good("package call", it.name)
    chk.count("calls bound", ncalls)
    chk.count("package functions reached", len([k for k in seen if k[0] == "p"]))
    for k in seen:
        if k[0] == "p":
            chk.good("package function", k[1])


def extra(chk):
    """operations not in the other suites: unfitted use, both title defaults, plots without options"""
    out = []
    for k in S.INTER:
        for v in S.VIS:
            i = S.plot_item(chk, k, v, title=False, kw=False)
            if i is not None:
                out.append(i)
    return out


def lib_call(chk, libs, e, allow):
    npos = 0
    open_pos = False
    for a in e.vals:
        if isinstance(a, tuple):
            open_pos = True
        else:
            npos += 1
    kws = [k for k in e.kwvals if k and k != "**"]
    open_kw = any(not k or k == "**" for k in e.kw) or any(getattr(k, "op", None) == "star" for k in e.args)
    if e.recv is None and e.name.startswith(LIBS):
        s = libs.resolve(e.name)
        nm = e.name
    elif e.recv is not None and e.name.startswith("."):
        if axesish(e.recv):
            s = libs.resolve_method("matplotlib.axes.Axes", e.name[1:])
        elif figureish(e.recv):
            s = libs.resolve_method("matplotlib.figure.Figure", e.name[1:])
        elif chk.eng.ty(e.recv) == "frame":
            s = libs.resolve_method("pandas.DataFrame", e.name[1:])
        elif e.recv.op == "attr" and e.recv.a[1] == "plot" and chk.eng.ty(e.recv.a[0]) == "frame" and e.name in (".barh", ".bar"):
            ok = frame_plot_names(libs)
            if ok is None:
                return None
            return "DataFrame.plot" + e.name, ["has no option %s" % k for k in kws if k not in ok]
        else:
            return None
        nm = e.name
    else:
        return None
    if s is None:
        return None
    errs = s.check(npos, kws, open_pos, open_kw)
    if e.name in ("networkx.draw", "networkx.draw_networkx") and allow is not None:
        errs += ["has no option %s" % k for k in kws if k not in allow and k not in ("pos", "G")]
    if s.kwarg and (axesish(e.recv) or figureish(e.recv) and e.name in (".suptitle", ".text", ".colorbar") if e.recv is not None else e.name.startswith(("matplotlib.pyplot.", "seaborn."))):
        ok = open_names(libs, e.name.rsplit(".", 1)[1])
        if ok is not None:
            errs += ["has no option %s" % k for k in kws if k not in ok and k not in s.pos and k not in s.kwonly]
    return nm, errs
