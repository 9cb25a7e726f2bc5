"""Signatures of library callables, read from the installed library sources (parsed, never imported)."""
import ast
import glob
import os
import sys

SAFE_DECOS = {"copy", "staticmethod", "classmethod", "doc", "Substitution", "Appender", "deprecate_nonkeyword_arguments", "wraps",
              "_copy_docstring_and_deprecators", "array_function_dispatch", "set_module", "interpd", "dedent_interpd", "rewrite_axis_style_signature",
              "abstractmethod", "_deprecate_positional_args", "validate_params", "not_implemented_for", "nodes_or_number", "set_array_function_like_doc"}
WIDEN_DECOS = {"deprecate_kwarg", "rename_parameter", "delete_parameter", "_preprocess_data", "make_keyword_only", "deprecated", "rename_function"}


def site_dirs():
    out = []
    for p in ("/opt/venv/lib/python3*/site-packages", "/usr/lib/python3/dist-packages", "/usr/lib/python3.*"):
        out += sorted(glob.glob(p))
    return [d for d in out if os.path.isdir(d)]


class Sig:
    def __init__(self, node, where, bound, widened):
        a = node.args
        self.pos = [x.arg for x in a.posonlyargs + a.args]
        self.nposonly = len(a.posonlyargs)
        self.kwonly = [x.arg for x in a.kwonlyargs]
        self.vararg = a.vararg is not None
        self.kwarg = a.kwarg is not None or widened
        nd = len(a.defaults)
        self.required = self.pos[:len(self.pos) - nd]
        self.kwrequired = [x.arg for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is None]
        if bound:
            self.pos = self.pos[1:]
            self.required = self.required[1:] if self.required else []
        self.where = where

    def check(self, npos, kws, open_pos=False, open_kw=False):
        """list of problems"""
        out = []
        if not self.vararg and npos > len(self.pos):
            out.append("takes at most %d positional arguments, %d given" % (len(self.pos), npos))
        for k in kws:
            if k in self.pos[self.nposonly:] :
                i = self.pos.index(k)
                if i < npos:
                    out.append("argument %s given twice" % k)
            elif k not in self.kwonly and not self.kwarg:
                out.append("has no parameter %s" % k)
        if not open_pos and not open_kw:
            for i, r in enumerate(self.required):
                if i >= npos and r not in kws:
                    out.append("required argument %s is missing" % r)
            for r in self.kwrequired:
                if r not in kws:
                    out.append("required argument %s is missing" % r)
        return out


class Libs:
    def __init__(self):
        self.dirs = site_dirs()
        self.mods = {}
        self.memo = {}

    def modfile(self, name):
        rel = name.replace(".", "/")
        for d in self.dirs:
            for p in (os.path.join(d, rel, "__init__.py"), os.path.join(d, rel + ".py")):
                if os.path.isfile(p):
                    return p
        return None

    def module(self, name):
        if name in self.mods:
            return self.mods[name]
        p = self.modfile(name)
        m = None
        if p:
            try:
                with open(p, encoding="utf-8") as f:
                    tree = ast.parse(f.read())
                m = (tree, p, os.path.basename(p) == "__init__.py")
            except (SyntaxError, UnicodeDecodeError, OSError):
                m = None
        self.mods[name] = m
        return m

    def top(self, tree):
        st = list(tree.body)
        while st:
            n = st.pop(0)
            if isinstance(n, (ast.If, ast.Try)):
                st = list(n.body) + list(getattr(n, "orelse", [])) + st
                continue
            yield n

    def absmod(self, mod, is_pkg, node):
        if not node.level:
            return node.module
        parts = mod.split(".")
        if not is_pkg:
            parts = parts[:-1]
        parts = parts[:len(parts) - (node.level - 1)]
        return ".".join(parts + ([node.module] if node.module else []))

    def find(self, mod, name, depth=0):
        """(kind, node, module) of a top-level name"""
        k = (mod, name)
        if k in self.memo:
            return self.memo[k]
        self.memo[k] = None
        m = self.module(mod)
        if m is None or depth > 12:
            return None
        tree, path, is_pkg = m
        res = None
        stars = []
        for n in self.top(tree):
            if isinstance(n, (ast.FunctionDef, ast.ClassDef)) and n.name == name:
                if isinstance(n, ast.FunctionDef) and any("overload" in ast.unparse(d) for d in n.decorator_list):
                    continue
                res = ("class" if isinstance(n, ast.ClassDef) else "func", n, mod)
            elif isinstance(n, ast.ImportFrom):
                am = self.absmod(mod, is_pkg, n)
                for a in n.names:
                    if a.name == "*":
                        stars.append(am)
                    elif (a.asname or a.name) == name:
                        r = self.find(am, a.name, depth + 1)
                        if r is None and self.modfile(am + "." + a.name):
                            r = ("mod", None, am + "." + a.name)
                        res = r or res
            elif isinstance(n, ast.Import):
                for a in n.names:
                    if a.asname == name:
                        res = ("mod", None, a.name)
            elif isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Name) and t.id == name:
                        res = self.find(mod, n.value.id, depth + 1) if isinstance(n.value, ast.Name) and n.value.id != name else None
        if res is None:
            for s in stars:
                res = self.find(s, name, depth + 1)
                if res:
                    break
        if res is None and self.modfile(mod + "." + name):
            res = ("mod", None, mod + "." + name)
        self.memo[k] = res
        return res

    def method(self, cls, mod, name, depth=0):
        out = None
        for n in cls.body:
            if isinstance(n, ast.FunctionDef) and n.name == name and not any("overload" in ast.unparse(d) for d in n.decorator_list):
                out = (n, mod)
            elif isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == name for t in n.targets):
                return "other"
        if out:
            return out
        if depth > 10:
            return None
        for b in cls.bases:
            r = None
            if isinstance(b, ast.Name):
                r = self.find(mod, b.id)
            elif isinstance(b, ast.Attribute) and isinstance(b.value, ast.Name):
                r0 = self.find(mod, b.value.id)
                if r0 and r0[0] == "mod":
                    r = self.find(r0[2], b.attr)
            if r and r[0] == "class":
                x = self.method(r[1], r[2], name, depth + 1)
                if x:
                    return x
        return None

    def resolve(self, dotted):
        """Sig of a dotted library name, or None"""
        parts = dotted.split(".")
        mod = parts[0]
        cur = ("mod", None, mod)
        cls = None
        for i, p in enumerate(parts[1:]):
            if cur[0] == "mod":
                nxt = self.find(cur[2], p)
                if nxt is None:
                    return None
                cur = nxt
            elif cur[0] == "class":
                x = self.method(cur[1], cur[2], p)
                if x is None or x == "other" or i != len(parts) - 2:
                    return None
                node, m = x
                deco = {d for d in map(deco_name, node.decorator_list)}
                return self.sig(node, m, "staticmethod" not in deco and "classmethod" in deco)
            else:
                return None
        if cur[0] == "func":
            return self.sig(cur[1], cur[2], False)
        if cur[0] == "class":
            x = self.method(cur[1], cur[2], "__new__") if False else self.method(cur[1], cur[2], "__init__")
            if x is None or x == "other" or self.method(cur[1], cur[2], "__new__"):
                return None
            return self.sig(x[0], x[1], True)
        return None

    def resolve_method(self, dotted_class, name):
        parts = dotted_class.rsplit(".", 1)
        r = self.find(parts[0], parts[1])
        if not r or r[0] != "class":
            return None
        x = self.method(r[1], r[2], name)
        if x is None or x == "other":
            return None
        return self.sig(x[0], x[1], True)

    def sig(self, node, mod, bound):
        widened = False
        for d in node.decorator_list:
            n = deco_name(d)
            if n in SAFE_DECOS:
                continue
            if n in WIDEN_DECOS:
                widened = True
                continue
            return None
        return Sig(node, mod, bound, widened)


def deco_name(d):
    if isinstance(d, ast.Call):
        d = d.func
    if isinstance(d, ast.Attribute):
        return d.attr
    if isinstance(d, ast.Name):
        return d.id
    return "?"


# ------------------------------------------------------------------ open keyword arguments (**kwargs) of drawing functions
TEXT, LINE, COLL, PATCH = "matplotlib.text.Text", "matplotlib.lines.Line2D", "matplotlib.collections.Collection", "matplotlib.patches.Patch"
AX = "matplotlib.axes.Axes"
# function -> where its open keyword arguments end: ("props", class) keyword properties, ("sig", callable) parameters, ("names", ...)
OPEN = {
    "title": [("props", TEXT)], "set_title": [("props", TEXT)], "xlabel": [("props", TEXT)], "ylabel": [("props", TEXT)],
    "set_xlabel": [("props", TEXT)], "set_ylabel": [("props", TEXT)], "suptitle": [("props", TEXT), ("names", {"fontproperties", "x", "y"})],
    "text": [("props", TEXT)], "annotate": [("props", TEXT)], "xticks": [("props", TEXT)], "yticks": [("props", TEXT)],
    "set_xticklabels": [("props", TEXT)], "set_yticklabels": [("props", TEXT)],
    "plot": [("props", LINE), ("names", {"scalex", "scaley", "data"})],
    "grid": [("props", LINE)], "axhline": [("props", LINE)], "axvline": [("props", LINE)],
    "scatter": [("props", COLL), ("names", {"data", "sizes", "colorizer"})],
    "vlines": [("props", COLL), ("props", "matplotlib.collections.LineCollection")], "hlines": [("props", COLL), ("props", "matplotlib.collections.LineCollection")],
    "pcolormesh": [("props", COLL), ("props", "matplotlib.collections.QuadMesh"), ("names", {"data"})],
    "ylim": [("method", AX, "set_ylim")], "xlim": [("method", AX, "set_xlim")],
    "bar": [("props", PATCH), ("props", "matplotlib.patches.Rectangle"), ("names", {"xerr", "yerr", "ecolor", "capsize", "error_kw", "log", "label", "tick_label", "color", "edgecolor", "linewidth", "data", "align"})],
    "barh": [("props", PATCH), ("props", "matplotlib.patches.Rectangle"), ("names", {"xerr", "yerr", "ecolor", "capsize", "error_kw", "log", "label", "tick_label", "color", "edgecolor", "linewidth", "data", "align"})],
    "contour": [("names", {"levels", "alpha", "antialiased", "cmap", "colors", "data", "extend", "extent", "hatches", "linestyles", "linewidths", "locator",
                           "negative_linestyles", "nchunk", "norm", "origin", "vmax", "vmin", "xunits", "yunits", "algorithm", "corner_mask", "zorder", "transform", "clip_path"})],
    "heatmap": [("props", COLL), ("props", "matplotlib.collections.QuadMesh"), ("sigm", AX, "pcolormesh")],
    "rugplot": [("props", COLL), ("props", "matplotlib.collections.LineCollection"), ("names", {"color", "c", "linewidth", "lw", "alpha", "a", "axis"})],
    "subplots": [("class", "matplotlib.figure.Figure"), ("props", "matplotlib.figure.Figure"), ("func", "matplotlib.pyplot.figure")],
    "figure": [("class", "matplotlib.figure.Figure"), ("props", "matplotlib.figure.Figure")],
}
OPEN["clabel"] = [("sigm", "matplotlib.contour.ContourLabeler", "clabel")]
OPEN["contourf"] = OPEN["contour"]
OPEN["colorbar"] = [("class", "matplotlib.colorbar.Colorbar"), ("names", {"location", "orientation", "fraction", "pad", "shrink", "aspect", "anchor", "panchor", "ax", "cax", "use_gridspec"})]


def define_props(libs, dotted):
    """keyword properties a matplotlib artist accepts: its set_* methods and their declared aliases, from the sources"""
    k = ("props", dotted)
    if k in libs.memo:
        return libs.memo[k]
    libs.memo[k] = None
    mod, name = dotted.rsplit(".", 1)
    r = libs.find(mod, name)
    if not r or r[0] != "class":
        return None
    out, todo, seen = set(), [(r[1], r[2])], set()
    while todo:
        cls, m = todo.pop()
        if (cls.name, m) in seen:
            continue
        seen.add((cls.name, m))
        for d in cls.decorator_list:
            if isinstance(d, ast.Call) and deco_name(d) == "define_aliases" and d.args and isinstance(d.args[0], ast.Dict):
                for kk, vv in zip(d.args[0].keys, d.args[0].values):
                    out.add(kk.value)
                    if isinstance(vv, ast.List):
                        out |= {x.value for x in vv.elts}
        for n in cls.body:
            if isinstance(n, ast.FunctionDef) and n.name.startswith("set_"):
                out.add(n.name[4:])
            elif isinstance(n, ast.FunctionDef) and n.name == "__init__":
                out |= {x.arg for x in n.args.args + n.args.kwonlyargs}
            elif isinstance(n, ast.Assign):
                out |= {t.id[4:] for t in n.targets if isinstance(t, ast.Name) and t.id.startswith("set_")}
        for b in cls.bases:
            rr = None
            if isinstance(b, ast.Name):
                rr = libs.find(m, b.id)
            elif isinstance(b, ast.Attribute) and isinstance(b.value, ast.Name):
                r0 = libs.find(m, b.value.id)
                if r0 and r0[0] == "mod":
                    rr = libs.find(r0[2], b.attr)
            if rr is None or rr[0] != "class":
                if isinstance(b, (ast.Name, ast.Attribute)) and ast.unparse(b) in ("object", "ABC"):
                    continue
                return None
            todo.append((rr[1], rr[2]))
    libs.memo[k] = out
    return out


def open_names(libs, short):
    """names the open keyword arguments of a drawing function may have, or None when unknown"""
    if short not in OPEN:
        return None
    out = set()
    for w in OPEN[short]:
        if w[0] == "names":
            out |= w[1]
            continue
        if w[0] == "props":
            p = define_props(libs, w[1])
            if p is None or len(p) < 10:
                return None
            out |= p
            continue
        s = libs.resolve_method(w[1], w[2]) if w[0] in ("method", "sigm") else libs.resolve(w[1])
        if s is None or w[0] == "method" and s.kwarg:
            return None
        out |= set(s.pos) | set(s.kwonly)
    return out


def frame_plot_names(libs):
    """options of DataFrame.plot and DataFrame.plot.<kind>, from the pandas sources, plus those of the bars it draws"""
    k = ("frame plot", "")
    if k in libs.memo:
        return libs.memo[k]
    libs.memo[k] = None
    r = libs.find("pandas.plotting._core", "PlotAccessor")
    if not r or r[0] != "class":
        return None
    x = libs.method(r[1], r[2], "_get_call_args")
    bars = open_names(libs, "barh")
    if not x or x == "other" or bars is None:
        return None
    out = set(bars) | {"bottom", "left", "width", "position", "stacked", "include_bool", "backend", "mark_right", "logx", "logy", "sym", "c", "colors", "height"}
    for n in ast.walk(x[0]):
        if isinstance(n, ast.Tuple) and n.elts and isinstance(n.elts[0], ast.Constant) and isinstance(n.elts[0].value, str):
            out.add(n.elts[0].value)
    libs.memo[k] = out if {"x", "y", "ax", "xlabel"} <= out else None
    return libs.memo[k]
