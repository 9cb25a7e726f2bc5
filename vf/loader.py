"""Parses the package under /repo and builds the class/function tables (no import, no execution)."""
import ast
import os


class TooComplex(Exception):
    """one scenario exceeds the analysis budget"""


class AnalysisBroken(Exception):
    pass


class FuncInfo:
    def __init__(self, node, module, qual, cls=None, parent_env=None):
        self.node, self.module, self.qual, self.cls = node, module, qual, cls
        self.parent_env = parent_env
        self.kind = "plain"          # plain / property / static / class / cachedprop / setter
        self.defaults = {}           # name -> Val
        self.cached = False
        self.is_lambda = isinstance(node, ast.Lambda)
        a = node.args
        self.pos = [x.arg for x in a.posonlyargs + a.args]
        self.kwonly = [x.arg for x in a.kwonlyargs]
        self.vararg = a.vararg.arg if a.vararg else None
        self.kwarg = a.kwarg.arg if a.kwarg else None
        self.is_gen = False if self.is_lambda else _has_yield(node)
        self.name = "<lambda>" if self.is_lambda else node.name

    def __repr__(self):
        return "<fn %s>" % self.qual


def _has_yield(node):
    st = list(node.body)
    while st:
        n = st.pop()
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        st.extend(ast.iter_child_nodes(n))
    return False


class ClassInfo:
    def __init__(self, name, qual, module, node):
        self.name, self.qual, self.module, self.node = name, qual, module, node
        self.bases = []              # ClassInfo or external dotted name
        self.attrs = {}              # name -> Val
        self.dataclass = False
        self.dfields = []            # (name, default Val or None, factory Val or None) own fields

    def mro(self):
        out = [self]
        for b in self.bases:
            if isinstance(b, ClassInfo):
                for c in b.mro():
                    if c not in out:
                        out.append(c)
        return out

    def lookup(self, name):
        for c in self.mro():
            if name in c.attrs:
                return c.attrs[name], c
        return None, None

    def is_sub(self, other):
        return other in self.mro()

    def ext_bases(self):
        out = []
        for c in self.mro():
            out += [b for b in c.bases if not isinstance(b, ClassInfo)]
        return out

    def all_dfields(self):
        out = {}
        for c in reversed(self.mro()):
            for f in c.dfields:
                out[f[0]] = f
        return list(out.values())

    def __repr__(self):
        return "<class %s>" % self.qual


class Module:
    def __init__(self, name, path, tree, is_pkg):
        self.name, self.path, self.tree, self.is_pkg = name, path, tree, is_pkg
        self.env = None              # env cell id, filled by the engine
        self.state = "new"


def load_package(root, pkg="artemis"):
    mods = {}
    base = os.path.join(root, pkg)
    if not os.path.isdir(base):
        raise AnalysisBroken("package directory %s is gone" % base)
    for d, dirs, files in os.walk(base):
        dirs[:] = sorted(x for x in dirs if x != "__pycache__")
        for f in sorted(files):
            if not f.endswith(".py"):
                continue
            p = os.path.join(d, f)
            rel = os.path.relpath(p, root)[:-3].split(os.sep)
            is_pkg = rel[-1] == "__init__"
            if is_pkg:
                rel = rel[:-1]
            name = ".".join(rel)
            try:
                with open(p, encoding="utf-8") as fh:
                    tree = ast.parse(fh.read(), p)
            except SyntaxError as e:
                raise AnalysisBroken("cannot parse %s: %s" % (p, e))
            mods[name] = Module(name, os.path.relpath(p, root), tree, is_pkg)
    return mods
