"""Program model of the package under analysis: modules, functions, classes, MRO.

Everything is read from the source text of /repo on each run with the stdlib `ast`;
nothing of the package is imported or executed.
"""
import ast
import os

PKG = "chainladder"


class AnalysisBroken(Exception):
    """An anchor of the analysis vanished: the run has no verdict (error exit)."""


class FunctionInfo:
    __slots__ = ("name", "node", "module", "cls", "qual", "params", "posonly", "args",
                 "vararg", "kwonly", "kwarg", "locals", "kind", "setter_of", "uid",
                 "has_yield", "nonlocals", "globals_", "ndefaults", "is_lambda")
    _n = 0

    def __init__(self, name, node, module, cls=None, qual=None):
        FunctionInfo._n += 1
        self.uid = FunctionInfo._n
        self.name, self.node, self.module, self.cls = name, node, module, cls
        self.qual = qual or name
        self.is_lambda = isinstance(node, ast.Lambda)
        a = node.args
        self.posonly = [x.arg for x in a.posonlyargs]
        self.args = self.posonly + [x.arg for x in a.args]
        self.vararg = a.vararg.arg if a.vararg else None
        self.kwonly = [x.arg for x in a.kwonlyargs]
        self.kwarg = a.kwarg.arg if a.kwarg else None
        self.params = self.args + self.kwonly
        self.kind = "function"
        self.setter_of = None
        self.nonlocals, self.globals_ = set(), set()
        self.locals = set(self.params)
        if self.vararg:
            self.locals.add(self.vararg)
        if self.kwarg:
            self.locals.add(self.kwarg)
        self.has_yield = False
        body = [node.body] if self.is_lambda else node.body
        for st in body:
            self._collect(st)
        self.locals -= self.nonlocals | self.globals_

    def _collect(self, n):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            self.locals.add(n.name)
            for d in n.decorator_list:
                self._collect(d)
            return
        if isinstance(n, ast.Lambda):
            return
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            # comprehension targets are local to the comprehension; walrus leaks
            for sub in ast.walk(n):
                if isinstance(sub, ast.NamedExpr):
                    self.locals.add(sub.target.id)
            return
        if isinstance(n, ast.Global):
            self.globals_.update(n.names)
        elif isinstance(n, ast.Nonlocal):
            self.nonlocals.update(n.names)
        elif isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            self.locals.add(n.id)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for al in n.names:
                self.locals.add((al.asname or al.name).split(".")[0])
        elif isinstance(n, ast.ExceptHandler) and n.name:
            self.locals.add(n.name)
        elif isinstance(n, (ast.Yield, ast.YieldFrom)):
            self.has_yield = True
        for c in ast.iter_child_nodes(n):
            self._collect(c)

    @property
    def file(self):
        return self.module.rel

    def __repr__(self):
        return "<fn %s:%s>" % (self.module.name, self.qual)


class ClassInfo:
    def __init__(self, name, node, module):
        self.name, self.node, self.module = name, node, module
        self.qual = name
        self.bases = []          # ClassInfo or dotted str (external)
        self.methods = {}        # name -> FuncVal-able FunctionInfo (after decorators)
        self.props = {}          # name -> {'get': FunctionInfo, 'set': FunctionInfo}
        self.attrs = {}          # name -> AV (class-level attributes, dynamic methods)
        self._mro = None

    def mro(self):
        if self._mro is None:
            self._mro = _c3(self)
        return self._mro

    def ext_bases(self):
        return [b for b in self.mro() if isinstance(b, str)]

    def find_method(self, name):
        for c in self.mro():
            if isinstance(c, ClassInfo):
                if name in c.methods:
                    return c, c.methods[name]
        return None

    def is_sub(self, other):
        return other in self.mro()

    def __repr__(self):
        return "<class %s>" % self.name


def _c3(ci):
    def merge(seqs):
        res = []
        while True:
            seqs = [s for s in seqs if s]
            if not seqs:
                return res
            for s in seqs:
                cand = s[0]
                if not any(cand in t[1:] for t in seqs):
                    break
            else:
                cand = seqs[0][0]
            res.append(cand)
            seqs = [[x for x in s if x != cand] for s in seqs]
    lists = []
    for b in ci.bases:
        lists.append(list(b.mro()) if isinstance(b, ClassInfo) else [b])
    return [ci] + merge(lists + [list(ci.bases)])


class Module:
    def __init__(self, name, path, rel, src, tree, is_pkg):
        self.name, self.path, self.rel, self.src, self.tree = name, path, rel, src, tree
        self.is_pkg = is_pkg


class Program:
    def __init__(self, root=None):
        root = root or os.environ.get("SA_REPO", "/repo")
        self.root = root
        self.modules = {}
        pkgdir = os.path.join(root, PKG)
        if not os.path.isdir(pkgdir):
            raise AnalysisBroken("package directory %s is missing" % pkgdir)
        for dp, dn, fn in os.walk(pkgdir):
            dn[:] = sorted(d for d in dn if d not in ("tests", "__pycache__"))
            for f in sorted(fn):
                if not f.endswith(".py"):
                    continue
                p = os.path.join(dp, f)
                rel = os.path.relpath(p, root)
                name = rel[:-3].replace(os.sep, ".")
                is_pkg = name.endswith(".__init__")
                if is_pkg:
                    name = name[: -len(".__init__")]
                with open(p, "rb") as fh:
                    src = fh.read().decode("utf-8")
                tree = ast.parse(src, rel)
                self.modules[name] = Module(name, p, rel, src, tree, is_pkg)
        self.fn_index = {}   # id(node) -> FunctionInfo

    def function_for(self, node, module, cls=None, qual=None, name=None):
        fi = self.fn_index.get(id(node))
        if fi is None:
            nm = name or getattr(node, "name", "<lambda>")
            fi = FunctionInfo(nm, node, module, cls, qual or nm)
            self.fn_index[id(node)] = fi
        return fi
