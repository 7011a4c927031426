"""Behaviour-preserving rewrites of the whole package, to test that the checks stay quiet.
usage: refactor.py KIND OUTDIR   (copies /repo to OUTDIR and rewrites chainladder/**/*.py)"""
import ast
import copy
import os
import shutil
import sys

KINDS = {}


def kind(cls):
    KINDS[cls.__name__] = cls
    return cls


def name(n, ctx=None):
    return ast.Name(id=n, ctx=ctx or ast.Load())


class Base(ast.NodeTransformer):
    n = 0

    def fresh(self, p="_tmp"):
        self.n += 1
        return "%s%d" % (p, self.n)


@kind
class TempReturn(Base):
    def visit_Lambda(self, node):
        return node

    def visit_Return(self, node):
        if node.value is None:
            return node
        t = self.fresh("_result")
        return [ast.Assign(targets=[name(t, ast.Store())], value=node.value), ast.Return(name(t))]


@kind
class FlipIf(Base):
    def visit_If(self, node):
        self.generic_visit(node)
        if node.orelse:
            return ast.If(test=ast.UnaryOp(ast.Not(), node.test), body=node.orelse,
                          orelse=node.body)
        return node

    def visit_IfExp(self, node):
        self.generic_visit(node)
        return ast.IfExp(test=ast.UnaryOp(ast.Not(), node.test), body=node.orelse,
                         orelse=node.body)


@kind
class CompToLoop(Base):
    """x = [e for t in it if c] -> a loop (function level only; the target must be unused outside)"""

    def visit_FunctionDef(self, node):
        self.generic_visit(node)
        stores = [m.id for m in ast.walk(node) if isinstance(m, ast.Name)]
        self.block(node, stores)
        return node

    def block(self, node, names):
        for f in ("body", "orelse", "finalbody"):
            b = getattr(node, f, None)
            if not isinstance(b, list):
                continue
            out = []
            for s in b:
                if not isinstance(s, (ast.FunctionDef, ast.ClassDef)):
                    self.block(s, names)
                if isinstance(s, ast.Assign) and isinstance(s.value, ast.ListComp) \
                        and len(s.value.generators) == 1 and len(s.targets) == 1 \
                        and not any(isinstance(m, (ast.ListComp, ast.Lambda, ast.GeneratorExp))
                                    for m in ast.walk(s.value.elt)):
                    g = s.value.generators[0]
                    t = self.fresh("_acc")
                    ren = {m.id: self.fresh("_it") for m in ast.walk(g.target)
                           if isinstance(m, ast.Name)}

                    def rn(x):
                        x = copy.deepcopy(x)
                        for m in ast.walk(x):
                            if isinstance(m, ast.Name) and m.id in ren:
                                m.id = ren[m.id]
                        return x
                    body = [ast.Expr(ast.Call(ast.Attribute(name(t), "append", ast.Load()),
                                              [rn(s.value.elt)], []))]
                    for c in reversed(g.ifs):
                        body = [ast.If(test=rn(c), body=body, orelse=[])]
                    out += [ast.Assign(targets=[name(t, ast.Store())], value=ast.List([], ast.Load())),
                            ast.For(target=rn(g.target), iter=g.iter, body=body, orelse=[]),
                            ast.Assign(targets=s.targets, value=name(t))]
                else:
                    out.append(s)
            setattr(node, f, out)


@kind
class RenameLocals(Base):
    def visit_FunctionDef(self, node):
        self.generic_visit(node)
        if getattr(self, "depth", 0):
            return node
        params = {a.arg for m in ast.walk(node)
                  if isinstance(m, (ast.FunctionDef, ast.Lambda))
                  for a in m.args.posonlyargs + m.args.args + m.args.kwonlyargs
                  + [x for x in (m.args.vararg, m.args.kwarg) if x]}
        skip = {n for m in ast.walk(node) if isinstance(m, (ast.Global, ast.Nonlocal))
                for n in m.names}
        skip |= {(a.asname or a.name).split(".")[0] for m in ast.walk(node)
                 if isinstance(m, (ast.Import, ast.ImportFrom)) for a in m.names}
        skip |= {m.name for m in ast.walk(node) if isinstance(m, (ast.FunctionDef, ast.ClassDef))}
        skip |= {m.name for m in ast.walk(node) if isinstance(m, ast.ExceptHandler) and m.name}
        loc = {m.id for m in ast.walk(node) if isinstance(m, ast.Name)
               and isinstance(m.ctx, ast.Store)} - params - skip
        if any(isinstance(m, ast.Name) and m.id in ("locals", "eval", "exec")
               for m in ast.walk(node)):
            return node
        for m in ast.walk(node):
            if isinstance(m, ast.Name) and m.id in loc:
                m.id += "_v"
        return node


@kind
class ExtractImpl(Base):
    """def f(self, a, b=1): body -> def f(...): return self._impl_f(a, b); def _impl_f(self, a, b): body"""

    def visit_ClassDef(self, node):
        out = []
        names = {m.name for m in node.body if isinstance(m, ast.FunctionDef)}
        for s in node.body:
            if not isinstance(s, ast.FunctionDef) or s.decorator_list or s.name.startswith("__") \
                    or s.name == "get_array_module" \
                    or any(isinstance(m, (ast.Yield, ast.YieldFrom)) for m in ast.walk(s)) \
                    or any(isinstance(m, ast.Name) and m.id in ("locals", "super")
                           for m in ast.walk(s)) or not s.args.args:
                out.append(s)
                continue
            a = s.args
            impl = ast.FunctionDef("_impl_%s_%s" % (node.name, s.name), copy.deepcopy(a), s.body, [],
                                   None, None, type_params=[])
            impl.args.defaults = []
            impl.args.kw_defaults = [None] * len(a.kwonlyargs)
            call = ast.Call(ast.Attribute(name(a.args[0].arg), impl.name, ast.Load()),
                            [name(x.arg) for x in a.args[1:]]
                            + ([ast.Starred(name(a.vararg.arg), ast.Load())] if a.vararg else []),
                            [ast.keyword(x.arg, name(x.arg)) for x in a.kwonlyargs]
                            + ([ast.keyword(None, name(a.kwarg.arg))] if a.kwarg else []))
            doc = s.body[:1] if isinstance(s.body[0], ast.Expr) and \
                isinstance(s.body[0].value, ast.Constant) else []
            out += [ast.FunctionDef(s.name, a, doc + [ast.Return(call)], [], s.returns, None,
                                    type_params=[]), impl]
        node.body = out
        return node


@kind
class HoistArgs(Base):
    """x = f(a, g(b)) -> t = g(b); x = f(a, t), for the last positional call argument"""

    def stmts(self, s):
        v = getattr(s, "value", None)
        if isinstance(s, (ast.Assign, ast.Return, ast.Expr)) and isinstance(v, ast.Call):
            f = v.func
            while isinstance(f, ast.Attribute):
                f = f.value
            if isinstance(f, ast.Name) and f.id != "super":
                for i, a in enumerate(v.args):
                    if isinstance(a, (ast.Name, ast.Constant)):
                        continue
                    if isinstance(a, ast.Call) and not (isinstance(a.func, ast.Name)
                                                        and a.func.id == "super"):
                        t = self.fresh("_arg")
                        v.args[i] = name(t)
                        return [ast.Assign(targets=[name(t, ast.Store())], value=a), s]
                    break
        return [s]

    def generic_visit(self, node):
        ast.NodeTransformer.generic_visit(self, node)
        for f in ("body", "orelse", "finalbody"):
            b = getattr(node, f, None)
            if isinstance(b, list):
                setattr(node, f, [x for s in b for x in
                                  (self.stmts(s) if isinstance(s, ast.stmt) else [s])])
        return node


@kind
class ElseAfterReturn(Base):
    """if c: return a; rest -> if c: return a else: rest"""

    def visit_FunctionDef(self, node):
        self.generic_visit(node)

        def go(b):
            for i, s in enumerate(b):
                if isinstance(s, ast.If) and not s.orelse and i + 1 < len(b) \
                        and isinstance(s.body[-1], (ast.Return, ast.Raise)):
                    s.orelse = go(b[i + 1:])
                    return b[:i + 1]
            return b
        node.body = go(node.body)
        return node


@kind
class SplitChain(Base):
    """x = a.b(c).d(e) -> t = a.b(c); x = t.d(e)"""

    def stmts(self, s):
        v = getattr(s, "value", None)
        if isinstance(s, (ast.Assign, ast.Return)) and isinstance(v, ast.Call) \
                and isinstance(v.func, ast.Attribute) and isinstance(v.func.value, ast.Call) \
                and not (isinstance(v.func.value.func, ast.Name)
                         and v.func.value.func.id == "super"):
            t = self.fresh("_recv")
            pre = ast.Assign(targets=[name(t, ast.Store())], value=v.func.value)
            v.func.value = name(t)
            return self.stmts(pre) + [s]
        return [s]

    generic_visit = HoistArgs.generic_visit


@kind
class InTuple(Base):
    """a in ["x", "y"] -> a == "x" or a == "y"; a not in -> and !="""

    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) == 1 and isinstance(node.ops[0], (ast.In, ast.NotIn)) \
                and isinstance(node.left, (ast.Name, ast.Attribute)) \
                and isinstance(node.comparators[0], (ast.List, ast.Tuple, ast.Set)) \
                and node.comparators[0].elts \
                and all(isinstance(e, ast.Constant) for e in node.comparators[0].elts):
            neg = isinstance(node.ops[0], ast.NotIn)
            return ast.BoolOp(ast.And() if neg else ast.Or(),
                              [ast.Compare(copy.deepcopy(node.left),
                                           [ast.NotEq() if neg else ast.Eq()], [e])
                               for e in node.comparators[0].elts])
        return node


@kind
class SelfAlias(Base):
    """methods work on a local alias of self"""

    def visit_ClassDef(self, node):
        for s in node.body:
            if isinstance(s, ast.FunctionDef) and s.args.args and s.args.args[0].arg == "self" \
                    and not any(isinstance(m, ast.Name) and m.id in ("super", "locals")
                                for m in ast.walk(s)):
                for m in ast.walk(s):
                    if isinstance(m, ast.Name) and m.id == "self":
                        m.id = "this"
                doc = 1 if isinstance(s.body[0], ast.Expr) and \
                    isinstance(s.body[0].value, ast.Constant) else 0
                s.body.insert(doc, ast.Assign(targets=[name("this", ast.Store())],
                                              value=name("self")))
        return node


@kind
class AndNest(Base):
    """if a and b: X -> if a: if b: X (no else)"""

    def visit_If(self, node):
        self.generic_visit(node)
        if not node.orelse and isinstance(node.test, ast.BoolOp) \
                and isinstance(node.test.op, ast.And):
            vs = node.test.values
            node.test = vs[0]
            rest = vs[1] if len(vs) == 2 else ast.BoolOp(ast.And(), vs[1:])
            node.body = [ast.If(test=rest, body=node.body, orelse=[])]
        return node


@kind
class IfExpToIf(Base):
    """x = a if c else b -> an if statement"""

    def visit_Assign(self, node):
        if isinstance(node.value, ast.IfExp) and len(node.targets) == 1:
            v = node.value
            return ast.If(test=v.test,
                          body=[ast.Assign(copy.deepcopy(node.targets), v.body)],
                          orelse=[ast.Assign(copy.deepcopy(node.targets), v.orelse)])
        return node

    def visit_Return(self, node):
        if isinstance(node.value, ast.IfExp):
            v = node.value
            return ast.If(test=v.test, body=[ast.Return(v.body)], orelse=[ast.Return(v.orelse)])
        return node

    def visit_ClassDef(self, node):
        node.body = [self.visit(s) if isinstance(s, ast.FunctionDef) else s for s in node.body]
        return node


@kind
class ModuleHelper(Base):
    """each straight-line self.attr = <expr over locals> assignment's value moves to a module
    function when it uses only local names"""

    def visit_Module(self, node):
        self.helpers = []
        mod = {m.id for s in node.body for m in ast.walk(s) if isinstance(m, ast.Name)
               and isinstance(m.ctx, ast.Store) and s in node.body
               and isinstance(s, ast.Assign)}
        for s in node.body:
            if isinstance(s, (ast.Import, ast.ImportFrom)):
                mod |= {(a.asname or a.name).split(".")[0] for a in s.names}
            elif isinstance(s, (ast.FunctionDef, ast.ClassDef)):
                mod.add(s.name)
        self.mod = mod
        self.generic_visit(node)
        i = max([k for k, s in enumerate(node.body)
                 if isinstance(s, (ast.Import, ast.ImportFrom))] or [-1]) + 1
        node.body[i:i] = self.helpers
        return node

    def visit_FunctionDef(self, node):
        loc = {a.arg for a in node.args.args + node.args.kwonlyargs
               + [x for x in (node.args.vararg, node.args.kwarg) if x]}
        loc |= {m.id for m in ast.walk(node) if isinstance(m, ast.Name)
                and isinstance(m.ctx, ast.Store)}
        loc |= {(a.asname or a.name).split(".")[0] for m in ast.walk(node)
                if isinstance(m, (ast.Import, ast.ImportFrom)) for a in m.names}
        self.loc = loc
        for f in ast.walk(node):
            if isinstance(f, (ast.FunctionDef, ast.Lambda)) and f is not node:
                return node
        node.body = [self.visit(s) for s in node.body]
        self.loc = None
        return node

    def visit_Assign(self, node):
        v = node.value
        loc = getattr(self, "loc", None)
        if loc is None or not isinstance(v, (ast.Call, ast.BinOp)):
            return node                 # module level: the helper may not exist yet
        if any(isinstance(m, (ast.ListComp, ast.GeneratorExp, ast.DictComp, ast.SetComp, ast.Lambda,
                              ast.NamedExpr)) for m in ast.walk(v)):
            return node
        ids = [m.id for m in ast.walk(v) if isinstance(m, ast.Name)]
        if "super" in ids or "locals" in ids:
            return node
        use = sorted({i for i in ids if i in loc})
        t = "_helper_%d" % (len(self.helpers) + 1)
        self.helpers.append(ast.FunctionDef(
            t, ast.arguments([], [ast.arg(u) for u in use], None, [], [], None, []),
            [ast.Return(v)], [], None, None, type_params=[]))
        node.value = ast.Call(name(t), [name(u) for u in use], [])
        return node


@kind
class NoOp(Base):
    def visit_FunctionDef(self, node):
        self.generic_visit(node)
        doc = 1 if isinstance(node.body[0], ast.Expr) and \
            isinstance(node.body[0].value, ast.Constant) else 0
        node.body.insert(doc, ast.Assign(targets=[name("_unused", ast.Store())],
                                         value=ast.Constant(0)))
        return node


@kind
class ReorderMethods(Base):
    def visit_ClassDef(self, node):
        fs = [s for s in node.body if isinstance(s, ast.FunctionDef) and not s.decorator_list]
        if len({f.name for f in fs}) == len(fs):
            it = iter(reversed(fs))
            ids = {id(f) for f in fs}
            used = {m.id for s in node.body if not isinstance(s, ast.FunctionDef)
                    for m in ast.walk(s) if isinstance(m, ast.Name)}
            used |= {m.id for s in node.body if isinstance(s, ast.FunctionDef)
                     for d in s.decorator_list for m in ast.walk(d) if isinstance(m, ast.Name)}
            if not used & {f.name for f in fs}:
                node.body = [next(it) if id(s) in ids else s for s in node.body]
        return node


def main(k, out, src="/repo"):
    if os.path.exists(out):
        shutil.rmtree(out)
    shutil.copytree(src, out, symlinks=True)
    for dp, dn, fn in os.walk(os.path.join(out, "chainladder")):
        if "tests" in dp.split(os.sep):
            continue
        for f in fn:
            if not f.endswith(".py"):
                continue
            p = os.path.join(dp, f)
            with open(p) as fh:
                t = ast.parse(fh.read())
            t = KINDS[k]().visit(t)
            ast.fix_missing_locations(t)
            with open(p, "w") as fh:
                fh.write(ast.unparse(t) + "\n")


if __name__ == "__main__":
    if len(sys.argv) < 3:
        print(" ".join(KINDS))
    else:
        main(*sys.argv[1:])
