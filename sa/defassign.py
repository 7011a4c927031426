"""Path-sensitive definite assignment of names, over the syntax tree of one scope at a time.

A state is (assigned names, facts about conditions, aliases of names).  Conditions are normalised
(negations, aliases substituted by what they stand for) so that repeated and complementary tests
exclude the paths they exclude at run time.  Loops over literals are unrolled.
"""
import ast
import builtins
import copy

BUILTINS = set(dir(builtins)) | {"__file__", "__name__", "__doc__", "__path__", "__package__",
                                 "__spec__", "__class__", "__loader__", "__builtins__"}
MAX_STATES = 160
COMP = (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)
FUNC = (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)
NEG = {ast.NotEq: ast.Eq, ast.IsNot: ast.Is, ast.NotIn: ast.In, ast.GtE: ast.Lt, ast.LtE: ast.Gt}
FLIP = {ast.Gt: ast.Lt, ast.Lt: ast.Gt}


def scope_names(node):
    """(names bound in this scope, names declared global/nonlocal)."""
    bound, outer = set(), set()

    def collect(n):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            bound.add(n.name)
            for d in n.decorator_list:
                collect(d)
            return
        if isinstance(n, ast.Lambda):
            return
        if isinstance(n, COMP):
            for s in ast.walk(n):
                if isinstance(s, ast.NamedExpr):
                    bound.add(s.target.id)
            return
        if isinstance(n, (ast.Global, ast.Nonlocal)):
            outer.update(n.names)
        elif isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            bound.add(n.id)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for al in n.names:
                bound.add((al.asname or al.name).split(".")[0])
        elif isinstance(n, ast.ExceptHandler) and n.name:
            bound.add(n.name)
        elif isinstance(n, (ast.MatchAs, ast.MatchStar)) and n.name:
            bound.add(n.name)
        for c in ast.iter_child_nodes(n):
            collect(c)

    if isinstance(node, FUNC):
        a = node.args
        for x in a.posonlyargs + a.args + a.kwonlyargs + [y for y in (a.vararg, a.kwarg) if y]:
            bound.add(x.arg)
        body = [node.body] if isinstance(node, ast.Lambda) else node.body
    else:
        body = node.body
    for s in body:
        collect(s)
    return bound - outer, outer


def free_names(node):
    """Names a nested function or class reads from outside itself."""
    bound, _ = scope_names(node)
    out = set()
    body = [node.body] if isinstance(node, ast.Lambda) else node.body

    def visit(n, extra):
        if isinstance(n, FUNC):
            out.update(free_names(n) - bound - extra)
            for d in n.args.defaults + [k for k in n.args.kw_defaults if k]:
                visit(d, extra)
            return
        if isinstance(n, COMP):
            ex = set(extra)
            for g in n.generators:
                visit(g.iter, ex)
                ex |= {x.id for x in ast.walk(g.target) if isinstance(x, ast.Name)}
                for i in g.ifs:
                    visit(i, ex)
            for f in ("elt", "key", "value"):
                if hasattr(n, f):
                    visit(getattr(n, f), ex)
            return
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id not in bound | extra:
            out.add(n.id)
        for c in ast.iter_child_nodes(n):
            visit(c, extra)
    for s in body:
        visit(s, frozenset())
    return out


class St:
    __slots__ = ("got", "facts", "alias", "_k")

    def __init__(self, got, facts, alias):
        self.got, self.facts, self.alias = got, facts, alias
        self._k = None

    def key(self):
        if self._k is None:
            self._k = (self.got, frozenset(self.facts.items()),
                       frozenset((n, ast.dump(e)) for n, e in self.alias.items()))
        return self._k

    def having(self, *names):
        return St(self.got | set(names), self.facts, self.alias)


def dedupe(sts):
    out = {}
    for s in sts:
        out.setdefault(s.key(), s)
    sts = list(out.values())
    if len(sts) > MAX_STATES:
        # forget the conditions first, the assigned sets only if that is not enough
        by = {}
        for s in sts:
            by.setdefault(s.got, []).append(s)
        sts = []
        for got, l in by.items():
            facts = dict(set.intersection(*[set(x.facts.items()) for x in l]))
            alias = {n: e for n, e in l[0].alias.items()
                     if all(n in x.alias and ast.dump(x.alias[n]) == ast.dump(e) for x in l)}
            sts.append(St(got, facts, alias))
    return sts


class Subst(ast.NodeTransformer):
    def __init__(self, alias):
        self.alias = alias

    def visit_Name(self, n):
        e = self.alias.get(n.id)
        return copy.deepcopy(e) if e is not None and isinstance(n.ctx, ast.Load) else n


PURE = (ast.Name, ast.Attribute, ast.Constant, ast.Load, ast.Compare, ast.BoolOp, ast.UnaryOp,
        ast.cmpop, ast.boolop, ast.unaryop, ast.Tuple, ast.List, ast.Set, ast.Dict, ast.Subscript,
        ast.expr_context)
PURE_CALLS = {"type", "isinstance", "len", "hasattr", "callable", "list", "set", "tuple", "min", "max"}


def pure(e):
    for n in ast.walk(e):
        if isinstance(n, ast.Call):
            if not (isinstance(n.func, ast.Name) and n.func.id in PURE_CALLS) or n.keywords:
                return False
        elif not isinstance(n, PURE):
            return False
    return True


class Scope:
    def __init__(self, node, enclosing, module_names, definite, report, no_return, domains,
                 owner=""):
        self.node = node
        self.local, self.outer = scope_names(node)
        self.is_module = isinstance(node, ast.Module)
        self.is_class = isinstance(node, ast.ClassDef)
        self.enclosing = enclosing          # names visible from enclosing functions
        self.module_names, self.definite = module_names, definite
        self.report, self.no_return, self.domains = report, no_return, domains
        self.nested = {}                    # local function name -> free names of ours
        self.owner = owner
        self.reads = self.paths = 0
        self.throw = []                     # stack of state collectors of enclosing try bodies
        self.loops = []
        self.children = []
        self.rets = 0

    # ---- running ----
    def run(self):
        start = St(frozenset(), {}, {})
        n = self.node
        if isinstance(n, FUNC):
            a = n.args
            start = start.having(*[x.arg for x in a.posonlyargs + a.args + a.kwonlyargs
                                   + [y for y in (a.vararg, a.kwarg) if y]])
        if isinstance(n, ast.Lambda):
            out = self.ev(n.body, [start])
        else:
            out = self.block(n.body, [start])
        self.exit_states = out
        return out

    def note(self, sts):
        for t in self.throw:
            t.extend(sts)

    def block(self, stmts, sts):
        for s in stmts:
            if not sts:
                break
            self.note(sts)
            sts = dedupe(self.stmt(s, sts))
            self.paths = max(self.paths, len(sts))
        self.note(sts)
        return sts

    # ---- reading names ----
    def read(self, name, sts, node, extra):
        if name in extra:
            return sts
        self.reads += 1
        if name in self.local:
            bad = [s for s in sts if name not in s.got]
            if bad and self.is_class or self.is_module:
                bad = [s for s in bad if not self.global_ok(name)] if bad else bad
            if bad and not (name in BUILTINS and (self.is_module or self.is_class)):
                self.report("unassigned", name, node, bad[0], self)
                sts = [s.having(name) for s in sts]
            for fr in self.nested.get(name, ()):
                sts = self.read(fr, sts, node, extra)
        elif not self.global_ok(name):
            self.report("undefined", name, node, None, self)
        return sts

    def global_ok(self, name):
        if name in self.enclosing or name in BUILTINS:
            return True
        if self.is_module:
            return False
        if name in self.module_names and name not in self.definite:
            return False
        return name in self.module_names

    # ---- expressions ----
    def ev(self, e, sts, extra=frozenset()):
        if e is None or not sts:
            return sts
        if isinstance(e, ast.Name):
            if isinstance(e.ctx, ast.Load):
                return self.read(e.id, sts, e, extra)
            return sts
        if isinstance(e, ast.BoolOp):
            want = isinstance(e.op, ast.And)
            done, cur = [], sts
            for i, v in enumerate(e.values):
                cur = self.ev(v, cur, extra)
                if i < len(e.values) - 1:
                    done += self.assume(v, cur, not want)
                    cur = self.assume(v, cur, want)
            return dedupe(done + cur) if any(isinstance(x, ast.NamedExpr) for x in ast.walk(e)) \
                else self._known(sts, done + cur)
        if isinstance(e, ast.IfExp):
            sts = self.ev(e.test, sts, extra)
            a = self.ev(e.body, self.assume(e.test, sts, True), extra)
            b = self.ev(e.orelse, self.assume(e.test, sts, False), extra)
            return self._known(sts, a + b)
        if isinstance(e, ast.NamedExpr):
            sts = self.ev(e.value, sts, extra)
            return self.bind(e.target, sts, e.value)
        if isinstance(e, COMP):
            ex = set(extra)
            inner = sts
            for i, g in enumerate(e.generators):
                inner = self.ev(g.iter, inner, frozenset(ex))
                ex |= {x.id for x in ast.walk(g.target) if isinstance(x, ast.Name)}
                for c in g.ifs:
                    inner = self.ev(c, inner, frozenset(ex))
                    inner = self.assume(c, inner, True)
            for f in ("key", "value", "elt"):
                if hasattr(e, f):
                    self.ev(getattr(e, f), inner, frozenset(ex))
            return sts
        if isinstance(e, ast.Lambda):
            for d in e.args.defaults + [k for k in e.args.kw_defaults if k]:
                sts = self.ev(d, sts, extra)
            for n in sorted(free_names(e)):
                if n not in extra:
                    sts = self.read(n, sts, e, extra)
            return sts
        if isinstance(e, ast.Call):
            sts = self.ev(e.func, sts, extra)
            for a in e.args:
                sts = self.ev(a, sts, extra)
            for k in e.keywords:
                sts = self.ev(k.value, sts, extra)
            nm = e.func.id if isinstance(e.func, ast.Name) else (
                e.func.attr if isinstance(e.func, ast.Attribute) else None)
            if nm in self.no_return:
                self.note(sts)
                return []
            return sts
        for c in ast.iter_child_nodes(e):
            if isinstance(c, ast.expr):
                sts = self.ev(c, sts, extra)
            elif isinstance(c, (ast.keyword, ast.FormattedValue, ast.Slice)):
                sts = self.ev(getattr(c, "value", c), sts, extra)
        return sts

    def _known(self, before, after):
        """The states of `before`, with what was assigned/reported on the way."""
        if not after:
            return []
        if all(a.got == b.got for a in after for b in before):
            return before
        got = frozenset.intersection(*[a.got for a in after])
        return [St(s.got | (got - s.got), s.facts, s.alias) for s in before]

    # ---- conditions ----
    def norm(self, e, s):
        return Subst(s.alias).visit(copy.deepcopy(e))

    def const(self, e):
        """A hashable stand-in for a value that never changes, or None."""
        if isinstance(e, ast.Constant):
            return ("c", repr(e.value))
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.USub) \
                and isinstance(e.operand, ast.Constant):
            return ("c", repr(-e.operand.value) if not isinstance(e.operand.value, str) else "?")
        if isinstance(e, ast.Name) and e.id not in self.local and e.id not in self.enclosing:
            return ("g", e.id)
        if isinstance(e, ast.Attribute):
            b = self.const(e.value)
            return ("g", b[1] + "." + e.attr) if b and b[0] == "g" else None
        return None

    def assume(self, test, sts, truth):
        out = []
        for s in sts:
            out += self.assume1(self.norm(test, s), s, truth)
        return dedupe(out)

    def assume1(self, t, s, truth):
        if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
            return self.assume1(t.operand, s, not truth)
        if isinstance(t, ast.NamedExpr):
            return self.assume1(t.value, s, truth)
        if isinstance(t, ast.BoolOp):
            conj = isinstance(t.op, ast.And) == truth
            want = truth
            if conj:
                cur = [s]
                for v in t.values:
                    cur = [y for x in cur for y in self.assume1(v, x, want)]
                return cur
            out, cur = [], [s]
            for v in t.values:
                out += [y for x in cur for y in self.assume1(v, x, want)]
                cur = [y for x in cur for y in self.assume1(v, x, not want)]
            return out
        if isinstance(t, ast.Constant):
            return [s] if bool(t.value) == truth else []
        if isinstance(t, (ast.List, ast.Tuple, ast.Set)) and not any(
                isinstance(x, ast.Starred) for x in t.elts):
            return [s] if bool(t.elts) == truth else []
        if isinstance(t, ast.Compare) and len(t.ops) > 1:
            parts, left = [], t.left
            for op, r in zip(t.ops, t.comparators):
                parts.append(ast.Compare(left, [op], [r]))
                left = r
            return self.assume1(ast.BoolOp(ast.And(), parts), s, truth)
        if isinstance(t, ast.Compare):
            op, l, r = type(t.ops[0]), t.left, t.comparators[0]
            if op in NEG:
                op, truth = NEG[op], not truth
            if op in (ast.Eq, ast.Is) and self.const(l) and not self.const(r):
                l, r = r, l
            if op in (ast.Eq, ast.Is):
                c = self.const(r)
                if c:
                    return self.member(l, {c}, s, truth)
            if op is ast.In and isinstance(r, (ast.List, ast.Tuple, ast.Set)):
                cs = [self.const(x) for x in r.elts]
                if all(cs):
                    return self.member(l, set(cs), s, truth)
            if op is ast.In and isinstance(r, ast.Dict):
                cs = [self.const(x) if x is not None else None for x in r.keys]
                if all(cs):
                    return self.member(l, set(cs), s, truth)
            if op is ast.In and isinstance(r, ast.Call) and isinstance(r.func, ast.Attribute) \
                    and r.func.attr == "keys" and isinstance(r.func.value, ast.Dict):
                cs = [self.const(x) if x is not None else None for x in r.func.value.keys]
                if all(cs):
                    return self.member(l, set(cs), s, truth)
            if op is ast.Gt:
                op, l, r = ast.Lt, r, l
            return self.fact(ast.unparse(ast.Compare(l, [op()], [r])), s, truth)
        if isinstance(t, ast.Call) and isinstance(t.func, ast.Name) and t.func.id == "bool" \
                and len(t.args) == 1:
            return self.assume1(t.args[0], s, truth)
        # truth of a value
        txt = ast.unparse(t)
        dom = s.facts.get(("val", txt))
        if dom:
            kind, vals = dom
            if kind == "in":
                tv = {_truth(v) for v in vals}
                if tv == {True} and not truth or tv == {False} and truth:
                    return []
        res = self.fact(txt, s, truth)
        if truth:
            res = [y for x in res for y in self.member(t, {("c", "None")}, x, False)]
        return res

    def fact(self, txt, s, truth):
        k = ("is", txt)
        if k in s.facts:
            return [s] if s.facts[k] == truth else []
        return [St(s.got, {**s.facts, k: truth}, s.alias)]

    def member(self, subj, vals, s, truth):
        c = self.const(subj)
        if c:
            if c[0] == "c" and all(v[0] == "c" for v in vals):
                return [s] if (c in vals) == truth else []
            return self.fact("%s in %s" % (c, sorted(vals)), s, truth)
        txt = ast.unparse(subj)
        k = ("val", txt)
        if k not in s.facts and isinstance(subj, ast.Attribute) and subj.attr in self.domains \
                and isinstance(subj.value, ast.Name) and subj.value.id in ("self", "obj"):
            kind, cur = "in", frozenset(("c", repr(v)) for v in self.domains[subj.attr])
        else:
            kind, cur = s.facts.get(k, ("notin", frozenset()))
        if ("is", txt) in s.facts and vals == {("c", "None")} and truth and s.facts[("is", txt)]:
            return []
        if kind == "in":
            new = cur & vals if truth else cur - vals
            if not new:
                return []
            return [St(s.got, {**s.facts, k: ("in", frozenset(new))}, s.alias)]
        if truth:
            new = frozenset(vals) - cur
            if not new:
                return []
            return [St(s.got, {**s.facts, k: ("in", new)}, s.alias)]
        new = cur | frozenset(vals)
        for dom in self.domains.values():
            if all(("c", repr(v)) in new for v in dom):
                return []               # none of an option's documented values: refused elsewhere
        return [St(s.got, {**s.facts, k: ("notin", new)}, s.alias)]

    # ---- binding ----
    def kill(self, s, name=None, attr=None):
        def hit(txt):
            try:
                t = ast.parse(txt, mode="eval")
            except SyntaxError:
                return True
            for n in ast.walk(t):
                if name is not None and isinstance(n, ast.Name) and n.id == name:
                    return True
                if attr is not None and ast.unparse(n) == attr:
                    return True
            return False
        facts = {k: v for k, v in s.facts.items() if not hit(k[1])}
        alias = {n: e for n, e in s.alias.items() if n != name and not hit(ast.unparse(e))}
        return St(s.got, facts, alias)

    def bind(self, target, sts, value=None):
        if isinstance(target, ast.Name):
            out = []
            for s in sts:
                e = self.norm(value, s) if value is not None else None
                t = self.kill(s, name=target.id).having(target.id)
                if e is not None and pure(e) and not any(
                        isinstance(n, ast.Name) and n.id == target.id for n in ast.walk(e)):
                    t = St(t.got, t.facts, {**t.alias, target.id: e})
                out.append(t)
            return out
        if isinstance(target, (ast.Tuple, ast.List)):
            vals = [None] * len(target.elts)
            if isinstance(value, (ast.Tuple, ast.List)) and len(value.elts) == len(vals) and \
                    not any(isinstance(x, ast.Starred) for x in value.elts + target.elts):
                names = {x.id for t in target.elts for x in ast.walk(t) if isinstance(x, ast.Name)}
                if not any(isinstance(x, ast.Name) and x.id in names for x in ast.walk(value)):
                    vals = value.elts
            for t, v in zip(target.elts, vals):
                sts = self.bind(t, sts, v)
            return sts
        if isinstance(target, ast.Starred):
            return self.bind(target.value, sts)
        sts = self.ev_target(target, sts)
        txt = ast.unparse(target)
        return [self.kill(s, attr=txt) for s in sts]

    def ev_target(self, t, sts):
        if isinstance(t, ast.Attribute):
            return self.ev(t.value, sts)
        if isinstance(t, ast.Subscript):
            return self.ev(t.slice, self.ev(t.value, sts))
        return sts

    # ---- statements ----
    def stmt(self, n, sts):
        m = getattr(self, "s_" + type(n).__name__, None)
        if m is not None:
            return m(n, sts)
        for c in ast.iter_child_nodes(n):
            if isinstance(c, ast.expr):
                sts = self.ev(c, sts)
        return sts

    def s_Global(self, n, sts):
        return sts

    s_Nonlocal = s_Global

    def s_Assign(self, n, sts):
        sts = self.ev(n.value, sts)
        for t in n.targets:
            sts = self.bind(t, sts, n.value)
        return sts

    def s_AnnAssign(self, n, sts):
        if n.value is None:
            return sts
        return self.bind(n.target, self.ev(n.value, sts), n.value)

    def s_AugAssign(self, n, sts):
        if isinstance(n.target, ast.Name):
            sts = self.read(n.target.id, sts, n, frozenset())
        sts = self.ev(n.value, sts)
        return self.bind(n.target, sts)

    def s_Delete(self, n, sts):
        for t in n.targets:
            if isinstance(t, ast.Name):
                sts = self.read(t.id, sts, n, frozenset())
                sts = [self.kill(s, name=t.id) for s in sts]
                sts = [St(s.got - {t.id}, s.facts, s.alias) for s in sts]
            else:
                sts = self.ev_target(t, sts)
        return sts

    def s_Return(self, n, sts):
        sts = self.ev(n.value, sts)
        self.rets += bool(sts)
        self.note(sts)
        return []

    def s_Raise(self, n, sts):
        sts = self.ev(n.cause, self.ev(n.exc, sts))
        self.note(sts)
        return []

    def s_Assert(self, n, sts):
        sts = self.ev(n.test, sts)
        if n.msg is not None:
            self.ev(n.msg, self.assume(n.test, sts, False))
        return self.assume(n.test, sts, True)

    def s_If(self, n, sts):
        sts = self.ev(n.test, sts)
        a = self.block(n.body, self.assume(n.test, sts, True))
        b = self.block(n.orelse, self.assume(n.test, sts, False))
        return a + b

    def s_FunctionDef(self, n, sts):
        for d in n.decorator_list + n.args.defaults + [k for k in n.args.kw_defaults if k]:
            sts = self.ev(d, sts)
        if not self.is_module and not self.is_class:
            self.nested[n.name] = sorted((free_names(n) & self.local) - {n.name})
        self.children.append(n)
        return self.bind(ast.Name(n.name, ast.Store()), sts)

    s_AsyncFunctionDef = s_FunctionDef

    def s_ClassDef(self, n, sts):
        for d in n.decorator_list + n.bases + [k.value for k in n.keywords]:
            sts = self.ev(d, sts)
        self.children.append(n)
        return self.bind(ast.Name(n.name, ast.Store()), sts)

    def s_Import(self, n, sts):
        for al in n.names:
            nm = (al.asname or al.name).split(".")[0]
            sts = [self.kill(s, name=nm).having(nm) for s in sts]
        return sts

    s_ImportFrom = s_Import

    def s_With(self, n, sts):
        swallow = False
        for i in n.items:
            sts = self.ev(i.context_expr, sts)
            if "suppress" in ast.unparse(i.context_expr):
                swallow = True
            if i.optional_vars is not None:
                sts = self.bind(i.optional_vars, sts)
        if not swallow:
            return self.block(n.body, sts)
        self.throw.append([])
        out = self.block(n.body, sts)
        return out + self.throw.pop()

    s_AsyncWith = s_With

    def s_Match(self, n, sts):
        sts = self.ev(n.subject, sts)
        out = []
        closed = False
        for c in n.cases:
            s = sts
            for x in ast.walk(c.pattern):
                if isinstance(x, (ast.MatchAs, ast.MatchStar)) and x.name:
                    s = self.bind(ast.Name(x.name, ast.Store()), s)
            if c.guard is not None:
                s = self.assume(c.guard, self.ev(c.guard, s), True)
            elif isinstance(c.pattern, ast.MatchAs) and c.pattern.pattern is None:
                closed = True
            out += self.block(c.body, s)
        return out if closed else out + sts

    def s_Try(self, n, sts):
        self.throw.append([])
        ok = self.block(n.body, sts)
        thrown = dedupe(self.throw.pop())
        if n.finalbody:
            self.throw.append([])
        out = self.block(n.orelse, ok)
        for h in n.handlers:
            s = self.ev(h.type, thrown)
            if h.name:
                s = [self.kill(x, name=h.name).having(h.name) for x in s]
            s = self.block(h.body, s)
            if h.name:
                s = [St(x.got - {h.name}, x.facts, x.alias) for x in s]
            out = out + s
        if n.finalbody:
            exc = dedupe(self.throw.pop() + thrown)
            self.block(n.finalbody, exc)
            out = self.block(n.finalbody, dedupe(out))
        return out

    s_TryStar = s_Try

    # loops
    def literal(self, e, s):
        """Elements of a literal iterated over, or None."""
        e = self.norm(e, s)
        if isinstance(e, ast.Call) and not e.keywords:
            if isinstance(e.func, ast.Attribute) and not e.args:
                d = e.func.value
                if isinstance(d, ast.Dict) and all(k is not None for k in d.keys):
                    if e.func.attr == "keys":
                        return list(d.keys)
                    if e.func.attr == "values":
                        return list(d.values)
                    if e.func.attr == "items":
                        return [ast.Tuple([k, v], ast.Load()) for k, v in zip(d.keys, d.values)]
            if isinstance(e.func, ast.Name) and e.func.id == "range" and len(e.args) <= 2 and \
                    all(isinstance(a, ast.Constant) and isinstance(a.value, int) for a in e.args):
                return [ast.Constant(i) for i in range(*[a.value for a in e.args])]
            if isinstance(e.func, ast.Name) and e.func.id == "enumerate" and len(e.args) == 1:
                l = self.literal(e.args[0], s)
                return l and [ast.Tuple([ast.Constant(i), x], ast.Load()) for i, x in enumerate(l)]
            if isinstance(e.func, ast.Name) and e.func.id in ("list", "tuple", "sorted", "reversed") \
                    and len(e.args) == 1:
                return self.literal(e.args[0], s)
        if isinstance(e, ast.BinOp) and isinstance(e.op, ast.Add):
            a, b = self.literal(e.left, s), self.literal(e.right, s)
            if a or b:
                return (a or []) + (b or []) if a is not None and b is not None else \
                    [None] * len((a or []) + (b or []))
            return None
        if isinstance(e, ast.Dict):
            return list(e.keys) if all(k is not None for k in e.keys) else None
        if isinstance(e, (ast.List, ast.Tuple, ast.Set)) and not any(
                isinstance(x, ast.Starred) for x in e.elts):
            return list(e.elts)
        return None

    def loop(self, n, enter, sts, done):
        """Body repeated; `enter` makes the states that start one iteration."""
        self.loops.append(([], []))
        seen, cur, rounds = {}, sts, 0
        while cur and rounds < 6:
            rounds += 1
            out = self.block(n.body, enter(cur))
            brk, cont = self.loops[-1]
            out = dedupe(out + cont)
            cont.clear()
            new = []
            for s in out:
                if s.key() not in seen:
                    seen[s.key()] = s
                    new.append(s)
            cur = new
        brk, _ = self.loops.pop()
        return list(seen.values()), brk

    def s_For(self, n, sts):
        sts = self.ev(n.iter, sts)
        out = []
        generic = []
        for s in sts:
            el = self.literal(n.iter, s)
            if el is not None and 0 < len(el) <= 8:
                self.loops.append(([], []))
                cur = [s]
                for x in el:
                    cur = self.block(n.body, self.bind(n.target, cur, x))
                    cur = dedupe(cur + self.loops[-1][1])
                    self.loops[-1][1].clear()
                brk, _ = self.loops.pop()
                out += self.block(n.orelse, cur) + brk
            else:
                generic.append((s, bool(el)))
        for once in (True, False):
            g = [s for s, o in generic if o == once]
            if g:
                after, brk = self.loop(n, lambda c: self.bind(n.target, c), g, None)
                after = dedupe(after + ([] if once else g))
                out += self.block(n.orelse, after) + brk
        return out

    s_AsyncFor = s_For

    def s_While(self, n, sts):
        first = self.ev(n.test, sts)

        def enter(c):
            return self.assume(n.test, self.ev(n.test, c), True)
        after, brk = self.loop(n, enter, first, None)
        out = self.assume(n.test, dedupe(first + after), False)
        return self.block(n.orelse, out) + brk

    def s_Break(self, n, sts):
        self.loops[-1][0].extend(sts)
        self.note(sts)
        return []

    def s_Continue(self, n, sts):
        self.loops[-1][1].extend(sts)
        self.note(sts)
        return []


def _truth(v):
    if v[0] == "g":
        return True
    return v[1] not in ("None", "0", "0.0", "''", "False", "()")
