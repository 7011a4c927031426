"""C14: every name a function reads has been given a value on every path that reads it."""
import ast

from . import common
from ..defassign import BUILTINS, Scope
from ..model import Program

RULE = ("in every function of the package (nested ones included) each read of a local name is "
        "preceded by a binding on every path through the syntax tree whose conditions are "
        "consistent; each read of a global name is of a builtin or of a name the module binds on "
        "every path through its body, also when optional libraries are missing; each name imported "
        "from a module of the package is defined there")
EXPLANATION = ("path-sensitive definite-assignment analysis of /repo/chainladder (no execution); "
               "conditions are normalised and followed symbolically as facts about expressions, "
               "so that repeated, complementary and exhaustive tests rule paths out; loops over "
               "literals are unrolled, other loops may run zero times")
ASSUMPTIONS = ["an attribute or property tested twice in one function gives the same answer unless "
               "the function rebinds its owner or assigns it",
               "an option whose documented values are guarded elsewhere (C12) has one of them",
               "importing a library may fail only inside try/except"]
# documented values of options that are refused otherwise (see C12)
DOMAINS = {"curve": ("exponential", "inverse_power"), "growth": ("loglogistic", "weibull"),
           "sigma_interpolation": ("log-linear", "mack"), "errors": ("ignore", "raise"),
           "style": ("ldf", "cdf")}


def never_return(prog):
    """Names of functions of which no definition in the package returns normally."""
    defs = {}
    for m in prog.modules.values():
        for n in ast.walk(m.tree):
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                defs.setdefault(n.name, []).append(n)
    quiet = set()
    for name, ns in defs.items():
        if name.startswith("__"):
            continue
        ok = True
        for n in ns:
            if any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(n)):
                ok = False
                break
            s = Scope(n, set(), set(), set(), lambda *a: None, set(), {})
            if s.run() or s.rets:
                ok = False
                break
        if ok:
            quiet.add(name)
    return quiet


def module_bindings(prog):
    out = {}
    for m in prog.modules.values():
        s = Scope(m.tree, set(), set(), set(), lambda *a: None, set(), {})
        names = set(s.local)
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Global):
                names.update(n.names)
        out[m.name] = names
    for _ in range(4):                       # star imports
        for m in prog.modules.values():
            for n in ast.walk(m.tree):
                if isinstance(n, ast.ImportFrom) and any(a.name == "*" for a in n.names):
                    src = resolve(m, n)
                    out[m.name] |= {x for x in out.get(src, ()) if not x.startswith("_")}
                    out[m.name].discard("*")
    return out


def resolve(m, n):
    if not n.level:
        return n.module
    parts = m.name.split(".")
    if not m.is_pkg:
        parts = parts[:-1]
    if n.level > 1:
        parts = parts[:-(n.level - 1)]
    return ".".join(parts + ([n.module] if n.module else []))


def run(ctx):
    prog = Program()
    quiet = never_return(prog)
    bindings = module_bindings(prog)
    state = {"m": None}

    def report(kind, name, node, st, scope):
        where = "%s:%s" % (state["m"].rel, scope.owner or "<module>")
        if kind == "unassigned":
            conds = sorted(
                ("%s%s" % ("" if v is True else "not ", k[1])) if k[0] == "is" else
                "%s %s %s" % (k[1], v[0], sorted(x[1] for x in v[1])) for k, v in st.facts.items())
            msg = "'%s' may be read before it is assigned (line %d), when %s" % (
                name, getattr(node, "lineno", 0), "; ".join(conds[:6]) or "that path is taken")
        else:
            msg = "'%s' (line %d) is not bound in the module on every path, nor a builtin" % (
                name, getattr(node, "lineno", 0))
        ctx.violation("%s %s %s" % (kind, where, name), "%s: %s" % (where, msg))

    def analyse(node, enclosing, mnames, definite, owner, cls=None):
        s = Scope(node, enclosing, mnames, definite, report, quiet, DOMAINS, owner)
        s.run()
        ctx.count("scopes")
        ctx.count("reads", s.reads)
        inner = set(enclosing) if s.is_class or s.is_module else set(enclosing) | s.local
        if not (s.is_module or s.is_class):
            ctx.count("functions")
        for c in s.children:
            q = (owner + "." if owner else "") + c.name
            analyse(c, inner, mnames, definite, q)
        return s

    for m in sorted(prog.modules.values(), key=lambda m: m.name):
        state["m"] = m
        mnames = bindings[m.name]
        star = any(isinstance(n, ast.ImportFrom) and any(a.name == "*" for a in n.names)
                   for n in ast.walk(m.tree))
        s = Scope(m.tree, set(), mnames, set(), report, quiet, DOMAINS, "")
        if star:
            s.enclosing = {x for x in mnames if x not in s.local}
        exits = s.run()
        definite = frozenset.intersection(*[x.got for x in exits]) if exits else frozenset()
        if star:
            definite = definite | (mnames - s.local)
        glob = {x for n in ast.walk(m.tree) if isinstance(n, ast.Global) for x in n.names}
        definite = set(definite) | (glob - s.local)
        ctx.count("modules")
        for c in s.children:
            analyse(c, set(), mnames, definite, c.name)
        # functions defined in branches the module analysis did not reach are still read
        for n in ast.walk(m.tree):
            if isinstance(n, ast.ImportFrom):
                src = resolve(m, n)
                if src in prog.modules:
                    for a in n.names:
                        ctx.count("package_imports")
                        if a.name != "*" and a.name not in bindings[src] and \
                                src + "." + a.name not in prog.modules:
                            ctx.violation("import %s %s" % (m.rel, a.name),
                                          "%s: line %d imports '%s', which %s does not define" % (
                                              m.rel, n.lineno, a.name, src))
                elif src and src.split(".")[0] == "chainladder":
                    ctx.violation("import %s %s" % (m.rel, src),
                                  "%s: line %d imports the module %s, which does not exist" % (
                                      m.rel, n.lineno, src))
    ctx.need("functions", 350)
    ctx.need("reads", 5000)
    ctx.lists["never_returning_functions"] = sorted(quiet)
