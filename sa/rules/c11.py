"""C11: no call leaves traces outside the objects it was given or returns."""
from . import common
from .. import runner
from ..engine import AV_T, C, E, MISSING
from ..programs import package_fn, user
from ..scenarios import Scenario

RULE = ("no store reachable from fitting, transforming, predicting, reading results or a Triangle "
        "operation targets a package module, class, function attribute, default argument, "
        "chainladder option or an attribute of another library; no reachable call changes "
        "interpreter- or library-wide state (numpy error state, random seeds, pandas options, "
        "warning filters outside catch_warnings, environment, working directory); no memoised "
        "function hands out shared mutable objects. Options: set_option changes exactly the named "
        "option, reset_option restores every one to its initial value, array_backend and "
        "auto_sparse change their own option")
EXPLANATION = common.ENGINE + (". Module namespaces, class attributes and default arguments are "
    "frozen after import; the option functions are interpreted separately, one program per "
    "option.")
ASSUMPTIONS = common.ASSUME + [
    "compatibility attributes set on third-party modules while the package is imported are "
    "outside the property"]
KINDS = ("mutate", "rebind")


def content(I, av):
    """Options' values as plain data (lists by content)."""
    out = set()
    for a in av:
        if a[0] == "c":
            out.add(repr(a[2]))
        elif a[0] == "o":
            ex = I.exact_elems(frozenset([a]))
            out.add("?" if ex is None else repr([sorted(map(repr, (x[2] if x[0] == "c" else "?"
                                                                 for x in e))) for e in ex]))
        else:
            out.add(str(a)[:60])
    return sorted(out)


def opt_names(s):
    I = s.I
    env = I.modenv["chainladder"]
    (o,) = [a for a in I.heap[(env, "options")]]
    ci = I.meta[o[1]].ci
    names = set(n for n, v in ci.attrs.items() if n.isupper())
    names |= set(n for n in I.fields[o[1]] if isinstance(n, str) and n.isupper())
    return frozenset([o]), sorted(names)


def snapshot(s, opts, names):
    return {n: content(s.I, s.I.load_attr(opts, n, None, default=frozenset())) for n in names}


def options(what, name):
    s = Scenario()
    I = s.I
    opts, names = opt_names(s)
    f = {"names": names, "before": snapshot(s, opts, names)}
    v = C("some other value")
    if what == "set":
        s.call(opts, "set_option", [name, v])
        f["status"] = s.status("run")
        f["after"] = snapshot(s, opts, names)
        r = s.call(opts, "get_option", [name])
        f["got"] = content(I, r or E)
        env = I.modenv["chainladder"]
        s.call(opts, "reset_option")
        f["reset_status"] = s.status("run")
        f["reset"] = snapshot(s, opts, names)
    elif what == "fn":
        s.fn(name, [v])
        f["status"] = s.status("run")
        f["after"] = snapshot(s, opts, names)
    elif what == "reset":
        for n in names:
            s.call(opts, "set_option", [n, v])
        s.call(opts, "reset_option")
        f["status"] = s.status("run")
        f["after"] = snapshot(s, opts, names)
    else:
        f["status"] = "ok"
    return s, f


def run(ctx):
    res = common.estimators(ctx) + common.ops(ctx, None, 120)
    for r in res:
        for e in r["events"]:
            if (e.kind in KINDS and e.label in ("GLOBAL", "EXTERNAL")) or e.kind == "process":
                common.report(ctx, r, e)
    ctx.count("programs_free_of_global_effects", len(res))
    s = Scenario()
    opts, names = opt_names(s)
    ctx.lists["options"] = names
    ctx.count("options", len(names))
    ctx.need("options", 4)
    tasks = [("set", n) for n in names] + [("fn", "array_backend"), ("fn", "auto_sparse"),
                                           ("reset", "")]
    own = {"array_backend": "ARRAY_BACKEND", "auto_sparse": "AUTO_SPARSE"}
    new = [repr("some other value")]
    for r in runner.run(runner.scen_tasks("c11", "options", tasks)):
        what, n = r["task"][1][2]
        if r["error"]:
            ctx.broken.append("%s: %s" % (r["task"][1], r["error"][:300]))
            continue
        f = r["facts"]
        ctx.count("option_programs")
        if f["status"] != "ok":
            ctx.violation("options %s %s|raises" % (what, n), "options: %s %s raises" % (what, n))
            continue
        if what == "reset":
            exp = f["before"]
        else:
            exp = dict(f["before"])
            exp[own.get(n, n)] = new
        for k in names:
            if f["after"][k] != exp[k]:
                ctx.violation("options %s %s|%s" % (what, n, k),
                              "after %s %s, option %s is %s, expected %s" % (
                                  what, n, k, f["after"][k], exp[k]))
        if what == "set":
            if f["got"] != new:
                ctx.violation("options get %s" % n, "get_option(%r) after set_option gives %s" % (
                    n, f["got"]))
            for k in names:
                if f["reset_status"] != "ok" or f["reset"][k] != f["before"][k]:
                    ctx.violation("options reset %s|%s" % (n, k),
                                  "reset_option leaves %s = %s, initially %s" % (
                                      k, f["reset"][k], f["before"][k]))
