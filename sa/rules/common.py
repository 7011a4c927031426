"""Helpers shared by the rules that read the effect events of the abstract programs."""
from .. import runner

ENGINE = ("whole-program abstract interpretation of /repo/chainladder (no execution): every "
          "statement of every package function reachable from the abstract user program is "
          "interpreted over points-to/alias sets with arbitrary inputs and options; library "
          "calls follow a hand-written effect table (numpy/pandas/sparse/sklearn)")
ASSUME = ["library functions outside the package have the mutation/alias effects listed in "
          "sa/ext.py", "recursion is unrolled to the stated bound; deeper frames are cut "
          "(truncated counts in coverage)",
          "calls of user-supplied callables and estimators have no effect on the caller's data",
          "inside programs other than its own obligation, Triangle arithmetic, concat and "
          "column assignment are replaced by their contract (sa/contracts.py)"]

ABSTRACT = {"DevelopmentBase", "TailBase", "PatsyFormula"}   # fit is abstract / needs a formula


def collect(ctx, results, phase_ok, min_live, what):
    """Book-keeping for a batch of abstract programs; returns the usable results."""
    fns, trunc = set(), {}
    live, unexplored = [], []
    for r in results:
        if r["error"]:
            unexplored.append("%s: %s" % (r["task"][1], r["error"][:200]))
            continue
        fns.update(r["fns"])
        for k, v in r["truncated"].items():
            trunc[k] = trunc.get(k, 0) + v
        ctx.count("call_sites_resolved", r["n_calls"])
        ctx.count("statements_interpreted", r["n_stmts"])
        ctx.count("abstract_steps", r["steps"])
        if r["status"].get(phase_ok) == "ok":
            live.append(r)
    ctx.count("programs", len(results))
    ctx.count("live_programs", len(live))
    ctx.counts["functions_analysed"] = ctx.counts.get("functions_analysed", 0) + len(fns)
    ctx.lists.setdefault("unexplored", []).extend(unexplored)
    ctx.lists.setdefault("truncated_recursion", {}).update(trunc)
    ctx.lists.setdefault("slowest", []).extend(
        sorted(((r["wall"], str(r["task"][1])) for r in results), reverse=True)[:3])
    if len(live) < min_live:
        ctx.broken.append("%s: only %d live programs, %d confirmed by hand (%s)" % (
            what, len(live), min_live, "; ".join(unexplored)[:600]))
    return [r for r in results if not r["error"]]


def name_of(r):
    k, a = r["task"]
    return a if isinstance(a, str) else ("%s %s" % a).strip()


def report(ctx, r, e):
    key = "%s|%s|%s%s.%s" % (name_of(r), e.kind, e.label, strip_path(e.path), field(e.field))
    ctx.violation(key, "program `%s`: %s" % (name_of(r), e.describe()))


def field(f):
    return str(f)


def strip_path(p):
    return p


def estimators(ctx, min_live=29, **opts):
    if ctx.tier == "thorough":
        opts.setdefault("deep", True)
    return collect(ctx, runner.run(runner.estimator_tasks(**opts)), "fit", min_live,
                   "estimator programs")


def ops(ctx, pred, min_live, **opts):
    if ctx.tier == "thorough":
        opts.setdefault("deep", True)
    return collect(ctx, runner.run(runner.op_tasks(pred, **opts)), "call", min_live,
                   "Triangle operation programs")
