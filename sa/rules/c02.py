from . import common

RULE = ("no store reachable from a Triangle read, arithmetic/comparison, selection, grouping, "
        "non-inplace method, constructor, concat or module-level function may target an object "
        "reachable from its operands or from a caller-supplied frame, list, array or key")
EXPLANATION = common.ENGINE + (". One abstract program per public Triangle operation; operands and "
    "caller-owned arguments are frozen; in-place operations freeze their arguments only.")
ASSUMPTIONS = common.ASSUME


def run(ctx):
    for r in common.ops(ctx, None, 120):
        for e in r["events"]:
            if e.kind == "mutate" and (e.label in ("X", "other")
                                       or e.label.startswith("argument")):
                common.report(ctx, r, e)
