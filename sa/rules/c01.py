from .. import contracts
from . import common

RULE = ("no store, in-place library call, deletion or attribute rebinding reachable from "
        "fit/transform/fit_transform/predict of any exported estimator may target an object "
        "reachable from the caller's X or sample_weight")
EXPLANATION = common.ENGINE + (". The caller's triangles (all back-ends, cumulative or not, with "
    "or without learned patterns) are frozen before fit, transform and predict; every abstract "
    "store to a frozen object is a violation. The contracts used for triangle arithmetic, concat "
    "and column assignment are discharged in the same run on their real bodies.")
ASSUMPTIONS = common.ASSUME
LABELS = ("X", "X2", "sample_weight", "sample_weight2", "other")


def run(ctx):
    for r in common.estimators(ctx):
        for e in r["events"]:
            if e.kind == "mutate" and e.label in LABELS:
                common.report(ctx, r, e)
    raw = set(contracts.OPS) | {"", }
    obl = common.ops(ctx, lambda k, n: (k == "method" and n in contracts.OPS)
                     or k in ("concat", "setitem"), 9)
    ctx.count("contract_obligations", len(obl))
    for r in obl:
        for e in r["events"]:
            if e.kind == "mutate" and e.label in LABELS:
                common.report(ctx, r, e)
