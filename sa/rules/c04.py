from . import common

RULE = ("no store reachable from transform, predict or a public property read may target the "
        "fitted estimator or anything reachable from it")
EXPLANATION = common.ENGINE + (". After the abstract fit, the estimator and everything reachable "
    "from it (learned triangles, arrays, fitted sub-estimators) is frozen; transform, predict "
    "and each public property of the estimator and of the returned object are interpreted.")
ASSUMPTIONS = common.ASSUME


def run(ctx):
    for r in common.estimators(ctx):
        ctx.count("property_reads", sum(1 for k in r["status"] if k.startswith("read ")
                                        and not k.endswith(".s")))
        for e in r["events"]:
            if e.kind == "mutate" and e.label in ("estimator", "result"):
                common.report(ctx, r, e)
    ctx.need("property_reads", 200)
