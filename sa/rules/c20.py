from . import common
from .. import runner

RULE = ("on every abstract path of construct -> fit(A) -> fit(B), no attribute learned by the "
        "first fit is read (directly, via hasattr/getattr, or through a property) before the "
        "second fit has set it again; and every path "
        "through the second fit sets or deletes every attribute the first fit can learn")
EXPLANATION = common.ENGINE + (". After the first fit every learned attribute of the estimator is "
    "marked stale; a store clears the mark; a read of a still-marked attribute inside the second "
    "fit is a violation. The second fit is interpreted for triangles without attached patterns, "
    "with all patterns and with ldf_ only.")
ASSUMPTIONS = common.ASSUME


def run(ctx):
    opts = {"deep": True} if ctx.tier == "thorough" else {}
    tasks = [("refit",) + t[1:] for t in runner.estimator_tasks(**opts)]
    res = common.collect(ctx, runner.run(tasks), "fit2", 27, "refit programs")
    for r in res:
        ctx.count("learned_attributes", len(r["facts"].get("learned", ())))
        for p in ("fit2", "fit3", "fit4"):
            if r["status"].get(p) == "ok":
                ctx.count("refits")
                for f in r["facts"].get("left" + p[3:], ()):
                    ctx.violation("%s|left|%s" % (common.name_of(r), f),
                                  "%s: some path through the second fit leaves `%s` as the "
                                  "first fit learned it" % (common.name_of(r), f))
        for e in r["events"]:
            if e.kind == "stale-read":
                common.report(ctx, r, e)
    ctx.need("learned_attributes", 120)
    ctx.need("refits", 70)
