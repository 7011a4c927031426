from . import common

RULE = ("for every constructor parameter p of an exported estimator: __init__ leaves self.p "
        "pointing at exactly the argument; nothing reachable from fit, transform or predict "
        "rebinds self.p or stores into the argument; fit returns exactly self")
EXPLANATION = common.ENGINE + (". Constructor arguments are opaque caller-owned objects (plus the "
    "constants of the documented kinds); identity of self.p and of the value returned by fit is "
    "decided on the abstract heap.")
ASSUMPTIONS = common.ASSUME + ["estimators supplied as parameters are fitted in place by design "
                               "(composites)"]
# scikit-learn's own __init__ stores `steps`
VERBATIM_SKIP = {("Pipeline", "steps")}


def run(ctx):
    for r in common.estimators(ctx):
        n = name_of = common.name_of(r)
        ctx.count("parameters", len(r.get("params", ())))
        for p, missing in r.get("verbatim", ()):
            if (n, p) in VERBATIM_SKIP:
                continue
            ctx.violation("%s|verbatim|%s" % (n, p),
                          "%s.__init__ %s constructor parameter `%s`" % (
                              n, "does not store" if missing else
                              "does not store verbatim the", p))
        if r["status"].get("fit") == "ok":
            ctx.count("fit_returns", 1)
            if r.get("ret") is not True:
                ctx.violation("%s|fit-returns" % n, "%s.fit may return something other than "
                              "the estimator itself" % n)
        for e in r["events"]:
            if e.kind == "rebind" or (e.kind == "mutate" and e.label.startswith("param ")):
                common.report(ctx, r, e)
    ctx.need("parameters", 120)
    ctx.need("fit_returns", 28)
