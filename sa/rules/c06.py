from . import common
from .. import runner
from ..engine import AV_NONE, C
from ..scenarios import Scenario

RULE = ("(1) every constructor option of an exported estimator is read by fit, transform, predict "
        "or a result property; (2) an option handed on to an inner estimator or library call "
        "under the name of another option of the same estimator is a violation, and a class that "
        "rebuilds itself passes every option; (3) any two documented values of an option make "
        "the analysed program differ: other statements are reached or other constants computed")
EXPLANATION = common.ENGINE + (". (1) and (2) on the estimator programs with opaque option values "
    "followed by identity; (3) one program per documented option value, compared by the set of "
    "reachable statements and the constants per expression.")
ASSUMPTIONS = common.ASSUME + ["(3) shows that the values are told apart, not that the numbers "
                               "computed under each are right"]
# scikit-learn's Pipeline reads `steps`; PatsyFormula's fit needs a formula object
SKIP = {("Pipeline", "steps"), ("PatsyFormula", "formula")}
# documented values (constructor docstrings); enriched: patterns X must carry for the option to
# matter; sw: with exposure
V = [
    ("Development", "average", ("volume", "simple", "regression"), {}),
    ("Development", "sigma_interpolation", ("log-linear", "mack"), {}),
    ("Development", "n_periods", (-1, 3), {}),
    ("Development", "drop_high", (None, True), {}),
    ("Development", "drop_low", (None, True), {}),
    ("Development", "drop_above", (float("inf"), 2.0), {}),
    ("Development", "drop_below", (0.0, 1.0), {}),
    ("Development", "drop_valuation", (None, "2004"), {}),
    ("Development", "drop", (None, ("2004", 12)), {}),
    ("Development", "fillna", (None, 1.0), {}),
    ("Development", "groupby", (None, "LOB"), {}),
    ("IncrementalAdditive", "average", ("volume", "simple"), {}),
    ("IncrementalAdditive", "n_periods", (-1, 3), {}),
    ("IncrementalAdditive", "drop_high", (None, True), {}),
    ("IncrementalAdditive", "drop_low", (None, True), {}),
    ("IncrementalAdditive", "drop_valuation", (None, "2004"), {}),
    ("IncrementalAdditive", "future_trend", (None, 0.05), {}),
    ("ClarkLDF", "growth", ("loglogistic", "weibull"), {}),
    ("ClarkLDF", "groupby", (None, "LOB"), {}),
    ("TailClark", "growth", ("loglogistic", "weibull"), {}),
    ("TailClark", "truncation_age", (None, 245), {}),
    ("TailClark", "attachment_age", (None, 100), {}),
    ("TailCurve", "curve", ("exponential", "inverse_power"), {}),
    ("TailCurve", "errors", ("ignore", "raise"), {}),
    ("TailCurve", "attachment_age", (None, 100), {}),
    ("TailConstant", "attachment_age", (None, 100), {}),
    ("TailBondy", "earliest_age", (None, 24), {}),
    ("TailBondy", "attachment_age", (None, 100), {}),
    ("DevelopmentConstant", "style", ("ldf", "cdf"), {}),
    ("DevelopmentConstant", "groupby", (None, "LOB"), {}),
    ("CaseOutstanding", "groupby", (None, "LOB"), {}),
    ("CapeCod", "groupby", (None, "LOB"), {}),
    ("CapeCod", "apriori_sigma", (0.0, 0.5), {}),
    ("BornhuetterFerguson", "apriori_sigma", (0.0, 0.5), {}),
    ("Benktander", "apriori_sigma", (0.0, 0.5), {}),
    ("ExpectedLoss", "apriori_sigma", (0.0, 0.5), {}),
    ("Trend", "axis", ("origin", "valuation", "development"), {}),
    ("BootstrapODPSample", "hat_adj", (True, False), {}),
    ("MunichAdjustment", "fillna", (False, True), {}),
    ("DevelopmentML", "fit_incrementals", (True, False), {}),
    ("ParallelogramOLF", "vertical_line", (True, False), {}),
    ("BerquistSherman", "reported_count_estimator", (None, "EST"), {}),
]


def value(s, v):
    if v == "EST":
        return s.S.estimator("Chainladder")
    if isinstance(v, tuple):
        return s.I.new_seq("tuple", [C(x) for x in v], None)
    return C(v)


def tell(cls, opt, v, extra):
    s = Scenario(obs=True)
    kw = {opt: value(s, v)}
    kw.update({k: value(s, w) for k, w in extra})
    est = s.new(cls, **kw)
    st = s.fit_use(est, cls)
    I = s.I
    # what flows from the option itself is not evidence of an effect
    own = {v} if not isinstance(v, tuple) else set(v)
    ob = set()
    for k, cs in s.observations().items():
        try:
            if any(c is True or c is False or c is None or c in own for c in cs):
                continue
            ob.add((k, tuple(sorted(map(repr, cs)))))
        except TypeError:
            continue
    seen = s.visited()
    return s, {"status": st, "visited": sorted(seen), "obs": sorted(ob), "v": v}


def run(ctx):
    for r in common.estimators(ctx):
        n = common.name_of(r)
        f = r["facts"]
        if not f or r["status"].get("fit") != "ok":
            continue
        opts = set(r.get("params", ()))
        for p in sorted(opts):
            if (n, p) in SKIP:
                continue
            ctx.count("options")
            if p not in f["watched"]:
                ctx.violation("%s|unread|%s" % (n, p), "%s: no path through fit, transform, "
                              "predict or the results reads option `%s`" % (n, p))
        for callee, q, p, site in f["wires"]:
            ctx.count("forwarded_options")
            if q != p and q in opts:
                ctx.violation("%s|cross|%s|%s|%s" % (n, callee, q, p),
                              "%s:%d in %s: option `%s` of %s is passed to %s as `%s`" % (
                                  site[0], site[1], site[2], p, n, callee, q))
        for callee, given, params, site in f["made"]:
            if callee == n and site[2].split(".")[0] == n:
                ctx.count("self_rebuilds")
                miss = [p for p in params if p not in given]
                if miss:
                    ctx.violation("%s|rebuild|%s" % (n, ",".join(miss)),
                                  "%s:%d in %s builds another %s without %s" % (
                                      site[0], site[1], site[2], n, ", ".join(miss)))
    tasks = [(c, o, v, tuple(sorted(x.items()))) for c, o, vs, x in V for v in vs]
    by = {}
    for r in common.collect(ctx, runner.run(runner.scen_tasks("c06", "tell", tasks)), "fit",
                            80, "option value programs"):
        c, o, v, x = r["task"][1][2]
        by.setdefault((c, o), []).append(r["facts"])
    for (c, o), fs in sorted(by.items()):
        for f in fs:
            if f["status"][0] != "ok":
                ctx.violation("%s|dead|%s|%s" % (c, o, f["v"]), "%s(%s=%r): no path through fit "
                              "completes" % (c, o, f["v"]))
        fs = [f for f in fs if f["status"][0] == "ok"]
        for i, a in enumerate(fs):
            for b in fs[i + 1:]:
                ctx.count("value_pairs")
                dv = set(map(tuple, a["visited"])) ^ set(map(tuple, b["visited"]))
                do = set(map(tuple, a["obs"])) ^ set(map(tuple, b["obs"]))
                ctx.lists.setdefault("differences", []).append(
                    "%s.%s %r/%r: %d statements, %d constants" % (c, o, a["v"], b["v"], len(dv),
                                                                  len(do)))
                if not dv and not do:
                    ctx.violation("%s|same|%s|%r|%r" % (c, o, a["v"], b["v"]),
                                  "%s: %s=%r and %s=%r reach the same statements with the same "
                                  "constants" % (c, o, a["v"], o, b["v"]))
    ctx.need("options", 110)
    ctx.need("forwarded_options", 20)
    ctx.need("value_pairs", 40)
