"""C08: fitted results carry the form their name promises."""
from . import common
from .c07 import DATE, judge
from .. import runner
from ..engine import AV_NONE, C, MISSING
from ..programs import NEEDS_SW, PATTERN_ATTRS, exported_estimators, Session, weight_for
from ..scenarios import Scenario

RULE = ("per exported estimator and form of X: after fit, every pattern attribute (ldf_, sigma_, "
        "std_err_, zeta_) is an age-to-age pattern, cdf_/cum_zeta_ a cumulative pattern, valued at "
        "ultimate; ultimate_, ibnr_ and expectations are cumulative amounts, not patterns; "
        "full_triangle_/full_expectation_ have the form of X; transform keeps the form of X. "
        "Constant propagation of the flags to the result; a constant other than the promised one, or "
        "its absence, is the violation")
EXPLANATION = common.ENGINE + (". X, sample_weight and the patterns X carries start with fixed "
                               "flags; one abstract program per estimator and form.")
ASSUMPTIONS = common.ASSUME
ULT = "ts:2261-12-31 23:59:59.999999999"
FIELDS = ("is_pattern", "is_cumulative", "valuation_date")
LDF = {"is_pattern": True, "is_cumulative": False, "valuation_date": ULT}
CDF = {"is_pattern": True, "is_cumulative": True, "valuation_date": ULT}
AMOUNT = {"is_pattern": False, "is_cumulative": True}
SAME = {"is_pattern": False, "is_cumulative": "X"}
PROMISE = {"ldf_": LDF, "sigma_": LDF, "std_err_": LDF, "zeta_": LDF, "cdf_": CDF, "cum_zeta_": CDF,
           "ultimate_": AMOUNT, "ibnr_": AMOUNT, "full_triangle_": SAME, "full_expectation_": SAME,
           "resampled_triangles_": SAME, "adjusted_triangle_": SAME}
READ = ("cdf_", "ldf_", "ultimate_", "ibnr_", "full_triangle_", "full_expectation_", "cum_zeta_")


def values(I, av):
    out, other = {}, False
    for a in av or ():
        if a[0] != "o" or I.meta[a[1]].ci is None or I.meta[a[1]].ci.name != "Triangle":
            other = True
            continue
        for f in FIELDS:
            v = I.heap.get((a[1], f), MISSING)
            s = out.setdefault(f, set())
            for x in (v if v is not MISSING else ()):
                s.add(str(x[2]) if x[0] == "c" else "date:" + x[1] if x[0] == "t" and x[1]
                      and x[1].startswith("ts:") else "?")
    return {k: sorted(v) for k, v in out.items()}


def pattern(s, fields, cum=False):
    p = s.tri(None, is_pattern=True, is_cumulative=cum,
              valuation_date=frozenset([("t", ULT)]))
    return p


def one(name, cum, carried):
    s = Scenario()
    I = s.I
    X = s.tri("X", enriched=False, is_cumulative=cum, is_pattern=False, valuation_date=DATE)
    (xo,) = [a[1] for a in X]
    fz = I.frozen.pop(xo, None)
    for a in (PATTERN_ATTRS if carried else ()):
        I.hset(xo, a, pattern(s, LDF))
    if carried:
        I.hset(xo, "average_", s.S.any(None))
        I.hset(xo, "w_", s.S.any(None, "ndarray"))
        I.hset(xo, "w_v2_", s.tri(None, is_pattern=False, is_cumulative=True))
        I.hset(xo, "group_index", AV_NONE)
        I.hset(xo, "sigma_interpolation", C("log-linear"))
    if fz:
        I.frozen[xo] = fz
    est = s.new(name)
    w = s.tri("sample_weight", is_cumulative=True, is_pattern=False, valuation_date=DATE)
    out = {}
    if est is None:
        return s, {"status": ("dead", None), "vals": out}
    swv = w if name in NEEDS_SW else w | C(None)
    r = s.phase("fit", lambda: I.call_attr(est, "fit", [X], {"sample_weight": swv}, None))
    if r is None:
        return s, {"status": (s.status("fit"), None), "vals": out}
    (eo,) = [a[1] for a in est]
    for f in PROMISE:
        got = s.phase("r", lambda: I.load_attr(est, f, None))
        if got:
            out["fitted " + f] = values(I, got)
    ci = I.meta[eo].ci
    use = None
    if I.find_method(ci, "transform"):
        res = s.phase("use", lambda: I.call_attr(
            est, "transform", [X], weight_for(I, ci, "transform", swv), None))
        use = s.status("use")
        tri = frozenset(a for a in res or () if a[0] == "o" and I.meta[a[1]].ci is not None
                        and I.meta[a[1]].ci.name == "Triangle")
        if tri:
            out["transform itself"] = values(I, tri)
            for f in ("ldf_", "cdf_", "sigma_", "std_err_"):
                got = s.phase("r", lambda: I.load_attr(tri, f, None))
                if got:
                    out["transform " + f] = values(I, got)
    if I.find_method(ci, "predict"):
        res = s.phase("use", lambda: I.call_attr(est, "predict", [X], {"sample_weight": swv}, None))
        use = s.status("use")
        tri = frozenset(a for a in res or () if a[0] == "o" and I.meta[a[1]].ci is not None)
        for f in ("ultimate_", "ibnr_", "full_triangle_", "full_expectation_", "ldf_", "cdf_"):
            got = s.phase("r", lambda: I.load_attr(tri, f, None)) if tri else None
            if got:
                out["predict " + f] = values(I, got)
    return s, {"status": ("ok", use), "vals": {k: v for k, v in out.items() if v}}


def names():
    S = Session()
    return [n for n in sorted(exported_estimators(S.I)) if n not in common.ABSTRACT
            and n not in ("Pipeline", "WeightedRegression", "MethodBase")]


def run(ctx):
    tasks = [(n, c, k) for n in names() for c in (True, False) for k in (True, False)]
    live = 0
    for r in runner.run(runner.scen_tasks("c08", "one", tasks)):
        n, c, k = r["task"][1][2]
        lab = "%s [X %s%s]" % (n, "cumulative" if c else "incremental",
                               ", with patterns" if k else "")
        ctx.count("programs")
        if r["error"]:
            ctx.broken.append("%s: %s" % (lab, r["error"][:300]))
            continue
        f = r["facts"]
        if f["status"][0] != "ok":
            ctx.lists.setdefault("not_live", []).append(lab)
            continue
        live += 1
        for what, got in f["vals"].items():
            attr = what.split()[1]
            prom = dict(PROMISE.get(attr, SAME))
            for fld, v in prom.items():
                if (n, what, fld) in EXCEPT or (n, attr, fld) in EXCEPT or (n, "*", fld) in EXCEPT:
                    continue
                ctx.count("flag_obligations")
                want = c if v == "X" else v
                al = {"must": want} if loose(n, attr, c) else {want}
                why = judge(got[fld], al)
                if not why and n in DATED and fld == "valuation_date" and "?" in got[fld] \
                        and what.split()[0] != "predict":
                    ctx.count("dated_exactly")
                    why = "is the ultimate date on some paths only"
                if why:
                    ctx.violation("%s|%s|%s" % (lab, what, fld),
                                  "%s: %s of %s %s" % (lab, fld, what, why))
    ctx.counts["live_programs"] = live
    ctx.need("live_programs", 90)


# factors of the additive method vary by origin and keep the valuation date of the data
EXCEPT = {("IncrementalAdditive", "ldf_", "valuation_date"),
          ("IncrementalAdditive", "cdf_", "valuation_date")}
# estimators whose patterns are dated by a constant on every path
DATED = {"Development", "ClarkLDF", "DevelopmentConstant", "MunichAdjustment", "TailConstant",
         "TailCurve", "TailClark"}
# results assembled from several abstract triangles at once: the updates are weak, so only the
# presence of the promised value is decided there
JOINED = {"BarnettZehnwirth", "DevelopmentML", "TweedieGLM", "IncrementalAdditive", "CapeCod",
          "CaseOutstanding", "VotingChainladder"}


def loose(n, attr, cum):
    return n in JOINED and attr in ("ldf_", "cdf_", "full_expectation_") or attr in (
        "cdf_", "full_expectation_") or not cum and attr in ("ultimate_", "ibnr_", "full_triangle_")
