"""C12: requests the package cannot honour are refused, not silently computed."""
from . import common
from .. import runner
from ..engine import AV_FALSE, AV_INT, AV_NONE, AV_STR, AV_T, AV_TRUE, C, E, UNDEF
from ..programs import Session, methods, opaque_args, user
from ..scenarios import Scenario

RULE = ("every listed unsupported request (option value, missing exposure, axis, grain, back-end, "
        "shape, missing result) ends in an exception on every abstract path before a result is "
        "handed back, and its supported counterpart still completes on some path")
EXPLANATION = common.ENGINE + (". Two abstract programs per request: the unsupported one must have "
    "no normally completing path, the supported counterpart must have one (so a guard that "
    "rejects everything is seen as well).")
ASSUMPTIONS = common.ASSUME
BAD = "no such thing"
YQSM = ("Y", "S", "Q", "M")


class Case:
    def __init__(self, name, fn, bad, good, why=""):
        self.name, self.fn, self.bad, self.good, self.why = name, fn, bad, good, why


CASES = {}


def case(name, fn, bad, good, why=""):
    assert name not in CASES, name
    CASES[name] = Case(name, fn, bad, good, why)


def val(s, v):
    if isinstance(v, frozenset):
        return v
    if isinstance(v, tuple) and v and v[0] == "#":
        return {"dti": lambda: s.D.ext("DatetimeIndex"), "nd": lambda: s.D.ext("ndarray"),
                "list": lambda: s.I.new_seq("list", [C(x) for x in v[2:]], None),
                "tuple": lambda: s.I.new_seq("tuple", [C(x) for x in v[2:]], None),
                "est": lambda: s.S.estimator(v[2]),
                "ests": lambda: s.S.steps(["Chainladder"]),
                "badests": lambda: s.I.new_seq("list", [s.I.new_seq(
                    "tuple", [C("a"), s.S.estimator("Chainladder")], None), s.I.new_seq(
                    "tuple", [C("b"), s.S.estimator("Development")], None)], None),
                "tris": lambda: s.I.new_seq("list", [s.tri("one"), s.tri("two")], None),
                "strs": lambda: s.D.strlist(), "str": lambda: AV_STR, "int": lambda: AV_INT,
                "frame": lambda: s.D.ext("pandas.DataFrame"),
                "tri": lambda: s.tri("other"), "any": lambda: s.D.ext(None),
                "pos": lambda: AV_T}[v[1]]()
    return C(v)


def hook_shape(s, X, shape):
    """X holds an array of the given shape; views and slices of it have unknown shapes."""
    I = s.I
    (o,) = [a[1] for a in X]
    for a in I.heap[(o, "values")]:
        I.hset(a[1], "#shape", frozenset([("c", "tuple", tuple(shape))]))


def est(s, cls, opts=(), tri=(), sw="given", upto="use", shape=None, enriched=True, only=None):
    """construct, fit and use; -> True when some path completes."""
    if upto == "construct":
        ci = s.D.cls(cls)
        params = s.S.params(ci, True)
        params.update({k: val(s, v) for k, v in dict(opts).items()})
        r = s.phase("run", lambda: s.I.instantiate(ci, [], params, None))
        return r is not None
    e = s.new(cls, **{k: val(s, v) for k, v in dict(opts).items()})
    X = s.tri("X", enriched=enriched, **{k: val(s, v) for k, v in dict(tri).items()})
    if shape:
        hook_shape(s, X, shape)
    if sw == "predict-none":
        I = s.I
        w = s.S.triangle("sample_weight", enriched=False)
        r = s.phase("fit", lambda: I.call_attr(e, "fit", [X], {"sample_weight": w}, None))
        if r is None:
            return None
        r = s.phase("use", lambda: I.call_attr(e, "predict", [X], {"sample_weight": AV_NONE},
                                               None))
        return r is not None
    a, b = s.fit_use(e, cls, X, sw=sw, predict=upto == "use")
    return a == "ok" and b == "ok"


def call(s, method, args=(), tri=(), kw=(), raw=(), shape=None, enriched=False):
    X = s.tri("X", enriched=enriched, **{k: val(s, v) for k, v in dict(tri).items()})
    if shape:
        hook_shape(s, X, shape)
    a = [val(s, v) for v in args]
    k = {n: val(s, v) for n, v in dict(kw).items()}
    r = s.phase("run", lambda: s.I.call_attr(X, method, a, k, None))
    return r is not None


def other(s, method, tri, tri2):
    s2 = s.tri("other", **{k: val(s, v) for k, v in dict(tri2).items()})
    X = s.tri("X", **{k: val(s, v) for k, v in dict(tri).items()})
    return s.phase("run", lambda: s.I.call_attr(X, method, [s2], {}, None)) is not None


def fn(s, name, args=(), kw=()):
    return s.fn(name, [val(s, v) for v in args],
                **{n: val(s, v) for n, v in dict(kw).items()}) is not None


def attr(s, on, name, enriched):
    if on == "Triangle":
        x = s.S.triangle("X", enriched=enriched)
        (o,) = [a[1] for a in x]
        for a in ("ldf_", "ultimate_", "zeta_", "X_"):
            if a not in (enriched or ()):
                s.I.hset(o, a, frozenset([UNDEF]))
    else:
        x = s.new(on)
    return s.phase("run", lambda: s.I.load_attr(x, name, None)) is not None


def setattr_(s, name, v, tri=(), shape=None):
    X = s.tri(None, **{k: val(s, w) for k, w in dict(tri).items()})
    if shape:
        hook_shape(s, X, shape)
    return s.phase("run", lambda: (s.I.store_attr(X, name, val(s, v), None), C(1))[1]) is not None


def setitem(s, indexer, backend):
    X = s.tri(None, array_backend=backend)
    key = s.I.new_seq("tuple", [C(0)] * 4, None)
    ix = s.I.load_attr(X, indexer, None)
    return s.phase("run", lambda: (s.I.call_attr(ix, "__setitem__", [key, C(1.0)], {}, None),
                                   C(1))[1]) is not None


def use(s, cls, method, arg):
    x = s.new(cls)
    return s.phase("run", lambda: s.I.call_attr(x, method, [val(s, arg)], {}, None)) is not None


# --- option names ------------------------------------------------------------------------
for c in ("Development", "IncrementalAdditive"):
    case(c + ".average", "est", (c, {"average": BAD}), (c, {"average": "simple"}))
case("Development.sigma_interpolation", "est",
     ("Development", {"sigma_interpolation": BAD, "n_periods": -1}),
     ("Development", {"sigma_interpolation": "mack", "n_periods": -1}))
for c in ("ClarkLDF", "TailClark"):
    case(c + ".growth", "est", (c, {"growth": BAD}), (c, {"growth": "weibull"}))
case("TailCurve.curve", "est", ("TailCurve", {"curve": BAD}), ("TailCurve", {"curve":
                                                                            "inverse_power"}))
case("TailCurve.errors", "est", ("TailCurve", {"errors": BAD}), ("TailCurve", {"errors": "raise"}))
case("TailBondy.ages", "est", ("TailBondy", {"earliest_age": 48, "attachment_age": 24}),
     ("TailBondy", {"earliest_age": 24, "attachment_age": 48}))
for d, n in ((BAD, "text"), (20240101, "number")):
    case("Trend.dates as " + n, "est", ("Trend", {"dates": d}),
         ("Trend", {"dates": ("#", "tuple", "2000", "2004")}))
case("Trend.axis", "est", ("Trend", {"axis": BAD, "trends": 0.05}),
     ("Trend", {"axis": "valuation", "trends": 0.05}))
case("TrendConstant.axis", "est", ("TrendConstant", {"axis": BAD}),
     ("TrendConstant", {"axis": "valuation"}))
for c in ("Development", "ClarkLDF", "DevelopmentConstant"):
    case(c + ".groupby", "est", (c, {"groupby": 5}), (c, {"groupby": "LOB"}))
case("MunichAdjustment.paid_to_incurred", "est", ("MunichAdjustment", {"paid_to_incurred": None}),
     ("MunichAdjustment", {}))
case("VotingChainladder.estimators.empty", "est",
     ("VotingChainladder", {"estimators": ("#", "list")}, (), None),
     ("VotingChainladder", {"estimators": ("#", "ests")}, (), None))
case("VotingChainladder.estimators.none", "est", ("VotingChainladder", {"estimators": None}),
     ("VotingChainladder", {"estimators": ("#", "ests")}))
case("VotingChainladder.weights", "est", ("VotingChainladder", {"weights": BAD}),
     ("VotingChainladder", {"weights": None}))
# --- exposure ----------------------------------------------------------------------------
for c in ("BornhuetterFerguson", "Benktander", "CapeCod", "ExpectedLoss"):
    case(c + ".fit without exposure", "est", (c, (), (), None, "fit"), (c, (), (), "given", "fit"))
case("CapeCod.predict without exposure", "est", ("CapeCod", (), (), "predict-none"),
     ("CapeCod", (), (), "given"))
# --- shape of the data -------------------------------------------------------------------
for c in ("IncrementalAdditive", "BootstrapODPSample"):
    case(c + " on a valuation triangle", "est", (c, (), {"ddims": ("#", "dti")}, "given", "fit", (1, 1, 10, 10)),
         (c, (), {"ddims": ("#", "nd")}, "given", "fit", (1, 1, 10, 10)))
case("BootstrapODPSample on several indices", "est",
     ("BootstrapODPSample", (), (), "given", "fit", (3, 1, 10, 10)),
     ("BootstrapODPSample", (), (), "given", "fit", (1, 1, 10, 10)))
for sh in ((3, 1, 10, 10), (1, 3, 10, 10), (3, 2, 10, 10)):
    case("BarnettZehnwirth on shape %s" % (sh[:2],), "est",
         ("BarnettZehnwirth", (), (), "given", "fit", sh),
         ("BarnettZehnwirth", (), (), "given", "fit", (1, 1, 10, 10)))
case("MackChainladder without sigma_", "est",
     ("MackChainladder", (), (), None, "fit", None, ("ldf_",)),
     ("MackChainladder", (), (), None, "fit", None, ("ldf_", "sigma_", "std_err_")))
for sh in ((3, 1, 10, 10), (1, 3, 10, 10)):
    case("heatmap on shape %s" % (sh[:2],), "call", ("heatmap", (), (), (), (), sh),
         ("heatmap", (), (), (), (), (1, 1, 10, 10)))
# --- back-ends, axes ---------------------------------------------------------------------
for b in YQSM and ("numpy", "sparse", "cupy"):
    case("set_backend from %s" % b, "call", ("set_backend", (BAD,), {"array_backend": b}),
         ("set_backend", ("numpy",), {"array_backend": b}))
    case("set_backend in place from %s" % b, "call",
         ("set_backend", (BAD,), {"array_backend": b}, {"inplace": True}),
         ("set_backend", ("sparse",), {"array_backend": b}, {"inplace": True}))
case("get_array_module", "call", ("get_array_module", (), {"array_backend": BAD}),
     ("get_array_module", (), {"array_backend": "sparse"}))
for a in (BAD, "index", "columns", "development", 0, 1, 3, -1):
    case("trend axis=%r" % (a,), "call", ("trend", (0.05,), (), {"axis": a}),
         ("trend", (0.05,), (), {"axis": "valuation"}))
for a in (0, 1, "index", "columns", -4, -3):
    case("shift axis=%r" % (a,), "call", ("shift", (1,), (), {"axis": a}),
         ("shift", (1,), (), {"axis": 3}))
for m, args in (("sum", ()), ("mean", ()), ("std", ()), ("max", ()), ("rename", None),
                ("sort_axis", None), ("groupby", None), ("drop", None), ("dropna", None),
                ("shift", None), ("cumsum", ())):
    if m == "dropna":
        continue
    bad = {"sum": ("call", (m, (), (), {"axis": BAD})),
           "rename": ("call", (m, (BAD, ("#", "strs")))),
           "sort_axis": ("call", (m, (BAD,))),
           "groupby": ("call", (m, (("#", "str"),), (), {"axis": BAD})),
           "drop": ("call", (m, (("#", "str"),), (), {"axis": BAD})),
           "shift": ("call", (m, (1,), (), {"axis": BAD}))}.get(m, ("call", (m, (), (),
                                                                              {"axis": BAD})))
    ok = {"rename": (m, ("origin", ("#", "strs"))), "sort_axis": (m, ("columns",)),
          "groupby": (m, (("#", "str"),), (), {"axis": 0}),
          "drop": (m, (("#", "str"),), (), {"axis": 1}),
          "shift": (m, (1,), (), {"axis": "origin"})}.get(m, (m, (), (), {"axis": "origin"}))
    case("%s on an unknown axis" % m, "call", bad[1], ok)
for a in (2, 3, "origin", "development"):
    case("drop axis=%r" % (a,), "call", ("drop", (("#", "str"),), (), {"axis": a}),
         ("drop", (("#", "str"),), (), {"axis": "columns"}))
# --- grains ------------------------------------------------------------------------------
FINER = {"Y": ("Y",), "S": ("S", "Y"), "Q": ("Q", "S", "Y"), "M": YQSM}
for og in YQSM:
    for dg in YQSM:
        if og not in FINER[dg]:
            continue
        for no in YQSM:
            for nd in YQSM:
                if no in FINER[og] and nd in FINER[dg] and no in FINER[nd]:
                    continue
                case("grain O%sD%s of an O%sD%s triangle" % (no, nd, og, dg), "call",
                     ("grain", ("O%sD%s" % (no, nd),), {"origin_grain": og,
                                                       "development_grain": dg}),
                     ("grain", ("O%sD%s" % (og, dg),), {"origin_grain": og,
                                                       "development_grain": dg}))
case("grain of a triangle that is neither cumulative nor incremental", "call",
     ("grain", ("OYDY",), {"origin_grain": "Y", "development_grain": "M", "is_cumulative": None},
      (), (), (1, 1, 10, 10)),
     ("grain", ("OYDY",), {"origin_grain": "Y", "development_grain": "M", "is_cumulative": True},
      (), (), (1, 1, 10, 10)))
for a, b in (("Y", "Q"), ("Q", "Y"), ("M", "Q"), ("S", "Y")):
    for op in ("__add__", "__sub__", "__mul__", "__truediv__"):
        case("%s of O%s and O%s triangles" % (op, a, b), "other",
             (op, {"origin_grain": a}, {"origin_grain": b}),
             (op, {"origin_grain": a}, {"origin_grain": a}))
# --- labels, keys, concatenation ---------------------------------------------------------
case("index setter", "setattr_", ("index", BAD), ("index", ("#", "frame")))
for ix in ("iloc", "loc"):
    case(ix + " assignment on a sparse triangle", "setitem", (ix, "sparse"), (ix, "numpy"))
case("concat of a bare triangle", "fn", ("concat", (("#", "tri"), 0)),
     ("concat", (("#", "tris"), 0)))
case("concat of nothing", "fn", ("concat", (("#", "list"), 0)), ("concat", (("#", "tris"), 0)))
case("VotingChainladder.estimators of another kind", "est",
     ("VotingChainladder", {"estimators": ("#", "badests")}, (), None),
     ("VotingChainladder", {"estimators": ("#", "ests")}, (), None))
case("PatsyFormula.fit of a triangle", "use", ("PatsyFormula", "fit", ("#", "tri")),
     ("PatsyFormula", "fit", ("#", "frame")))
for pc in (1.5, -0.1, 2):
    case("valuation_correlation p_critical=%r" % pc, "call", ("valuation_correlation", (pc, True)),
         ("valuation_correlation", (0.1, True)))
    case("development_correlation p_critical=%r" % pc, "call", ("development_correlation", (pc,)),
         ("development_correlation", (0.5,)))
case("parallelogram_olf approximation_grain", "fn",
     ("parallelogram_olf", (("#", "any"), ("#", "any")), {"approximation_grain": BAD}),
     ("parallelogram_olf", (("#", "any"), ("#", "any")), {"approximation_grain": "M"}))
# --- results that do not exist -----------------------------------------------------------
for nm in ("cdf_", "ibnr_", "full_triangle_", "full_expectation_", "cum_zeta_"):
    have = {"cdf_": ("ldf_",), "ibnr_": ("ldf_", "ultimate_"),
            "full_triangle_": ("ldf_", "ultimate_"),
            "full_expectation_": ("ldf_", "ultimate_", "X_"), "cum_zeta_": ("zeta_",)}[nm]
    case("reading %s of a bare triangle" % nm, "attr", ("Triangle", nm, ()),
         ("Triangle", nm, have))
for c, nm in (("Chainladder", "ultimate_"), ("Chainladder", "ibnr_"), ("Chainladder",
              "full_triangle_"), ("Development", "cdf_"), ("Development", "ldf_"),
              ("MackChainladder", "full_triangle_"), ("BornhuetterFerguson", "ibnr_"),
              ("CapeCod", "full_expectation_"), ("TailCurve", "cdf_"), ("ClarkLDF", "cdf_"),
              ("BarnettZehnwirth", "cum_zeta_"), ("IncrementalAdditive", "cum_zeta_")):
    case("reading %s.%s before fit" % (c, nm), "attr", (c, nm, ()), ("Triangle", "cdf_", ("ldf_",)))


def one(name, which):
    c = CASES[name]
    s = Scenario(raw=("__add__", "__sub__", "__mul__", "__truediv__") if c.fn == "other" else ())
    ok = globals()[c.fn](s, *getattr(c, which))
    return s, {"ok": ok, "status": dict(s.S.status)}


def run(ctx):
    tasks = [(n, w) for n in CASES for w in ("bad", "good")]
    # supported counterparts shared by several requests run once
    seen, rep, todo = {}, {}, []
    for n, w in tasks:
        k = (CASES[n].fn, repr(getattr(CASES[n], w)))
        if k not in seen:
            seen[k] = (n, w)
            todo.append((n, w))
        rep[(n, w)] = seen[k]
    out = {}
    for r in runner.run(runner.scen_tasks("c12", "one", todo)):
        nm, w = r["task"][1][2]
        out[(nm, w)] = r
        ctx.count("programs")
        ctx.count("abstract_steps", r.get("steps", 0) or 0)
        if r["error"]:
            ctx.broken.append("%s (%s): %s" % (nm, w, r["error"][:300]))
    for n in CASES:
        b, g = out[rep[(n, "bad")]], out[rep[(n, "good")]]
        if b["error"] or g["error"]:
            continue
        ctx.count("requests")
        if b["facts"]["ok"]:
            ctx.violation("%s|accepted" % n, "%s: %s%r completes on some path" % (
                n, CASES[n].fn, CASES[n].bad))
        elif b["facts"]["ok"] is None:
            ctx.violation("%s|unreached" % n, "%s: the steps before the request have no "
                          "completing path" % n)
        if not g["facts"]["ok"]:
            ctx.violation("%s|refused" % n, "%s: the supported counterpart %s%r has no completing "
                          "path (%s)" % (n, CASES[n].fn, CASES[n].good, g["facts"]["status"]))
    ctx.lists["list_of_requests"] = sorted(CASES)
    ctx.need("requests", 150)
