"""C15: what the documentation of an estimator lists is there after every successful fit."""
from . import common
from .c08 import names
from .c16 import carrying
from .. import docs, runner
from ..engine import AV_NONE, E, MISSING, UNDEF
from ..programs import NEEDS_SW, PATTERN_ATTRS, weight_for
from ..scenarios import Scenario

RULE = ("definite assignment per exported estimator: at the end of fit (options, X and sample_weight "
        "arbitrary) every attribute listed in the class documentation is assigned on every path or "
        "is a property some path of which completes; every attribute ending in _ that "
        "fit stores on some path is stored on all; no code run by fit, transform, predict or a documented property reads an "
        "attribute of the estimator, or of the estimator predict returns, that may be missing; "
        "predict returns an object that has the documented results too")
EXPLANATION = common.ENGINE + (". A field absent on one of two joining paths keeps a 'may be missing' "
                               "mark; reads of a marked field are recorded.")
ASSUMPTIONS = common.ASSUME
# set only when an exposure base is given
ONLY_WEIGHTED = {("ClarkLDF", "elr_"), ("TailClark", "elr_")}
NEEDS_PATTERN = ("MunichAdjustment", "MackChainladder")
# results of predict
PRED = ("ultimate_", "ibnr_", "full_triangle_", "full_expectation_", "expectation_", "apriori_",
        "detrended_apriori_", "full_std_err_", "total_process_risk_", "mack_std_err_",
        "total_mack_std_err_", "total_parameter_risk_")


def one(name, carried, weight):
    s = Scenario()
    I = s.I
    I.maybe_missing.clear()
    X = carrying(s, "X", PATTERN_ATTRS if carried else ())
    est = s.new(name)
    w = s.tri("sample_weight")
    swv = w if weight else AV_NONE
    out = {"fit": None, "use": None, "bad": [], "doc": [], "stored": 0}
    if est is None:
        return s, out
    s.phase("fit", lambda: I.call_attr(est, "fit", [X], {"sample_weight": swv}, None))
    out["fit"] = s.status("fit")
    if out["fit"] != "ok":
        return s, out
    (eo,) = [a[1] for a in est]
    ci = I.meta[eo].ci
    learned = sorted(f for f in I.fields[eo] if isinstance(f, str) and not f.startswith("#")
                     and (eo, f) in I.heap)
    out["stored"] = len(learned)
    docd = [e[0] for e in docs.documented(ci, "attributes")]
    out["doc"] = docd
    lax = {} if weight else {f for c, f in ONLY_WEIGHTED if c == name}
    for f in learned:
        if UNDEF in I.heap[(eo, f)] and f not in lax and (f.endswith("_") or f in docd):
            out["bad"].append((f, "fit stores it on some paths only"))

    def have(av, attr, who):
        got = s.phase("r", lambda: I.load_attr(av, attr, None))
        if got is None or not got or got == frozenset([UNDEF]):
            out["bad"].append((attr, "is documented, but %s has no such attribute" % who
                               if s.status("r") != "recursion" else "?"))
    for f in docd:
        if f in lax:
            continue
        v = I.heap.get((eo, f), MISSING)
        if v is MISSING:
            have(est, f, "the fitted estimator")
    Z = carrying(s, "Z", PATTERN_ATTRS if carried else ())
    if I.find_method(ci, "transform"):
        s.phase("use", lambda: I.call_attr(
            est, "transform", [Z], weight_for(I, ci, "transform", swv), None))
        out["use"] = s.status("use")
    if I.find_method(ci, "predict"):
        res = s.phase("use", lambda: I.call_attr(est, "predict", [Z], {"sample_weight": swv}, None))
        out["use"] = s.status("use")
        res = frozenset(a for a in res or () if a[0] == "o" and I.meta[a[1]].ci is not None)
        if res:
            for f in docd:
                if f in PRED:
                    have(res, f, "the result of predict")
    for (cls, f, site), (path, fn) in sorted(I.maybe_missing.items(), key=str):
        if cls == name and f not in lax:
            out["bad"].append((f, "is read at %s:%s (%s), where it may not have been set" % tuple(site)))
    out["bad"] = sorted(set(out["bad"]))
    return s, out


def run(ctx):
    tasks = [(n, c, w) for n in names() for c in ((True,) if n in NEEDS_PATTERN else (False, True))
             for w in ((True,) if n in NEEDS_SW else (True, False))]
    for r in runner.run(runner.scen_tasks("c15", "one", tasks)):
        n, c, w = r["task"][1][2]
        lab = "%s [X %s, %s]" % (n, "with patterns" if c else "plain",
                                 "sample_weight given" if w else "no sample_weight")
        ctx.count("programs")
        if r["error"]:
            ctx.broken.append("%s: %s" % (lab, r["error"][:300]))
            continue
        f = r["facts"]
        if f["fit"] != "ok":
            ctx.lists.setdefault("not_live", []).append(lab + " fit")
            continue
        ctx.count("live_programs")
        if f["use"] not in ("ok", None):
            ctx.lists.setdefault("not_live", []).append(lab + " use")
        ctx.count("stored_attributes", f["stored"])
        ctx.count("documented_attributes", len(f["doc"]))
        for attr, why in f["bad"]:
            ctx.violation("%s|%s|%s" % (n, attr, why), "%s: %s %s" % (lab, attr, why))
    ctx.need("live_programs", 70)
    ctx.need("documented_attributes", 280)
    ctx.need("stored_attributes", 600)
