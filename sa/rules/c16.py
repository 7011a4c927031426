"""C16: what was learned is what later steps use."""
from . import common
from .c08 import names
from .. import runner
from ..engine import AV_NONE, C, E
from ..programs import NEEDS_SW, PATTERN_ATTRS
from ..scenarios import Scenario

RULE = ("lineage of patterns: every pattern triangle carries a mark that copies inherit. After "
        "fit(X), transform(Z) / predict(Z) on another triangle Z with and without patterns of its "
        "own: each learned attribute on the result is the fitted one (same object or a copy of it), "
        "never Z's or X's; the ldf_ a tail, Munich or IBNR method starts from is the one X carries")
EXPLANATION = common.ENGINE + (". Marks are fields of the abstract triangles, so they follow "
                               "Triangle.copy, slicing and arithmetic on the left operand.")
ASSUMPTIONS = common.ASSUME

# learned attributes that transform hands on as they are
TAIL = ("ldf_", "std_err_", "sigma_", "tail_", "average_", "_ave_period")
CARRY = {
    "Development": ("std_err_", "ldf_", "sigma_", "std_residuals_", "average_", "w_",
                    "sigma_interpolation", "w_v2_"),
    "ClarkLDF": ("ldf_", "omega_", "theta_", "incremental_fits_", "scale_", "elr_"),
    "DevelopmentConstant": ("ldf_",),
    "IncrementalAdditive": ("ldf_", "w_", "zeta_", "incremental_", "tri_zeta", "fit_zeta_"),
    "MunichAdjustment": ("rho_", "lambda_coef_"),
    "CaseOutstanding": ("paid_ldf_", "case_ldf_"),
    "TailConstant": TAIL, "TailCurve": TAIL,
    "TailBondy": TAIL + ("b_", "earliest_ldf_"),
    "TailClark": TAIL + ("omega_", "theta_", "incremental_fits_", "scale_", "elr_"),
    "BerquistSherman": ("a_", "b_"),
    "BootstrapODPSample": ("scale_",),
    "ParallelogramOLF": ("olf_",),
    "Trend": ("trend_",),
}
# transform works the pattern out for the triangle it is given
COMPUTED = {"BarnettZehnwirth": ("ldf_",), "TweedieGLM": ("ldf_",), "DevelopmentML": ("ldf_",),
            "CaseOutstanding": ("ldf_",), "MunichAdjustment": ("ldf_", "sigma_", "std_err_")}
STARTS = ("TailConstant", "TailCurve", "TailBondy", "TailClark", "MunichAdjustment", "Chainladder",
          "MackChainladder", "Benktander", "BornhuetterFerguson", "CapeCod", "ExpectedLoss",
          "VotingChainladder")
PREDICTS = ("Chainladder", "MackChainladder", "Benktander", "BornhuetterFerguson", "CapeCod",
            "ExpectedLoss")
# learned attributes of the fitted triangle that predict hands on too
PREDICT_CARRY = {"MackChainladder": ("sigma_", "std_err_", "w_", "average_")}
MARK = "_vmark"


def is_tri(I, a):
    return a[0] == "o" and I.meta[a[1]].ci is not None and I.meta[a[1]].ci.name == "Triangle"


def marks(I, av):
    """Marks of the triangles in av, '-' for an unmarked one; other values are left out."""
    out = set()
    for a in av or ():
        if is_tri(I, a):
            v = I.heap.get((a[1], MARK), E)
            out |= {x[2] if x[0] == "c" else "?" for x in v} or {"-"}
    return out


def carrying(s, label, attrs):
    I = s.I
    x = s.tri(label, enriched=False)
    (xo,) = [a[1] for a in x]
    fz = I.frozen.pop(xo, None)
    for a in attrs:
        I.hset(xo, a, s.tri(None, **{MARK: label + "." + a}))
    if "sigma_" in attrs:
        I.hset(xo, "average_", s.S.any(None))
        I.hset(xo, "w_", s.S.any(None, "ndarray"))
        I.hset(xo, "w_v2_", s.tri(None, **{MARK: label + ".w_v2_"}))
        I.hset(xo, "group_index", AV_NONE)
        I.hset(xo, "sigma_interpolation", C("log-linear"))
    if fz:
        I.frozen[xo] = fz
    return x


def one(name, zcarries, only=False):
    s = Scenario()
    I = s.I
    extra = ("trend_", "olf_") if name == "CapeCod" else ()
    X = carrying(s, "X", (("ldf_",) if only else PATTERN_ATTRS) + extra)
    est = s.new(name)
    w = carrying(s, "sample_weight", ("olf_",) if extra else ())
    swv = w if name in NEEDS_SW else w | AV_NONE
    out = {"fit": None, "use": None, "vals": {}}
    if est is None:
        return s, out
    I.read_log = set()
    s.phase("fit", lambda: I.call_attr(est, "fit", [X], {"sample_weight": swv}, None))
    out["fit"] = s.status("fit")
    if out["fit"] != "ok":
        return s, out
    out["reads"] = sorted(k[1] for k in I.read_log if k[0] == "Triangle" and k[1] in extra)
    (eo,) = [a[1] for a in est]
    ci = I.meta[eo].ci
    if name in STARTS:
        got = s.phase("r", lambda: I.load_attr(est, "ldf_", None))
        out["start"] = sorted(marks(I, got))
    learned = {f: I.heap[(eo, f)] for f in I.fields[eo]
               if isinstance(f, str) and not f.startswith("#") and (eo, f) in I.heap}
    for f, v in learned.items():
        for a in v:
            if is_tri(I, a):
                I.hset(a[1], MARK, C("self." + f))
    for a in learned.get("X_", ()):
        if is_tri(I, a):
            for f in PATTERN_ATTRS:
                for b in I.heap.get((a[1], f), E):
                    if is_tri(I, b):
                        I.hset(b[1], MARK, C("self." + f))
    own = [f for f in CARRY.get(name, ()) if f not in PATTERN_ATTRS + ("average_", "w_", "w_v2_")
           and any(is_tri(I, a) for a in learned.get(f, ()))]
    Z = carrying(s, "Z", PATTERN_ATTRS + tuple(own) if zcarries else ())
    (zo,) = [a[1] for a in Z]
    z0 = {f: I.heap.get((zo, f), E) for f in PATTERN_ATTRS + ("average_", "w_", "w_v2_")
          + tuple(own)}
    tr = I.find_method(ci, "transform") and name != "VotingChainladder"
    if only or not tr and name not in PREDICTS:
        return s, out
    own_reads = set()
    zl = {a for a in z0["ldf_"] if a[0] == "o"}

    def hook(oid, fld, node):
        v = I.heap.get((oid, fld)) or E
        if fld == "ldf_" and zl & v or fld in PREDICT_CARRY.get(name, ()) and v & z0[fld] \
                and not {a for a in v if a[0] == "o"} - z0[fld]:
            own_reads.add(I.site(node) + (fld,))
    if not tr:
        I.read_hook = hook
    if tr:
        res = s.phase("use", lambda: I.call_attr(est, "transform", [Z], {}, None))
    else:
        res = s.phase("use", lambda: I.call_attr(est, "predict", [Z], {"sample_weight": swv}, None))
    out["use"] = s.status("use")
    I.read_hook = None
    out["own_reads"] = sorted(own_reads, key=str)
    res = [a for a in res or () if is_tri(I, a)]
    want = CARRY.get(name, ()) if tr else ("ldf_",)
    for f in PREDICT_CARRY.get(name, ()) if not tr else ():
        mine, got = E, E
        for a in learned.get("X_", ()):
            mine |= (I.heap.get((a[1], f)) or E) if is_tri(I, a) else E
        for a in res:
            got |= I.heap.get((a[1], f)) or E
        m, q = (marks(I, mine) - {"-", "?"}, marks(I, got)) if marks(I, mine) else (mine, got)
        out["vals"][f] = [] if res and m & q else ["is not the fitted one"]
    for f in () if only else want + tuple(COMPUTED.get(name, ())):
        got = E
        absent = not res
        for a in res:
            v = I.heap.get((a[1], f))
            if v is None:
                absent = True
            else:
                got |= v
        mine = learned.get(f, E)
        if not tr and f == "ldf_":
            mine = E
        why = []
        gm, mm = marks(I, got), marks(I, mine)
        if absent and ("u",) not in mine:
            why.append("is not attached to the result")
        elif ("u",) in got and ("u",) not in mine and mine:
            why.append("is not attached to the result on some path")
        if frozenset(a for a in got & z0.get(f, E) if a[0] == "o"):
            why.append("may be the one the triangle carried before")
        if f in want:
            bad = {m for m in gm if m.startswith(("X.", "Z.")) or f in PATTERN_ATTRS
                   and m not in ("self." + f, "-", "?")}
            if f in PATTERN_ATTRS or f in ("w_v2_",):
                bad |= gm & {"-"}
            if bad:
                why.append("comes from %s" % ", ".join(sorted(
                    "another triangle" if b == "-" else b for b in bad)))
            objs = frozenset(a for a in mine if a[0] == "o")
            if objs and not gm and not got & objs and not any(
                    a[0] in ("t", "o", "b") for a in got):
                why.append("is %s" % sorted(str(a[1:]) for a in got))
        out["vals"][f] = why
    return s, out


def run(ctx):
    ns = names()
    tasks = [(n, z, False) for n in ns for z in (True, False)] + [
        (n, False, True) for n in ns if n in STARTS]
    for r in runner.run(runner.scen_tasks("c16", "one", tasks)):
        n, z, only = r["task"][1][2]
        lab = "%s [%s]" % (n, "fitted on a triangle with only ldf_" if only else
                           "triangle with patterns of its own" if z else "plain triangle")
        ctx.count("programs")
        if r["error"]:
            ctx.broken.append("%s: %s" % (lab, r["error"][:300]))
            continue
        f = r["facts"]
        if f["fit"] != "ok":
            ctx.lists.setdefault("not_live", []).append(lab + " fit")
            continue
        if f["use"] not in ("ok", None):
            ctx.lists.setdefault("not_live", []).append(lab + " use")
            continue
        ctx.count("live_programs")
        if "start" in f:
            ctx.count("start_obligations")
            if "X.ldf_" not in f["start"]:
                ctx.violation("%s|start|ldf_" % lab, "%s: the development pattern attached to X "
                              "does not reach the fitted ldf_" % lab)
            elif "-" in f["start"]:
                ctx.violation("%s|start|ldf_" % lab, "%s: on some path the fitted ldf_ is not made "
                              "from the development pattern attached to X" % lab)
        for site in f.get("own_reads", ()):
            ctx.violation("%s|own|%s" % (n, site[2]), "%s.predict consults the %s the new triangle "
                          "carries: %s:%s in %s" % ((n, site[3]) + tuple(site[:3])))
        if n == "CapeCod":
            for a in ("trend_", "olf_"):
                ctx.count("start_obligations")
                if a not in f["reads"]:
                    ctx.violation("%s|start|%s" % (n, a), "CapeCod.fit never looks at the %s "
                                  "attached to X" % a)
        for attr, why in f["vals"].items():
            ctx.count("carry_obligations")
            for w in why:
                ctx.violation("%s|%s|%s" % (lab, attr, w), "%s: %s of the result %s" % (lab, attr, w))
    ctx.need("live_programs", 40)
    ctx.need("carry_obligations", 90)
    ctx.need("start_obligations", 24)
