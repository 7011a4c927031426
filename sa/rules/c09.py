"""C09: what is written to JSON is what is read back."""
from . import common
from .c08 import names
from .c16 import MARK, is_tri
from .. import runner
from ..engine import AV_INT, AV_STR, C, E, MISSING, UNDEF
from ..ext import init_params
from ..programs import package_fn
from ..scenarios import Scenario

RULE = ("read_json(x.to_json()) on the abstract heap, with json.dumps/loads modelled on values "
        "(tuples become lists, keys become text, objects raise): per estimator and kind of option "
        "value (text, number, None, tuple, list, nested, dict with numeric keys, estimator), the "
        "object read has the same class and every option equals the given one in kind and "
        "content; a Pipeline keeps its steps; a triangle keeps its flags, valuation date, "
        "attached triangles (each under its own name) and frames")
EXPLANATION = common.ENGINE + (". Options are distinct constants, so a lost, renamed, swapped or "
                               "reinterpreted one differs from the one given.")
ASSUMPTIONS = common.ASSUME
VALID = {("TailCurve", "curve"): "inverse_power", ("TailCurve", "errors"): "raise"}
KINDS = ("text", "number", "none", "tuple", "list", "tuples", "dict", "estimator")


def make(s, kind, p, cls):
    I = s.I
    if (cls, p) in VALID:
        return C(VALID[(cls, p)])
    if (cls, p) == ("BerquistSherman", "reported_count_estimator"):
        kind = "estimator"
    a, b = C("first " + p), C("second " + p)
    if kind == "text":
        return a
    if kind == "number":
        return C(sum(map(ord, p)) / 8)
    if kind == "none":
        return C(None)
    if kind in ("tuple", "list"):
        return I.new_seq(kind, [a, C(None), C(24)], None)
    if kind == "tuples":
        return I.new_seq("list", [I.new_seq("tuple", [a, C(12)], None),
                                  I.new_seq("tuple", [b, C(24)], None)], None)
    if kind == "dict":
        d = I.alloc("dict", None, None)
        I.hset(d, ("k", 12), a)
        I.hset(d, ("k", "text " + p), b)
        I.hset(d, "#n", C(True))
        return frozenset([("o", d)])
    ci = s.D.cls("Benktander")
    kw = {q: C("%s of %s" % (q, p)) for q in init_params(I, ci)}
    return I.instantiate(ci, [], dict(kw, n_iters=C(7)), None)


def steps(s):
    I = s.I
    out = []
    for n, kw in (("Development", {"average": C("dev average"),
                                   "drop": I.new_seq("tuple", [C("1982"), C(12)], None)}),
                  ("Benktander", {"apriori": C("bk apriori")})):
        ci = s.D.cls(n)
        for p in init_params(I, ci):
            kw.setdefault(p, C("%s %s" % (n, p)))
        e = I.instantiate(ci, [], kw, None)
        out.append(I.new_seq("tuple", [C("step " + n), e], None))
    return I.new_seq("list", out, None)


def differ(I, x, y, where, depth=0):
    """Why y (read) is not the same value as x (given), or None."""
    if depth > 6 or x == y:
        return None
    if len(x) != 1 or len(y) != 1:
        return "%s is one of %d values" % (where, len(y))
    (a,), (b,) = x, y
    if a[0] != "o" or b[0] != "o":
        return "%s was %s and reads %s" % (where, show(I, a), show(I, b))
    m, n = I.meta[a[1]], I.meta[b[1]]
    if m.cls != n.cls or m.ci is not n.ci:
        return "%s was %s and reads %s" % (where, show(I, a), show(I, b))
    if m.ci is not None:
        for p in init_params(I, m.ci):
            w = differ(I, I.heap.get((a[1], p), E), I.heap.get((b[1], p), E), where + "." + p,
                       depth + 1)
            if w:
                return w
        return None
    ka = {f for f in I.fields[a[1]] if (a[1], f) in I.heap}
    kb = {f for f in I.fields[b[1]] if (b[1], f) in I.heap}
    if ka - {"#n"} != kb - {"#n"}:
        return "%s has %s and reads %s" % (where, sorted(map(str, ka)), sorted(map(str, kb)))
    for f in sorted(ka - {"#n"}, key=str):
        w = differ(I, I.heap[(a[1], f)], I.heap[(b[1], f)], "%s[%s]" % (where, f), depth + 1)
        if w:
            return w
    return None


def show(I, a):
    if a[0] == "o":
        m = I.meta[a[1]]
        return "a " + (m.ci.name if m.ci else m.tag or m.cls)
    return repr(a[2]) if a[0] == "c" else "unknown"


def one(what, kind, form=None):
    s = Scenario()
    I = s.I
    I.json_model = True
    if what == "Triangle":
        return triangle(s, kind, form)
    I.rec_bound = 9
    ci = s.D.cls(what)
    ps = init_params(I, ci)
    kw = {p: make(s, kind, p, what) for p in ps}
    if what == "Pipeline":
        kw["steps"] = steps(s)
    if what == "VotingChainladder":
        kw["estimators"] = steps(s)
    out = {"options": len(ps), "bad": []}
    est = s.phase("construct", lambda: I.instantiate(ci, [], kw, None))
    js = None if est is None else s.phase("write", lambda: I.call_attr(est, "to_json", [], {}, None))
    got = None if js is None else s.phase("read", lambda: package_fn(I, "read_json", [js], {}))
    out["status"] = dict(s.S.status)
    if got is None:
        return s, out
    for a in got:
        if a[0] != "o" or I.meta[a[1]].ci is not ci:
            out["bad"].append(("class", "reads back as %s" % show(I, a)))
            continue
        for p in ps:
            v = I.heap.get((a[1], p), E)
            if UNDEF in v or not v:
                out["bad"].append((p, "is missing after reading"))
                continue
            w = differ(I, kw[p], v, p)
            if w:
                out["bad"].append((p, w))
    return s, out


SUBS = ("ldf_", "sigma_", "std_err_", "ultimate_")


def triangle(s, kind, form):
    I = s.I
    cum, pat, val = form
    subs = SUBS if kind == "fitted" else ()
    ult = frozenset([("t", "ts:mine")])
    X = s.tri(None, is_cumulative=cum, is_pattern=pat, valuation_date=ult,
              ddims=s.D.ext("DatetimeIndex" if val else "ndarray"))
    (xo,) = [a[1] for a in X]
    I.hset(xo, "values", s.D.ext("ndarray"))
    for f in subs:
        I.hset(xo, f, s.tri(None, is_cumulative=f == "ultimate_", is_pattern=f != "ultimate_",
                            valuation_date=frozenset([("t", "ts:" + f)]),
                            ddims=s.D.ext("ndarray"), values=s.D.ext("ndarray")))
    if subs:
        I.hset(xo, "lambda_", s.D.ext("pandas.Series"))
        I.hset(xo, "rho_", s.D.ext("pandas.DataFrame"))
    js = s.phase("write", lambda: I.call_attr(X, "to_json", [], {}, None))
    got = None if js is None else s.phase("read", lambda: package_fn(I, "read_json", [js], {}))
    out = {"options": 0, "bad": [], "status": dict(s.S.status)}
    tri = [a for a in got or () if is_tri(I, a)]
    out["n"] = len(tri)
    flags = {"": (cum, pat)}
    for f in subs:
        flags[f] = (f == "ultimate_", f != "ultimate_")
    for f, (c, p) in flags.items():
        objs = tri if not f else [b for a in tri for b in I.heap.get((a[1], f), E)]
        if f and not any(is_tri(I, b) for b in objs):
            out["bad"].append((f, "is not attached to the triangle read"))
        for fld, want in (("is_cumulative", C(c)), ("is_pattern", C(p))):
            v = E
            for a in objs:
                v |= I.heap.get((a[1], fld), E) if is_tri(I, a) else E
            out["options"] += 1
            if objs and not want <= v:
                out["bad"].append((f + fld, "was %s and reads %s" % (want, sorted(map(str, v)))))
        v = E
        for a in objs:
            v |= I.heap.get((a[1], "valuation_date"), E) if is_tri(I, a) else E
        out["options"] += 1
        want = ("t", "ts:" + (f or "mine"))
        if objs and (want not in v or v & {
                ("t", "ts:" + (q or "mine")) for q in flags if q != f}):
            out["bad"].append((f + "valuation_date", "was this triangle's own and reads another"))
    for f in ("lambda_", "rho_") if subs else ():
        out["options"] += 1
        if not any(I.heap.get((a[1], f), E) - {UNDEF} for a in tri):
            out["bad"].append((f, "is not attached to the triangle read"))
    return s, out


def run(ctx):
    tasks = [(n, k, None) for n in names() + ["Pipeline"] for k in KINDS]
    forms = [(c, p, v) for c in (True, False) for p in (False, True) for v in (False, True)]
    tasks += [("Triangle", k, f) for k in ("plain", "fitted") for f in forms]
    for r in runner.run(runner.scen_tasks("c09", "one", tasks)):
        n, k, form = r["task"][1][2]
        ctx.count("programs")
        lab = "%s [options: %s]" % (n, k) if form is None else "Triangle %s cumulative=%s pattern=%s%s" % (
            (k,) + form[:2] + (" by valuation" if form[2] else "",))
        if r["error"]:
            ctx.broken.append("%s: %s" % (lab, r["error"][:300]))
            continue
        f = r["facts"]
        st = f["status"]
        if st.get("construct", "ok") != "ok":
            ctx.lists.setdefault("not_live", []).append(lab)
            continue
        if n == "GridSearch":
            continue
        for step in ("write", "read"):
            if st.get(step) not in ("ok", None):
                ctx.violation("%s|%s|%s" % (n, k, step), "%s: %s never completes" % (
                    lab, "to_json" if step == "write" else "read_json of what to_json wrote"))
        ctx.count("live_programs")
        ctx.count("value_obligations", f["options"])
        for attr, why in f["bad"]:
            ctx.violation("%s|%s|%s" % (n, k, attr), "%s: %s" % (lab, why if why.startswith(attr)
                                                                 else attr + " " + why))
    ctx.need("live_programs", 200)
    ctx.need("value_obligations", 900)
