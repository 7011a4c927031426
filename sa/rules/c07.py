"""C07: Triangle operations keep the form of the triangle; conversions reach the form they name."""
from . import common
from .. import runner
from ..engine import AV_FALSE, AV_NONE, AV_T, AV_TRUE, C, E, MISSING
from ..programs import LOC_OPS, Session, methods, op_list, opaque_args
from ..scenarios import Scenario

RULE = ("per operation and start form: constant propagation of is_cumulative, is_pattern, "
        "origin_grain, development_grain, origin_close, valuation_date and back-end through the "
        "operation; the result may hold only the values of the table (kept, unless the operation is "
        "the conversion of that field), and must be able to hold them")
EXPLANATION = common.ENGINE + (". One abstract program per operation and start form, flags fixed to "
    "distinct constants; unknown values are not alarms.")
ASSUMPTIONS = common.ASSUME

DATE = frozenset([("t", "ts:X")])
BASE = dict(is_pattern=False, is_cumulative=True, origin_grain="Q", development_grain="M",
            origin_close="MAR", valuation_date=DATE, array_backend="numpy")
STATES = {"cumulative": BASE, "incremental": dict(BASE, is_cumulative=False),
          "unset": dict(BASE, is_cumulative=None),
          "pattern": dict(BASE, is_pattern=True, is_cumulative=False, array_backend="sparse")}
FORM = ("is_cumulative", "is_pattern", "origin_grain", "development_grain", "origin_close")
# the latest valuation may move, or is recomputed by design
MOVES = {"__getitem__", "drop", "dropna", "shift", "sort_axis", "sort_index", "head", "tail",
         "link_ratio", "age_to_age", "latest_diagonal", "loc", "iloc", "dev_to_val", "val_to_dev",
         "grain", "cdf_", "at", "iat"}
SCALAR = ("__add__", "__radd__", "__sub__", "__rsub__", "__mul__", "__rmul__", "__truediv__",
          "__rtruediv__", "__pow__", "minimum", "maximum")
SKIP = {"compute", "set_backend", "grain", "append", "__eq__", "__ne__", "cdf_", "minimum",
        "maximum", "__array_ufunc__"}
SPLIT = ("is_full", "is_ultimate")          # decided once for the operand, by case


def want(op, st):
    """field -> the values the result may hold"""
    w = {f: {st[f]} for f in FORM}
    if op == "incr_to_cum":
        w["is_cumulative"] = {True}
    if op == "cum_to_incr":
        w["is_cumulative"] = {False}
    if op in ("link_ratio", "age_to_age"):
        if st["is_pattern"]:
            return {}
        w["is_cumulative"], w["is_pattern"] = {"must": False}, {"must": True}
    if op not in MOVES:
        w["valuation_date"] = {"ts:X"}
    return w


def facts(I, res):
    out = {}
    for a in res or ():
        if a[0] != "o" or I.meta[a[1]].ci is None or I.meta[a[1]].ci.name != "Triangle":
            continue
        for f in BASE:
            v = I.heap.get((a[1], f), MISSING)
            s = out.setdefault(f, set())
            if v is MISSING:
                s.add("absent")
                continue
            for x in v:
                s.add(x[2] if x[0] == "c" else "date:" + x[1] if x[0] == "t" and x[1]
                      and x[1].startswith("ts:") else "?")
    return out


def one(kind, name, st, extra):
    raw = [n for n in (name,) if kind in ("method", "scalar", "same", "mixed")]
    s = Scenario(raw=("concat",) if kind == "concat" else raw)
    I, S = s.I, s.S
    fixed = dict(STATES[st]) if isinstance(st, str) else dict(st)
    if extra.get("ddims"):
        k = extra["ddims"]
        fixed["ddims"] = s.D.ext(k)
    X = s.tri("X" if kind not in ("setitem", "setloc", "setattr") else None, **fixed)
    (xo,) = [a[1] for a in X]
    for p in SPLIT:
        if p in extra:
            # inside grain, dev_to_val is called on derived triangles too: its own obligation covers
            # every case, here one consistent case at a time is enough
            I.pinned[(None if name == "grain" else xo, p)] = AV_TRUE if extra[p] else AV_FALSE
    ret = None
    if kind == "method":
        fv = methods(I, s.D.cls("Triangle"))[name]
        kw = opaque_args(S, fv, X, False)
        kw.update({k: C(v) for k, v in extra.items() if k in kw})
        pos = []
        if name == "pipe":
            pos, kw = [AV_T], {}
        ret = s.phase("run", lambda: I.call_attr(X, name, pos, kw, None))
    elif kind == "read":
        ret = s.phase("run", lambda: I.load_attr(X, name, None))
    elif kind == "scalar":
        ret = s.phase("run", lambda: I.call_attr(X, name, [AV_T], {}, None))
    elif kind in ("same", "mixed", "concat"):
        Y = s.tri("other", **(STATES[extra["other"]] if kind == "mixed" else fixed))
        if kind != "concat":
            ret = s.phase("run", lambda: I.call_attr(X, name, [Y], {}, None))
        else:
            ret = s.fn("concat", [I.new_seq("list", [X, Y], None), extra["axis"]])
    elif kind == "loc":
        loc = I.load_attr(X, name, None)
        idx = I.new_seq("tuple", [AV_T] * 4, None) | AV_T
        ret = s.phase("run", lambda: I.call_attr(loc, "__getitem__", [idx], {}, None))
    elif kind == "group":
        def go():
            g = I.call_attr(X, "groupby", [AV_T], {"axis": C(extra["axis"])}, None)
            return I.call_attr(g, name, [], {}, None)
        ret = s.phase("run", go)
    elif kind == "construct":
        kw = {"data": AV_T | s.S.any(None, "pandas.DataFrame"), "origin": C("o"),
              "development": C("d"), "columns": C("c"), "index": C("i"),
              "cumulative": C(extra["cumulative"]), "pattern": C(extra["pattern"]),
              "array_backend": C(extra["backend"])}
        ret = s.phase("run", lambda: I.instantiate(s.D.cls("Triangle"), [], kw, None))
    f = {k: sorted(map(str, v)) for k, v in facts(I, ret).items()}
    return s, {"form": f, "status": s.status("run")}


def tasks_of(S):
    I, D = S.I, S.D
    out = []
    for kind, n in op_list(I, D):
        if n in SKIP or kind not in ("method", "read", "loc", "group"):
            continue
        if kind == "method" and n in SCALAR:
            continue
        for st in STATES:
            if kind == "group":
                out += [(kind, n, st, {"axis": k}, want(n, STATES[st])) for k in (0, 1)]
            elif n in ("dev_to_val", "val_to_dev"):
                for dd in ("ndarray", "DatetimeIndex"):
                    out += [(kind, n, st, dict(ddims=dd, is_full=a, is_ultimate=b),
                             want(n, STATES[st]))
                            for a, b in ((True, True), (True, False), (False, False))]
            else:
                out.append((kind, n, st, {}, want(n, STATES[st])))
    for n in SCALAR:
        for st in STATES:
            out.append(("scalar", n, st, {}, want(n, STATES[st])))
            if n[:3] != "__r":
                w = want(n, STATES[st])
                w.pop("valuation_date", None)
                out.append(("same", n, st, {}, w))
                for other in STATES:
                    if other != st and n[:2] == "__":
                        o = STATES[other]
                        out.append(("mixed", n, st, {"other": other}, dict(
                            is_cumulative=w["is_cumulative"],
                            is_pattern={STATES[st]["is_pattern"] and o["is_pattern"]})))
    for st in STATES:
        for k in (0, 1, 2, 3):
            w = want("concat", STATES[st])
            w.pop("valuation_date", None)
            out.append(("concat", "concat", st, {"axis": k}, w))
    for og, dg, g in (("Y", "M", "OYDY"), ("Q", "Q", "OYDQ"), ("M", "M", "OQDQ"), ("M", "M", "OQDM"),
                      ("M", "M", "OSDS"), ("M", "M", "OYDY"), ("Q", "M", "OYDM"), ("S", "S", "OYDY"),
                      ("Q", "Q", "OSDS"), ("M", "M", "OYDQ"), ("Q", "M", "OQDQ"), ("M", "M", "OMDM")):
        for c in (True, False):
            st = dict(BASE, origin_grain=og, development_grain=dg, is_cumulative=c)
            w = {"is_cumulative": {c}, "is_pattern": {False},
                 "origin_grain": {"must": g[1]}, "development_grain": {"must": g[3], "or": dg}}
            # a full valuation triangle is converted twice on the way (weak updates)
            out += [("method", "grain", st, dict(grain=g, is_full=a, is_ultimate=b, ddims=k),
                     dict(w, is_cumulative={"must": c}) if a and c and k != "ndarray" else w)
                    for a, b in ((True, True), (True, False), (False, False))
                    for k in ("ndarray", "DatetimeIndex")]
    for c in (True, False, None):
        for p in (True, False):
            for b in ("numpy", "sparse"):
                out.append(("construct", "Triangle", BASE,
                            {"cumulative": c, "pattern": p, "backend": b},
                            {"is_cumulative": {c}, "is_pattern": {p}}))
    return out


def judge(got, allowed):
    """None, or what is wrong with the values a field may hold."""
    got = set(got)
    unknown = "?" in got
    if isinstance(allowed, dict):
        m = str(allowed["must"])
        m = "date:" + m if m.startswith("ts:") else m
        if m not in got and not unknown:
            return "can never be %s" % m
        return None
    ok = {("date:" + x) if str(x).startswith("ts:") else str(x) for x in allowed}
    bad = got - ok - {"?"}
    if bad:
        return "may be %s instead of %s" % ("/".join(sorted(bad)), "/".join(sorted(ok)))
    if not got & ok and not unknown:
        return "can never be %s" % "/".join(sorted(ok))
    return None


def run(ctx):
    S = Session()
    ts = tasks_of(S)
    ctx.count("programs", len(ts))
    live = 0
    by = {}
    for r in runner.run(runner.scen_tasks("c07", "one", [x[:4] for x in ts])):
        by[repr(r["task"][1][2])] = r
    for t in ts:
        r = by[repr(t[:4])]
        kind, n, st, extra, w = t
        lab = "%s %s [%s%s]" % (kind, n, st if isinstance(st, str) else
                                "%s%s %s" % (st["origin_grain"], st["development_grain"],
                                             st["is_cumulative"]),
                                "".join(" %s=%s" % kv for kv in sorted(extra.items())))
        if r["error"]:
            ctx.broken.append("%s: %s" % (lab, r["error"][:300]))
            continue
        f = r["facts"]["form"]
        if r["facts"]["status"] != "ok" or not f:
            ctx.lists.setdefault("not_triangles", []).append(lab)
            continue
        live += 1
        for fld, al in w.items():
            ctx.count("field_obligations")
            why = judge(f[fld], al)
            if why:
                ctx.violation("%s|%s" % (lab, fld), "%s: %s of the result %s" % (lab, fld, why))
    ctx.counts["live_programs"] = live
    ctx.need("live_programs", 400)
