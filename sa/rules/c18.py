"""C18: results do not share editable state with the data they were made from."""
from . import common
from .. import runner
from ..engine import AV_STR, AV_T, C, E, MISSING
from ..programs import Session, exported_estimators, op_list, run_estimator, run_op, Interp
from ..scenarios import CORE

RULE = ("(a) footprint: the fields of a triangle whose objects an in-place operation edits (rather "
        "than replaces) are collected over all in-place operations; (b) no triangle returned by a "
        "read, selection, grouping, arithmetic or non-inplace operation is the operand itself or "
        "shares the object of a footprint field with an operand; (c) nothing reachable from a "
        "fitted estimator, or from what its transform/predict returned, is the caller's triangle "
        "or one of its footprint objects")
EXPLANATION = common.ENGINE + (". Sharing is decided on the points-to sets; array views count as "
    "sharing with their base.")
ASSUMPTIONS = common.ASSUME + [
    "objects reached only through labels (key_labels, kdims, ...) may be shared because rule (a) "
    "shows that no operation edits them"]
INPLACE = ("inplace", "setitem", "setloc", "setattr")
# documented exceptions, by the operation's name
OWN_RESULT = {("method", "pipe"): "returns what the caller's function returns",
              ("method", "__array__"): "numpy protocol: the raw values"}
# array-level helpers, not estimators of triangles
ARRAY_LEVEL = ("WeightedRegression",)
ALWAYS = ("values", "virtual_columns")


class Box:
    def __init__(self, S):
        self.S = S


def tris(I, av):
    return [a[1] for a in av or () if a[0] == "o" and I.meta[a[1]].ci is not None
            and I.meta[a[1]].ci.name == "Triangle"]


def footprint(kind, name):
    def prep(S, X):
        I = S.I
        (xo,) = [a[1] for a in X]
        for f in list(I.fields[xo]):
            v = I.heap.get((xo, f), E)
            if isinstance(f, str) and v:
                I.freeze(frozenset(a for a in v if a[0] == "o"), "own " + f, skip=(xo,))
    o = run_op(kind, name, prep=prep)
    I = o["S"].I
    return Box(o["S"]), {"mutated": sorted({e.label[4:] for e in I.events.values()
                                            if e.kind == "mutate" and e.label.startswith("own ")}),
                         "where": sorted({e.describe() for e in I.events.values()
                                          if e.kind == "mutate" and e.label.startswith("own ")})[:9],
                         "status": o["S"].status.get("call")}


def editable(I, oid, fields):
    """{object: field path} that an in-place operation on triangle `oid` may edit."""
    out = {}
    for f in fields:
        for a in I.heap.get((oid, f), E):
            if a[0] != "o" or a[1] == oid:
                continue
            out.setdefault(a[1], f)
            if I.meta[a[1]].ci is not None and I.meta[a[1]].ci.name != "Triangle":
                for g in list(I.fields[a[1]]):
                    for b in I.heap.get((a[1], g), E):
                        if b[0] == "o" and I.meta[b[1]].ci is None:
                            out.setdefault(b[1], "%s.%s" % (f, g))
    return out


def virtual(I, X):
    """X may carry user-defined virtual columns."""
    for a in X:
        for v in I.heap.get((a[1], "virtual_columns"), E):
            for d in I.heap.get((v[1], "columns"), E):
                if d[0] == "o" and I.meta[d[1]].cls == "dict":
                    I.dict_unknown(d[1], AV_STR, AV_T)


def sharing(kind, name, fields, pattern):
    def prep(S, X):
        virtual(S.I, X)
        if pattern:
            (xo,) = [a[1] for a in X]
            fz = S.I.frozen.pop(xo, None)
            S.I.hset(xo, "is_pattern", C(True))
            if fz:
                S.I.frozen[xo] = fz
    o = run_op(kind, name, prep=prep)
    I, X, res = o["S"].I, o.get("X"), o.get("res")
    out = []
    if res and X:
        (xo,) = [a[1] for a in X]
        mine = editable(I, xo, fields)
        todo = list(res)
        for a in res:                       # containers of results
            if a[0] == "o" and I.meta[a[1]].ci is None:
                todo += list(I.iter_elems(frozenset([a]), None) or E) \
                    if I.meta[a[1]].cls in ("list", "tuple", "dict") else []
        for t in tris(I, todo):
            if t == xo:
                out.append("the operand itself")
                continue
            for b, f in editable(I, t, fields).items():
                if b in mine:
                    out.append("%s is the operand's %s" % (f, mine[b]))
    return Box(o["S"]), {"shared": sorted(set(out)), "status": o["S"].status.get("call"),
                         "n": len(tris(I, res))}


def held(name, fields):
    o = run_estimator(name, read=False)
    I = o["S"].I
    bad = []
    for lab in ("X", "sample_weight", "X2", "sample_weight2"):
        if not o.get(lab):
            continue
        (xo,) = tris(I, o[lab])
        mine = editable(I, xo, fields)
        mine[xo] = "the triangle itself"
        for what in ("est", "transform", "predict"):
            for k, path in I.reach(o.get(what) or E).items():
                if k in mine:
                    bad.append("%s%s holds %s: %s" % (
                        {"est": "the fitted estimator", "transform": "transform's result",
                         "predict": "predict's result"}[what], path, lab, mine[k]))
    return Box(o["S"]), {"held": sorted(set(bad)), "status": o["S"].status.get("fit"),
                         "fitted": len(o.get("fitted", ()))}


def run(ctx):
    S = Session()
    ops = op_list(S.I, S.D)
    fields, where = set(ALWAYS), {}
    tasks = [o for o in ops if o[0] in INPLACE]
    for r in runner.run(runner.scen_tasks("c18", "footprint", tasks)):
        if r["error"]:
            ctx.broken.append("%s: %s" % (r["task"][1], r["error"][:300]))
            continue
        ctx.count("inplace_operations")
        fields |= set(r["facts"]["mutated"])
        for w in r["facts"]["where"]:
            where.setdefault(w, r["task"][1][2])
    fields = tuple(sorted(fields - {"iloc", "loc", "at", "iat"}))
    ctx.lists["editable_fields"] = fields
    ctx.lists["in_place_edits"] = sorted(where)[:40]
    ctx.need("inplace_operations", 15)
    tasks = [(k, n, fields, p) for k, n in ops if k not in INPLACE
             and (k, n) not in OWN_RESULT for p in ((False, True) if k == "read" else (False,))]
    tri = 0
    for r in runner.run(runner.scen_tasks("c18", "sharing", tasks)):
        k, n, _, p = r["task"][1][2]
        if r["error"]:
            ctx.broken.append("%s %s: %s" % (k, n, r["error"][:300]))
            continue
        f = r["facts"]
        ctx.count("operations")
        tri += f["n"] > 0
        for x in f["shared"]:
            ctx.violation("%s %s%s|%s" % (k, n, " (pattern)" if p else "", x),
                          "%s %s: the returned triangle %s, so editing one in place edits the "
                          "other" % (k, n, "is " + x if x.startswith("the op") else
                                     "shares state: its " + x))
    ctx.counts["operations_returning_triangles"] = tri
    ctx.need("operations_returning_triangles", 60)
    names = [n for n in sorted(exported_estimators(Interp())) if n not in ARRAY_LEVEL]
    for r in runner.run(runner.scen_tasks("c18", "held", [(n, fields) for n in names])):
        n = r["task"][1][2][0]
        if r["error"]:
            ctx.broken.append("%s: %s" % (n, r["error"][:300]))
            continue
        ctx.count("estimators")
        ctx.count("live_estimators", r["facts"]["status"] == "ok")
        for x in r["facts"]["held"]:
            ctx.violation("%s|%s" % (n, x), "%s: %s" % (n, x))
    ctx.need("live_estimators", 27)
