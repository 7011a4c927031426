"""C13: an axis means the same however it is written, and operations act on the axis named."""
from . import common
from .. import runner
from ..engine import AV_INT, AV_STR, AV_T, C, E
from ..programs import Session, methods, opaque_args
from ..scenarios import DIMS, Scenario

RULE = ("for every Triangle method with an `axis` argument (and groupby + aggregation, concat): "
        "the abstract results for k, k-4 and the axis name are equal (completion, labels kept or "
        "changed, flags, axes passed to library reductions, positions subscripted); unknown axes "
        "raise; for axis k no other axis' labels change, and library reductions, concatenations "
        "and positional selections use axis k only")
EXPLANATION = common.ENGINE + (". One abstract program per method and spelling of the axis.")
ASSUMPTIONS = common.ASSUME
AX = {0: (0, -4, "index"), 1: (1, -3, "columns"), 2: (2, -2, "origin"), 3: (3, -1, "development")}
UNKNOWN = (4, -5, "no such axis")
# not axis arguments of the triangle, or deprecated without effect
SKIP = {"broadcast_axis": "deprecated, no effect", "heatmap": "axis of a pandas styler",
        "trend": "documented values are origin and valuation",
        "cumsum": "numpy axis semantics kept", "diff": "numpy axis semantics kept"}
# label changes that belong to the operation, beyond the labels of axis k
ALSO = {0: ("key_labels",), 1: (), 2: ("valuation_date",), 3: ("valuation_date",)}
# operations that rebuild the triangle by slicing and concatenating: labels of the other axes are
# carried through the generic code and only `same` or `rebuilt`, never relabelled, is decidable
REBUILT = ("shift", "sort_axis", "drop", "groupby", "concat")


def args_for(s, name):
    I, D = s.I, s.D
    fv = methods(I, D.cls("Triangle"))[name]
    kw = {}
    a = fv.fi.node.args
    ps = [x.arg for x in a.args][1:]
    for n in ps:
        if n in ("value", "labels", "by", "periods", "q", "q_"):
            kw[n] = AV_INT if n == "periods" else AV_T
    return kw


def one(name, axis):
    s = Scenario(raw=("concat",) if name in ("shift", "concat") else ())
    I = s.I
    X = s.tri(None)
    if name == "concat":
        Y = s.tri(None)
        lst = I.new_seq("list", [X, Y], None)
        r = s.fn("concat", [lst, axis])
    elif name.startswith("groupby "):
        g = s.call(X, "groupby", [AV_T], axis=axis)
        r = None if g is None else s.call(g, name.split()[1])
    else:
        r = s.call(X, name, axis=axis, **args_for(s, name))
    sig = s.signature(X, r)
    raw = sorted(s.consts_of(r)) if r else []
    return s, {"sig": sig, "raw": raw, "idx": sorted(s.idx), "ext": sorted(s.ext),
               "labels": {f: tuple(v) for f, v in (sig[1] if len(sig) > 1 else ())},
               "status": s.status("run")}


def names(S):
    I, D = S.I, S.D
    out = []
    for n, fv in sorted(methods(I, D.cls("Triangle")).items()):
        if n.startswith("_") or n in SKIP:
            continue
        if "axis" in fv.fi.params:
            out.append(n)
    out += ["groupby " + n for n in ("sum", "mean", "max", "std")]
    return out + ["concat"]


def run(ctx):
    S = Session()
    ns = [n for n in names(S) if n != "groupby"]
    ctx.lists["methods"] = ns
    ctx.count("methods", len(ns))
    ctx.need("methods", 16)
    tasks = [(n, a) for n in ns for al in list(AX.values()) + [UNKNOWN] for a in al]
    res = {}
    for r in runner.run(runner.scen_tasks("c13", "one", tasks)):
        n, a = r["task"][1][2]
        if r["error"]:
            ctx.broken.append("%s axis=%r: %s" % (n, a, r["error"][:300]))
            continue
        res[(n, a)] = r["facts"]
        ctx.count("programs")
    live = 0
    for n in ns:
        for k, al in AX.items():
            fs = [res.get((n, a)) for a in al]
            if any(f is None for f in fs):
                continue
            live += fs[0]["status"] == "ok"
            for a, f in zip(al[1:], fs[1:]):
                ctx.count("spelling_pairs")
                if f["sig"] != fs[0]["sig"] or f["raw"] != fs[0]["raw"]:
                    ctx.violation("%s|axis %r vs %r" % (n, al[0], a), "%s: axis=%r gives %s, "
                                  "axis=%r gives %s" % (n, al[0], diff(fs[0], f), a,
                                                        diff(f, fs[0])))
            for a, f in zip(al, fs):
                if f["status"] != "ok":
                    continue
                acts(ctx, n, k, a, f)
        used(ctx, n, {k: res[(n, al[0])] for k, al in AX.items() if (n, al[0]) in res})
        for a in UNKNOWN:
            f = res.get((n, a))
            if f is not None:
                ctx.count("unknown_axes")
                if f["status"] == "ok":
                    ctx.violation("%s|unknown axis %r" % (n, a),
                                  "%s(axis=%r) completes instead of raising" % (n, a))
    ctx.counts["live_method_axes"] = live
    ctx.need("live_method_axes", 50)


def diff(f, g):
    if f["status"] != g["status"]:
        return "completes" if f["status"] == "ok" else "raises"
    out = []
    for k in f["labels"]:
        if f["labels"][k] != g["labels"].get(k):
            out.append("%s %s" % (k, "/".join(f["labels"][k])))
    for k in ("ext", "idx", "raw"):
        if f[k] != g[k]:
            out.append("%s %s" % ({"ext": "library axes", "idx": "positions", "raw": "value"}[k],
                                  f[k]))
    return ", ".join(out) or "the same"


def used(ctx, n, by_axis):
    """A library operation that follows the axis on two axes follows it on the others too."""
    live = {k: f for k, f in by_axis.items() if f["status"] == "ok"}
    fns = {fn for f in live.values() for fn, ax in f["ext"]}
    for fn in sorted(fns):
        at = [k for k, f in live.items() if (fn, k) in f["ext"]]
        for k, f in live.items():
            others = {ax for g, ax in f["ext"] if g == fn}
            if len(at) >= 2 and k not in at and others:
                ctx.violation("%s|%s not along axis %d" % (n, fn, k),
                              "%s(axis=%d) calls %s along axis %s only" % (n, k, fn, sorted(others)))
            ctx.count("followed_axes", k in at)


def acts(ctx, n, k, a, f):
    for d, dim in enumerate(DIMS):
        if d == k or dim not in f["labels"]:
            continue
        ctx.count("other_axes")
        if n.split()[0] not in REBUILT and set(f["labels"][dim]) - {"same"}:
            ctx.violation("%s|axis %r changes %s" % (n, a, dim),
                          "%s(axis=%r) changes %s, the labels of another axis" % (n, a, dim))
    if k == 1:
        return                   # columns are also selected inside generic slicing
    for fn, ax in f["ext"]:
        ctx.count("library_axes")
        if ax not in (k, 1):
            ctx.violation("%s|axis %r calls %s on %d" % (n, a, fn, ax),
                          "%s(axis=%r) calls %s along axis %d" % (n, a, fn, ax))
    for p in f["idx"]:
        if len(p) == 1 and p[0] not in (k, 1):
            ctx.violation("%s|axis %r selects on %d" % (n, a, p[0]),
                          "%s(axis=%r) selects positions along axis %d" % (n, a, p[0]))
