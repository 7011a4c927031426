from . import common
from .. import runner
from ..engine import AV_STR, AV_T, C, E
from ..programs import Session, methods, opaque_args, op_list
from ..scenarios import Scenario

RULE = ("for every Triangle method with an `inplace` option: inplace=True returns exactly the "
        "receiver and gives it every field change (flags, grain, back-end, values, labels) that "
        "inplace=False gives to its result; inplace=False returns another object")
EXPLANATION = common.ENGINE + (". One pair of abstract programs (inplace=True / False) per method "
    "and start state; the abstract heap after the call is compared field by field.")
ASSUMPTIONS = common.ASSUME

# start states worth telling apart: the form, back-end and grain the method converts from/to
STATES = {
    "incr_to_cum": [(dict(is_cumulative=False), {}), (dict(is_cumulative=True), {}),
                    (dict(is_cumulative=False, is_pattern=True), {})],
    "cum_to_incr": [(dict(is_cumulative=True), {}), (dict(is_cumulative=False), {}),
                    (dict(is_cumulative=None), {}),
                    (dict(is_cumulative=True, is_pattern=True), {})],
    "set_backend": [(dict(array_backend=a), dict(backend=b, deep=False))
                    for a in ("numpy", "sparse", "cupy", "dask")
                    for b in ("numpy", "sparse", "cupy")],
    "grain": [(dict(origin_grain=o, development_grain=d, is_cumulative=c), dict(grain=g))
              for c in (True, False)
              for o, d, g in (("Y", "M", "OYDY"), ("Q", "Q", "OYDQ"), ("M", "M", "OQDQ"),
                              ("M", "M", "OMDM"), ("M", "M", "OSDS"))],
    "fillna": [({}, dict(value=0))],
    "set_index": [({}, {})],
    "astype": [({}, {})],
}
for _n in ("dev_to_val", "val_to_dev"):
    STATES[_n] = [(dict(is_cumulative=c, ddims=k), {}) for c in (True, False)
                  for k in ("ndarray", "DatetimeIndex")]
DEFAULT = [(dict(is_cumulative=True), {}), (dict(is_cumulative=False), {})]
FLAGS = ("is_cumulative", "is_pattern", "array_backend", "origin_grain", "development_grain")
# what the method promises about the result (documented), by start state
CHANGES = {
    "incr_to_cum": lambda st, kw: {"values"} if not st["is_cumulative"] else (),
    "cum_to_incr": lambda st, kw: {"values"} if st["is_cumulative"] is not False else (),
    "dev_to_val": lambda st, kw: {"values", "ddims"} if st["ddims"] == "ndarray" else (),
    "val_to_dev": lambda st, kw: {"values", "ddims"} if st["ddims"] != "ndarray" else (),
    "grain": lambda st, kw: {"values", "odims", "ddims"},
    "fillna": lambda st, kw: {"values"}, "astype": lambda st, kw: {"values"},
    "set_index": lambda st, kw: {"kdims"},
    "set_backend": lambda st, kw: {"values"} if st["array_backend"] != kw["backend"] else (),
}
PROMISE = {
    "incr_to_cum": lambda st, kw: {"is_cumulative": True},
    "cum_to_incr": lambda st, kw: {"is_cumulative": False},
    "set_backend": lambda st, kw: {"array_backend": kw["backend"]},
}


def one(name, st, kw, inplace):
    s = Scenario()
    I = s.I
    st = dict(st)
    fixed = dict(st)
    if "ddims" in fixed:
        fixed["ddims"] = s.D.ext(fixed["ddims"])
    X = s.mark(s.tri(None, **fixed))
    fv = methods(I, s.D.cls("Triangle"))[name]
    args = opaque_args(s.S, fv, X, inplace)
    args.update({k: C(v) for k, v in dict(kw).items()})
    r = s.phase("call", lambda: I.call_attr(X, name, [], args, None))
    facts = {"name": name, "st": st, "kw": dict(kw), "inplace": inplace,
             "status": s.status("call")}
    if r is not None:
        facts["same"] = r == X
        facts["may_same"] = bool(r & X)
        facts["other"] = [str(a) for a in r if a[0] != "o" or I.meta[a[1]].ci is None]
        facts["flags"] = {f: sorted(map(repr, c)) if c is not None else None
                          for f in FLAGS for c in [s.consts(X if inplace else r, f)]}
        facts["changed"] = sorted(s.changed(X if inplace else r))
        facts["self_changed"] = sorted(s.changed(X))
    return s, facts


def run(ctx):
    S = Session()
    names = [n for k, n in op_list(S.I, S.D) if k == "inplace"]
    ctx.count("methods", len(names))
    tasks = []
    for n in names:
        for st, kw in STATES.get(n, DEFAULT):
            for ip in (True, False):
                tasks.append((n, tuple(st.items()), tuple(kw.items()), ip))
    res = common.collect(ctx, runner.run(runner.scen_tasks("c03", "one", tasks)), "call",
                         60, "in-place programs")
    by = {}
    for r in res:
        f = r["facts"]
        by.setdefault((f["name"], str(f["st"]), str(f["kw"])), {})[f["inplace"]] = f
    for (n, st, kw), d in sorted(by.items()):
        if len(d) != 2:
            continue
        a, b = d[True], d[False]
        where = "Triangle.%s(%s) from state %s" % (n, kw, st)
        if (a["status"] == "ok") != (b["status"] == "ok"):
            ctx.violation("%s|one-way-raises|%s|%s" % (n, st, kw),
                          "%s: inplace=True %s but inplace=False %s" % (
                              where, a["status"], b["status"]))
            continue
        if a["status"] != "ok":
            ctx.notes.append("both raise: " + where)
            continue
        ctx.count("pairs")
        if not a["same"]:
            ctx.violation("%s|inplace-returns|%s|%s" % (n, st, kw), "%s: inplace=True does not "
                          "return the receiver" % where)
        if b["may_same"]:
            ctx.violation("%s|copy-returns|%s|%s" % (n, st, kw), "%s: inplace=False may return "
                          "the receiver itself" % where)
        for f in FLAGS:
            ctx.count("flag_obligations")
            if a["flags"][f] != b["flags"][f]:
                ctx.violation("%s|flag|%s|%s|%s" % (n, f, st, kw),
                              "%s: `%s` becomes %s in place but %s on the new object" % (
                                  where, f, a["flags"][f], b["flags"][f]))
        # a copy has its own values, so `values` alone says nothing about the new object
        lost = sorted((set(b["changed"]) - {"values"}
                       | set(CHANGES.get(n, lambda *_: ())(a["st"], a["kw"])))
                      - set(a["changed"]))
        idle = sorted(set(CHANGES.get(n, lambda *_: ())(a["st"], a["kw"])) - {"values"}
                      - set(b["changed"]))
        if idle:
            ctx.violation("%s|idle|%s|%s|%s" % (n, ",".join(idle), st, kw),
                          "%s: inplace=False leaves %s unchanged" % (where, ", ".join(idle)))
        if lost:
            ctx.violation("%s|lost|%s|%s|%s" % (n, ",".join(lost), st, kw),
                          "%s: inplace=True leaves %s as they were although inplace=False "
                          "changes them" % (where, ", ".join(lost)))
        extra = sorted(set(a["changed"]) - set(b["changed"]))
        if extra:
            ctx.violation("%s|extra|%s|%s|%s" % (n, ",".join(extra), st, kw),
                          "%s: inplace=True changes %s although inplace=False does not" % (
                              where, ", ".join(extra)))
        if n in PROMISE:
            for f, v in PROMISE[n](a["st"], a["kw"]).items():
                ctx.count("promises")
                for d2, lab in ((a, "in place"), (b, "new object")):
                    if d2["flags"][f] != [repr(v)]:
                        ctx.violation("%s|promise|%s|%s|%s|%s" % (n, f, lab, st, kw),
                                      "%s (%s): `%s` is %s, promised %r" % (
                                          where, lab, f, d2["flags"][f], v))
    ctx.need("pairs", 30)
