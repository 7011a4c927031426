"""Abstract programs: the user-level call histories that the interpreter analyses.

Every program is (construct estimator with arbitrary options) -> fit -> transform/predict ->
read results, or (one Triangle operation), with the caller-owned objects frozen first."""
import ast
import time
import traceback

from . import contracts
from .drivers import Driver, union
from .engine import (AV_BOOL, AV_FALSE, AV_INT, AV_NONE, AV_STR, AV_T, AV_TRUE, Budget, C,
                     ClassInfo, Dead, E, Interp, MISSING, UNDEF)
from .model import AnalysisBroken

PATTERN_ATTRS = ("ldf_", "sigma_", "std_err_")
CARRIED = PATTERN_ATTRS + ("average_", "w_", "w_v2_", "group_index")
BUDGET = 60_000_000


def exported_estimators(I):
    """Public estimator classes: every package class with its own or inherited `fit`."""
    out = {}
    env = I.modenv["chainladder"]
    for f in list(I.fields[env]):
        v = I.heap.get((env, f), MISSING)
        if v is MISSING or not isinstance(f, str):
            continue
        for a in v:
            if a[0] == "k" and I.find_method(a[1], "fit"):
                out[a[1].name] = a[1]
    return out


def user(I, label, tag=None):
    """An unknown caller-owned object."""
    oid = I.alloc("ext", None, None, tag)
    av = frozenset([("o", oid)])
    I.freeze(av, label)
    return av


def model_like(I, label):
    return user(I, label, "model")


class Session:
    def __init__(self, raw=(), budget=BUDGET):
        self.I = Interp(budget=budget)
        self.D = Driver(self.I)
        contracts.install(self.I, raw)
        self.status = {}
        self.t0 = time.time()

    # ------------------------------------------------------------ inputs
    def triangle(self, label, enriched=True, is_pattern=False):
        """enriched: True: any pattern attribute may be attached; a tuple: exactly these are."""
        I, D = self.I, self.D
        en = {}
        if isinstance(enriched, tuple):
            for a in enriched:
                en[a] = D.pattern()
            if "sigma_" in enriched:
                en["average_"] = self.any(label)
                en["w_"] = self.any(label, "ndarray")
                en["w_v2_"] = D.triangle() | AV_NONE
                en["group_index"] = AV_NONE | self.any(label)
            x = D.triangle(enriched=en, is_pattern=is_pattern, optional=False)
            if label:
                I.freeze(x, label)
            return x
        if enriched:
            for a in PATTERN_ATTRS:
                en[a] = D.pattern()
            en["average_"] = self.any(label)
            en["w_"] = self.any(label, "ndarray")
            en["w_v2_"] = D.triangle() | AV_NONE
            en["group_index"] = AV_NONE | self.any(label)
        x = D.triangle(enriched=en, is_pattern=is_pattern)
        if label:
            I.freeze(x, label)
        return x

    def any(self, label, tag=None):
        oid = self.I.alloc("ext", None, None, tag)
        return frozenset([("o", oid)])

    def estimator(self, name, **kw):
        """A configured estimator supplied by the caller (not frozen: composites fit it)."""
        I = self.I
        e = I.instantiate(self.D.cls(name), [], {k: C(v) for k, v in kw.items()}, None)
        return e

    def steps(self, names, kind="list"):
        I = self.I
        items = []
        for n in names:
            items.append(I.new_seq("tuple", [C(n.lower()), self.estimator(n)], None))
        return I.new_seq(kind, items, None)

    # ------------------------------------------------------------ params
    def param_value(self, cls, name, default, special=True):
        I = self.I
        label = "param " + name
        if special:
            if cls == "Pipeline" and name == "steps":
                return self.steps(["Development", "TailCurve", "Chainladder"])
            if cls in ("VotingChainladder", "_BaseChainladderVoting") and name == "estimators":
                return self.steps(["Chainladder", "BornhuetterFerguson"])
            if cls == "GridSearch" and name == "estimator":
                return self.steps_pipeline()
            if name in ("estimator_ml",):
                return model_like(I, label) | AV_NONE
            if name == "reported_count_estimator":
                return self.estimator("Chainladder") | AV_NONE
            if name in ("paid_to_incurred", "paid_amount", "incurred_amount", "reported_count",
                        "closed_count"):
                return AV_STR | user(I, label)
            if cls == "GridSearch" and name in ("scoring", "param_grid"):
                return user(I, label)
            if name == "fit_period" or name == "reg_threshold":
                t = I.new_seq("tuple", [AV_T | AV_NONE, AV_T | AV_NONE], None)
                return t
        dv = default if default is not None else E
        out = dv
        kinds = {a[1] for a in dv if a[0] == "c"}
        if kinds and kinds <= {"bool"}:
            return union(True, False)
        if kinds & {"str"}:
            out |= AV_STR | user(I, label)
        elif kinds & {"int", "float"} or not kinds or "NoneType" in kinds:
            out |= AV_T | user(I, label)
        return out

    def steps_pipeline(self):
        return self.I.instantiate(self.D.cls("Pipeline"), [],
                                  {"steps": self.steps(["Development", "Chainladder"])}, None)

    def params(self, ci, special=True):
        I = self.I
        init = I.find_method(ci, "__init__")
        kw = {}
        if init is None:
            if ci.name == "Pipeline":
                kw["steps"] = self.param_value("Pipeline", "steps", None)
            return kw
        a = init.fi.node.args
        names = [x.arg for x in a.posonlyargs + a.args][1:]
        defs = [None] * (len(names) - len(init.defaults)) + list(init.defaults)
        for n, d in zip(names, defs):
            kw[n] = self.param_value(ci.name, n, d, special)
        for x in a.kwonlyargs:
            kw[x.arg] = self.param_value(ci.name, x.arg, init.kwdefaults.get(x.arg), special)
        return kw

    # ------------------------------------------------------------ running
    def phase(self, name, thunk):
        I = self.I
        I.trys = []
        n = len(I.stack)
        t = time.time()
        I.phase_mark = len(I.meta)
        try:
            r = thunk()
            self.status[name] = "ok"
            return r
        except Dead:
            self.status[name] = "dead"
        except Budget:
            self.status[name] = "budget"
        finally:
            del I.stack[n:]
            I.suppress = 0
            self.status[name + ".s"] = round(time.time() - t, 2)
        return None


def weight_for(I, ci, method, sw):
    """The sample_weight argument, where the method declares one."""
    m = I.find_method(ci, method)
    fi = getattr(m, "fi", m)
    return {"sample_weight": sw} if "sample_weight" in getattr(fi, "args", ()) else {}


def run_estimator(name, read=True, budget=BUDGET, deep=False):
    """construct -> fit -> (freeze) -> transform/predict -> read results"""
    S = Session(budget=budget * (4 if deep else 1))
    if deep:
        S.I.rec_bound = 5
    I, D = S.I, S.D
    ci = D.cls(name)
    params = S.phase("params", lambda: S.params(ci))
    out = {"program": name, "S": S, "verbatim": [], "ret": None,
           "params": sorted(params or ())}
    est = S.phase("construct", lambda: I.instantiate(ci, [], params, None))
    if est is None:
        return out
    (eo,) = [a[1] for a in est]
    for p, av in params.items():
        got = I.heap.get((eo, p), MISSING)
        if got is MISSING or got != av:
            out["verbatim"].append((p, got is MISSING))
    I.meta[eo].tag = ("est", frozenset(params))
    X = S.triangle("X")
    sw = S.triangle("sample_weight", enriched=False)
    for p, av in params.items():
        I.freeze(frozenset(a for a in av if a[0] == "o" and I.meta[a[1]].ci is None
                           and not holds_estimator(I, a[1])), "param " + p)
    needs_sw = name in NEEDS_SW
    swv = sw if needs_sw else sw | AV_NONE
    out["X"], out["est"], out["sample_weight"] = X, est, sw
    I.watch = eo
    I.wires = set()
    I.on_ext = I.on_ext + [
        lambda I, nm, args, kw, node: I.note_wires(nm, kw, node)]
    r = S.phase("fit", lambda: I.call_attr(est, "fit", [X], {"sample_weight": swv}, None))
    out["ret"] = None if r is None else (r == est)
    out["n_fit"] = len(I.events)
    if r is None:
        return out
    I.meta[eo].tag = None
    I.freeze(est, "estimator")
    out["fitted"] = sorted(f for f in I.fields[eo] if isinstance(f, str)
                           and (eo, f) in I.heap)
    X2 = S.triangle("X2")
    sw2 = S.triangle("sample_weight2", enriched=False)
    sw2v = sw2 if needs_sw else sw2 | AV_NONE
    out["X2"], out["sample_weight2"] = X2, sw2
    res = None
    if I.find_method(ci, "transform"):
        res = S.phase("transform", lambda: I.call_attr(
            est, "transform", [X2], weight_for(I, ci, "transform", sw2v), None))
        out["transform"] = res
    if I.find_method(ci, "predict"):
        res = S.phase("predict", lambda: I.call_attr(est, "predict", [X2],
                                                     {"sample_weight": sw2v}, None))
        out["predict"] = res
    if res is not None:
        I.freeze(frozenset(a for a in res if a[0] == "o"), "result")
    if read:
        targets = [("estimator", est)]
        if res is not None:
            rs = frozenset(a for a in res if a[0] == "o" and I.meta[a[1]].ci is not None)
            if rs:
                targets.append(("result", rs))
        for lab, t in targets:
            tci = I.meta[sorted(t)[0][1]].ci
            for pn in sorted(properties(I, tci)):
                if lab == "result" and not pn.endswith("_"):
                    continue
                S.phase("read %s.%s" % (lab, pn), lambda: I.load_attr(t, pn, None))
    out["facts"] = {"watched": {k: sorted(v) for k, v in I.watched.items()},
                    "wires": sorted(I.wires), "made": sorted(I.made)}
    return out


def run_refit(name, budget=BUDGET, deep=False):
    """construct -> fit(X) -> fit(X2): which attributes learned by the first fit are consulted
    by the second one before it has set them again?"""
    S = Session(budget=budget * (4 if deep else 1))
    I, D = S.I, S.D
    if deep:
        I.rec_bound = 5
    ci = D.cls(name)
    params = S.phase("params", lambda: S.params(ci))
    out = {"program": name, "S": S, "facts": {}}
    est = S.phase("construct", lambda: I.instantiate(ci, [], params, None))
    if est is None:
        return out
    (eo,) = [a[1] for a in est]
    before = {f: I.heap[(eo, f)] for f in I.fields[eo] if (eo, f) in I.heap}
    X = S.triangle("X")
    sw = S.triangle("sample_weight", enriched=False)
    swv = sw if name in NEEDS_SW else sw | AV_NONE
    r = S.phase("fit1", lambda: I.call_attr(est, "fit", [X], {"sample_weight": swv}, None))
    if r is None:
        return out
    I.meta[eo].tag = ("est", frozenset())
    learned = [f for f in I.fields[eo] if isinstance(f, str) and f[:1] not in "#*["
               and (eo, f) in I.heap and f not in params
               # constants of the constructor that fit leaves alone
               and not (f in before and before[f] == I.heap[(eo, f)]
                        and all(a[0] == "c" for a in before[f]))]
    for f in learned:
        I.hset(eo, "#stale:" + f, AV_TRUE)
    out["facts"]["learned"] = sorted(learned)
    out["facts"]["init_only"] = sorted(set(learned) & set(before))
    I.events.clear()
    # which patterns X carries decides several branches consistently: one refit per combination
    for i, attrs in enumerate(((), PATTERN_ATTRS, ("ldf_",))):
        X2 = S.triangle(None, enriched=attrs)
        sw2 = S.triangle(None, enriched=False)
        sw2v = sw2 if name in NEEDS_SW else sw2 | AV_NONE
        for f in learned:
            I.hset(eo, "#stale:" + f, AV_TRUE)
        r2 = S.phase("fit%d" % (i + 2),
                     lambda: I.call_attr(est, "fit", [X2], {"sample_weight": sw2v}, None))
        if r2 is not None:
            out["facts"]["left%d" % (i + 2)] = sorted(
                f for f in learned if (eo, "#stale:" + f) in I.heap
                and AV_TRUE <= I.heap[(eo, "#stale:" + f)])
    return out


NEEDS_SW = ("BornhuetterFerguson", "Benktander", "CapeCod", "ExpectedLoss",
            "IncrementalAdditive", "ParallelogramOLF")


def holds_estimator(I, oid):
    for o in I.reach(frozenset([("o", oid)])):
        ci = I.meta[o].ci
        if ci is not None and I.find_method(ci, "fit"):
            return True
    return False


def properties(I, ci):
    out = set()
    for c in ci.mro():
        if isinstance(c, ClassInfo):
            for n, p in c.props.items():
                if not n.startswith("_") and p["get"] is not None:
                    out.add(n)
    return out


def methods(I, ci):
    out = {}
    for c in ci.mro():
        if isinstance(c, ClassInfo):
            for n, fv in c.methods.items():
                out.setdefault(n, fv)
            for n, av in c.attrs.items():
                for a in av:
                    if a[0] == "f":
                        out.setdefault(n, a[1])
    return out


# ============================================================================= operations
SKIP_OPS = {"__init__", "__setitem__", "__repr__", "__array_function__", "hvplot", "plot"}
LOC_OPS = ("loc", "iloc", "at", "iat")
GROUP_OPS = ("sum", "mean", "max", "min", "std", "var", "prod", "median", "quantile")


def opaque_args(S, fv, X, inplace=None, label="argument"):
    """Keyword arguments for a method by parameter name and default (self excluded)."""
    I = S.I
    a = fv.fi.node.args
    names = [x.arg for x in a.posonlyargs + a.args][1:]
    defs = [None] * (len(names) - len(fv.defaults)) + list(fv.defaults)
    kw = {}
    for n, d in zip(names, defs):
        if n == "inplace":
            kw[n] = C(bool(inplace))
            continue
        v = E if d is None else d
        kinds = {x[1] for x in v if x[0] == "c"}
        if n in ("other",):
            v = S.triangle("other", enriched=False) | AV_T
        elif n == "axis":
            v |= AV_STR | AV_INT
        elif n in ("func", "ufunc"):
            v = AV_T
        elif n == "backend":
            v = union("numpy", "sparse", "cupy", "dask")
        elif n in ("path",):
            v = AV_STR
        elif kinds and kinds <= {"bool"}:
            v = union(True, False)
        elif kinds & {"str"}:
            v |= AV_STR
        else:
            v |= AV_T | user(I, label + " " + n)
            if n in ("value", "data"):
                v |= S.triangle("other", enriched=False) if n == "value" else E
        kw[n] = v
    return kw


def op_list(I, D):
    tri = D.cls("Triangle")
    out = []
    for n, fv in sorted(methods(I, tri).items()):
        if n in SKIP_OPS or (n.startswith("_") and not n.startswith("__")):
            continue
        out.append(("method", n))
        if "inplace" in fv.fi.params:
            out.append(("inplace", n))
    for n in sorted(properties(I, tri)):
        out.append(("read", n))
    for n in LOC_OPS:
        out.append(("loc", n))
        out.append(("setloc", n))
    out += [("setitem", ""), ("setattr", "columns"), ("setattr", "origin"),
            ("setattr", "development"), ("setattr", "index")]
    for n in GROUP_OPS:
        if I.find_method(D.cls("TriangleGroupBy"), n):
            out.append(("group", n))
    out += [("construct", ""), ("concat", ""), ("func", "parallelogram_olf"),
            ("func", "read_json"), ("func", "load_sample"), ("func", "minimum"),
            ("func", "maximum"), ("func", "model_diagnostics")]
    return out


def run_op(kind, name, budget=BUDGET, deep=False, prep=None):
    from .contracts import OPS
    raw = [name] if name in OPS else (["concat"] if kind == "concat" else
                                      ["setitem"] if kind == "setitem" else [])
    S = Session(raw=raw, budget=budget * (4 if deep else 1))
    if deep:
        S.I.rec_bound = 5
    I, D = S.I, S.D
    out = {"program": "%s %s" % (kind, name), "S": S}
    X = S.triangle("X" if kind not in ("inplace", "setitem", "setloc", "setattr") else None)
    out["X"] = X
    if prep is not None:
        prep(S, X)
    tri = D.cls("Triangle")
    if kind in ("method", "inplace"):
        fv = methods(I, tri)[name]
        kw = opaque_args(S, fv, X, kind == "inplace")
        pos = []
        if name == "__array_ufunc__":
            kw["method"] = C("__call__")
            fo = kw.pop("ufunc")
            pos = [fo, kw.pop("method"), X, S.triangle("other", enriched=False) | AV_T]
        if name in ("pipe",):
            pos, kw = [AV_T], {}
        static = not fv.fi.args
        out["res"] = S.phase("call", lambda: I.call_attr(X, name, pos, kw, None))
    elif kind == "read":
        out["res"] = S.phase("call", lambda: I.load_attr(X, name, None))
    elif kind in ("loc", "setloc"):
        loc = I.load_attr(X, name, None)
        idx = AV_INT | AV_STR | user(I, "argument key") | I.new_seq(
            "tuple", [AV_T | user(I, "argument key"), AV_T, AV_T, AV_T], None)
        if kind == "loc":
            out["res"] = S.phase("call", lambda: I.call_attr(loc, "__getitem__", [idx], {}, None))
        else:
            v = S.triangle("other", enriched=False) | AV_T
            out["res"] = S.phase("call",
                                 lambda: I.call_attr(loc, "__setitem__", [idx, v], {}, None))
    elif kind == "setitem":
        v = S.triangle("other", enriched=False) | AV_T
        out["res"] = S.phase("call", lambda: I.call_attr(
            X, "__setitem__", [AV_STR, v], {}, None))
    elif kind == "setattr":
        v = user(I, "argument value") | S.D.strlist()
        I.freeze(v, "argument value")
        out["res"] = S.phase("call", lambda: I.store_attr(X, name, v, None))
    elif kind == "group":
        def go():
            g = I.call_attr(X, "groupby", [AV_STR | user(I, "argument by") | S.D.strlist() | AV_T],
                            {"axis": union(0, 1, 2)}, None)
            return I.call_attr(g, name, [], {}, None)
        out["res"] = S.phase("call", go)
    elif kind == "construct":
        data = user(I, "argument data", "pandas.DataFrame")
        lab = lambda n: AV_STR | AV_NONE | frozen_list(S, "argument " + n)
        kw = {"data": data, "origin": lab("origin"), "development": lab("development"),
              "columns": lab("columns"), "index": lab("index"),
              "origin_format": AV_STR | AV_NONE, "development_format": AV_STR | AV_NONE,
              "cumulative": union(True, False, None),
              "array_backend": union("numpy", "sparse", None), "pattern": AV_BOOL,
              "trailing": AV_BOOL}
        out["res"] = S.phase("call", lambda: I.instantiate(tri, [], kw, None))
    elif kind == "concat":
        a, b = X, S.triangle("other")
        lst = I.new_seq("list", [a, b], None) | I.new_seq("tuple", [a, b], None)
        I.freeze(lst, "argument objs")
        out["res"] = S.phase("call", lambda: package_fn(I, "concat", [lst, union(0, 1, 2, 3)],
                                                        {"ignore_index": AV_BOOL,
                                                         "sort": AV_BOOL}))
    elif kind == "func":
        if name == "parallelogram_olf":
            args = [user(I, "argument values"), user(I, "argument date")]
        elif name in ("minimum", "maximum"):
            args = [X, S.triangle("other") | AV_T]
        elif name == "model_diagnostics":
            m = S.estimator("Chainladder")
            m2 = S.phase("fit", lambda: I.call_attr(m, "fit", [X], {}, None))
            if m2 is None:
                return out
            I.freeze(m2, "argument model")
            args = [m2, AV_STR | AV_NONE, AV_STR | AV_NONE]
        else:
            args = [AV_STR]
        out["res"] = S.phase("call", lambda: package_fn(I, name, args, {}))
    return out


def frozen_list(S, label):
    v = S.D.strlist()
    S.I.freeze(v, label)
    return v


def package_fn(I, name, args, kwargs):
    env = I.modenv["chainladder"]
    v = I.heap.get((env, name), MISSING)
    if v is MISSING:
        raise AnalysisBroken("chainladder.%s not exported" % name)
    return I.call(v, args, kwargs, None)


# ============================================================================= scenarios
def run_scen(arg, **opts):
    """arg: (rule module, function, args): a small program defined next to its rule.
    The function returns (Scenario, facts)."""
    import importlib
    mod, fn, args = arg
    sc, facts = getattr(importlib.import_module("sa.rules." + mod), fn)(*args, **opts)
    return {"program": "%s %s" % (fn, args), "S": sc.S, "facts": facts}
