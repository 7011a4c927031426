"""Small abstract programs with some arguments fixed to constants, used for exhaustiveness,
rejection and table rules.  A scenario is live when some abstract path completes normally."""
from . import contracts
from .drivers import union
from .engine import (AV_BOOL, AV_FALSE, AV_INT, AV_NONE, AV_STR, AV_T, AV_TRUE, C, Dead, E,
                     MISSING, UNDEF)
from .programs import NEEDS_SW, PATTERN_ATTRS, Session, exported_estimators, package_fn, user, weight_for

DIMS = ("kdims", "vdims", "odims", "ddims")
CORE = ("values", "kdims", "vdims", "odims", "ddims", "key_labels", "origin_grain",
        "development_grain", "origin_close", "is_cumulative", "is_pattern", "array_backend",
        "valuation_date")


class Scenario:
    def __init__(self, raw=(), obs=False):
        self.S = Session(raw=raw)
        self.I, self.D = self.S.I, self.S.D
        if obs:
            self.I.obs = {}
        self.ext = set()
        self.I.on_ext = [self._ext]
        self.idx = set()          # axes of 4-d arrays or triangles selected by position
        self.I.on_index = [self._index]

    def _ext(self, I, name, args, kwargs, node):
        ax = kwargs.get("axis")
        if ax is not None:
            cs = [a[2] for a in ax if a[0] == "c"]
            if len(cs) == len(ax) == 1 and isinstance(cs[0], int):
                self.ext.add((name.rsplit(".", 1)[-1], cs[0] % 4))

    def _index(self, I, base, elems, node):
        if not any(a[0] == "o" and (I.meta[a[1]].cls == "ext" or I.meta[a[1]].ci is not None)
                   for a in base):
            return
        dots = [i for i, e in enumerate(elems)
                if any(a[0] == "c" and a[1] == "ellipsis" for a in e)]
        pos = set()
        for i, e in enumerate(elems):
            if all(a[0] == "c" and a[1] in ("slice", "ellipsis") and a[2] in (
                    (None, None, None), Ellipsis, "...") for a in e) or any(
                    a[0] == "c" and a[1] in ("ellipsis", "NoneType") for a in e):
                continue
            if len(elems) == 4 and not dots:
                pos.add(i)
            elif len(dots) == 1 and len(elems) <= 4:
                pos.add(i if i < dots[0] else 4 - (len(elems) - i))
        if 0 < len(pos) < 4:
            self.idx.add(tuple(sorted(pos)))

    def tri(self, label="X", enriched=False, **fixed):
        x = self.S.triangle(label, enriched=enriched)
        (o,) = [a[1] for a in x]
        fz = self.I.frozen.pop(o, None)
        for k, v in fixed.items():
            self.I.hset(o, k, v if isinstance(v, frozenset) else C(v))
        if fz:
            self.I.frozen[o] = fz
        return x

    def phase(self, name, thunk):
        return self.S.phase(name, thunk)

    def status(self, name):
        return self.S.status.get(name)

    def call(self, base, name, args=(), **kw):
        kw = {k: v if isinstance(v, frozenset) else C(v) for k, v in kw.items()}
        args = [a if isinstance(a, frozenset) else C(a) for a in args]
        return self.phase("run", lambda: self.I.call_attr(base, name, args, kw, None))

    def fn(self, name, args=(), **kw):
        kw = {k: v if isinstance(v, frozenset) else C(v) for k, v in kw.items()}
        args = [a if isinstance(a, frozenset) else C(a) for a in args]
        return self.phase("run", lambda: package_fn(self.I, name, args, kw))

    def new(self, cls, special=True, **fixed):
        """Estimator with arbitrary options except the fixed ones."""
        ci = self.D.cls(cls)
        params = self.S.params(ci, special)
        for k in fixed:
            if k not in params:
                from .model import AnalysisBroken
                raise AnalysisBroken("%s has no option %s" % (cls, k))
        params.update({k: v if isinstance(v, frozenset) else C(v) for k, v in fixed.items()})
        return self.phase("construct", lambda: self.I.instantiate(ci, [], params, None))

    def fit_use(self, est, cls, X=None, sw="given", predict=True):
        """fit, then transform/predict; -> (fit status, use status)"""
        I = self.I
        X = self.tri("X", enriched=True) if X is None else X
        w = self.S.triangle("sample_weight", enriched=False)
        swv = AV_NONE if sw is None else (w if cls in NEEDS_SW else w | AV_NONE)
        if est is None:
            return "dead", "dead"
        r = self.phase("fit", lambda: I.call_attr(est, "fit", [X], {"sample_weight": swv}, None))
        if r is None:
            return self.status("fit"), "dead"
        use = "ok"
        if predict:
            ci = self.D.cls(cls)
            if I.find_method(ci, "transform"):
                self.res = self.phase("use", lambda: I.call_attr(
                    est, "transform", [X], weight_for(I, ci, "transform", swv), None))
                use = self.status("use")
            elif I.find_method(ci, "predict"):
                self.res = self.phase("use", lambda: I.call_attr(
                    est, "predict", [X], {"sample_weight": swv}, None))
                use = self.status("use")
        return "ok", use

    def mark(self, X, fields=("values", "kdims", "vdims", "odims", "ddims")):
        """Remember X's current content; in-place writes to it become events."""
        I = self.I
        (xo,) = [a[1] for a in X]
        for f in fields:
            I.freeze(frozenset(a for a in I.heap[(xo, f)] if a[0] == "o"), "old " + f)
        self.before = {f: I.heap[(xo, f)] for f in I.fields[xo]
                       if isinstance(f, str) and (xo, f) in I.heap}
        return X

    def changed(self, av):
        """{field: abstract value} of the objects in `av` that differ from the marked content."""
        I = self.I
        out = {}
        for a in av or ():
            if a[0] != "o" or I.meta[a[1]].ci is None:
                continue
            for f in CORE:
                v = I.heap.get((a[1], f), MISSING)
                if v is not MISSING:
                    out[f] = out.get(f, E) | v
        out = {f: v for f, v in out.items() if v != self.before.get(f)}
        for e in I.events.values():
            if e.kind == "mutate" and e.label.startswith("old "):
                out.setdefault(e.label[4:], E)
        return out

    def consts(self, av, field):
        """Constant values a field may hold over the objects in av (None: not constant)."""
        I = self.I
        out = set()
        for a in av or ():
            if a[0] != "o" or I.meta[a[1]].ci is None:
                return None
            for v in I.heap.get((a[1], field), E):
                if v[0] != "c":
                    return None
                out.add(v[2])
        return out

    # ------------------------------------------------------------ observation
    def signature(self, X, res):
        """What the result shows: per core field, whether it is X's own value or another one."""
        I = self.I
        if res is None:
            return ("raises",)
        (xo,) = [a[1] for a in X if a[0] == "o"]
        out = {}
        for a in res:
            if a[0] != "o" or I.meta[a[1]].ci is None:
                continue
            for f in CORE:
                v = I.heap.get((a[1], f), MISSING)
                x = I.heap.get((xo, f), MISSING)
                if v is MISSING:
                    out.setdefault(f, set()).add("absent")
                    continue
                out.setdefault(f, set()).add("same" if v == x else
                                             "maybe" if x is not MISSING and v & x else "new")
        return ("ok", tuple(sorted((k, tuple(sorted(v))) for k, v in out.items())),
                tuple(sorted(self.ext)), tuple(sorted(self.idx)))

    def consts_of(self, av):
        """What kinds of plain values a result may be."""
        return {str(a[1:]) if a[0] in ("c", "t") else
                (self.I.meta[a[1]].cls or "") if a[0] == "o" else a[0] for a in av or ()}

    def observations(self):
        """{(file, line, col, text): constants} for nodes that only ever took constant values."""
        out = {}
        for n, (file, func, vals) in (self.I.obs or {}).items():
            if "?" in vals:
                continue
            out[(file, n.lineno, n.col_offset, n.end_lineno, n.end_col_offset, func)] = \
                frozenset(v[2] if not isinstance(v[2], float) or v[2] == v[2] else "nan"
                          for v in vals)
        return out

    def visited(self):
        """Positions of the statements reached."""
        out = set()
        for st in self.I.visited_positions():
            out.add(st)
        return out
