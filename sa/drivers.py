"""Symbolic inputs and per-estimator driver programs for the abstract interpreter."""
from .engine import (Interp, AV_T, AV_INT, AV_BOOL, AV_STR, AV_NONE, AV_TRUE, AV_FALSE, C, E, T,
                     UNDEF, Frame, Dead, Budget)
from .model import AnalysisBroken

# fields a Triangle constructor leaves behind; cross-checked against Triangle.__init__
CORE_FIELDS = ("values", "kdims", "vdims", "odims", "ddims", "key_labels", "valuation_date",
               "origin_grain", "development_grain", "origin_close", "is_cumulative",
               "is_pattern", "array_backend", "columns_label", "origin_label",
               "virtual_columns", "iloc", "loc", "iat", "at")


def union(*vals):
    out = E
    for v in vals:
        out |= C(v)
    return out


class Driver:
    """Runs abstract programs at top level (one pseudo frame)."""

    def __init__(self, interp):
        self.I = interp
        mod = interp.p.modules["chainladder"]
        env = interp.alloc("env")
        interp.hset(env, "#parent", frozenset([("o", interp.modenv["chainladder"])]))
        fr = Frame(None, env, mod, len(interp.trail), len(interp.meta))
        interp.stack.append(fr)

    def cls(self, name):
        c = self.I.cls_by_name.get(name)
        if c is None:
            raise AnalysisBroken("class %s not found" % name)
        return c

    def ext(self, tag=None):
        return self.I.fresh_ext(None, tag)

    def strlist(self, n=None):
        return self.I.new_seq("list", None, None, AV_STR)

    def triangle(self, is_pattern=False, backends=("numpy", "sparse", "cupy", "dask"),
                 cumulative=(True, False, None), enriched=None, optional=True):
        I = self.I
        ci = self.cls("Triangle")
        oid = I.alloc("Triangle", ci)
        s = lambda f, v: I.hset(oid, f, v)
        s("values", self.ext(None))
        s("kdims", self.ext("ndarray"))
        s("vdims", self.ext("ndarray"))
        s("odims", self.ext("ndarray"))
        s("ddims", self.ext("ndarray") | self.ext("DatetimeIndex"))
        s("key_labels", self.strlist())
        s("columns_label", self.strlist())
        s("origin_label", self.strlist())
        s("valuation_date", AV_T)
        s("origin_grain", union("Y", "S", "Q", "M"))
        s("development_grain", union("Y", "S", "Q", "M"))
        s("origin_close", AV_STR)
        s("is_cumulative", union(*cumulative))
        s("is_pattern", C(is_pattern) if isinstance(is_pattern, bool) else AV_BOOL)
        s("array_backend", union(*backends))
        me = frozenset([("o", oid)])
        vc = I.instantiate(self.cls("VirtualColumns"), [me], {}, None)
        s("virtual_columns", vc)
        for f, c in (("iloc", "Ilocation"), ("loc", "Location"), ("iat", "Iat"), ("at", "At")):
            s(f, I.instantiate(self.cls(c), [me], {}, None))
        for k, v in (enriched or {}).items():
            s(k, v | frozenset([UNDEF]) if optional else v)
        return me

    def pattern(self, **kw):
        return self.triangle(is_pattern=True, cumulative=kw.pop("cumulative", (False,)), **kw)
