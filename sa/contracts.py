"""Contracts for the Triangle arithmetic operators.

Inside every other analysis a call of an arithmetic operator is replaced by its contract:
*operands are not modified, the result is a fresh Triangle with fresh values whose axis metadata
comes from the operands*.  The contract itself is an obligation of property C02, discharged by
interpreting the real operator bodies (only operators called from inside such a body use the
contract again: induction over the call depth)."""
from .engine import AV_FALSE, AV_NONE, AV_T, E, MISSING, UNDEF

OPS = ("__add__", "__sub__", "__rsub__", "__mul__", "__pow__", "__truediv__", "__rtruediv__")
MIXED = ("kdims", "key_labels", "vdims", "odims", "ddims", "origin_grain", "development_grain",
         "valuation_date", "array_backend")


def install(I, raw=()):
    """`raw`: operator names whose body is interpreted for the outermost call."""
    tri = I.cls_by_name["Triangle"]
    names = {}
    for op in OPS:
        fv = I.find_method(tri, op)
        if fv is not None:
            names[fv.fi.qual] = op
    state = {"raw": set(raw)}
    sl = I.cls_by_name.get("TriangleSlicer")
    fv = I.find_method(sl, "__setitem__") if sl is not None else None
    if fv is not None:
        names[fv.fi.qual] = "setitem"
    cc = [f for f in I.p.modules["chainladder.utils.utility_functions"].tree.body
          if getattr(f, "name", None) == "concat"]
    if cc:
        names["concat"] = "concat"

    def hook(I, fv, args, kwargs, node):
        op = names[fv.fi.qual]
        if op in state["raw"]:
            state["raw"].discard(op)
            return None
        if op == "concat":
            return concat(I, args, kwargs, node)
        if op == "setitem":
            return setitem(I, args, node) if len(args) == 3 else None
        if len(args) < 2:
            return None
        return arith(I, args[0], args[1], node)
    for q in names:
        I.hooks[q] = hook
    return state


def concat(I, args, kwargs, node):
    """concat(objs, axis, ...): a fresh copy of one of the operands, fresh values, metadata from
    all of them; neither the operands nor the list are modified."""
    objs = args[0] if args else kwargs.get("objs")
    if objs is None:
        return None
    els = E
    for a in objs:
        if a[0] != "o" or I.meta[a[1]].ci is not None:
            continue
        els |= elems(I, a, node)
    tris = frozenset(a for a in els if a[0] == "o" and I.meta[a[1]].ci is not None)
    if not tris:
        return None
    first = frozenset(sorted(tris, key=lambda a: a[1])[:1])
    return arith(I, first, tris, node)


def elems(I, a, node):
    return I.all_elems(a[1])


def arith(I, me, other, node):
    obj = I.call_attr(me, "copy", [], {}, node)
    tris = [a for a in other if a[0] == "o" and I.meta[a[1]].ci is not None]
    for a in obj:
        if a[0] != "o":
            continue
        o = a[1]
        I.hset(o, "values", I.fresh_ext(node, None))
        for t in tris:
            for f in MIXED:
                v = I.heap.get((t[1], f), MISSING)
                if v is not MISSING:
                    w = I.heap.get((o, f), E) | (v - {UNDEF})
                    I.hset(o, f, w)
        mine = I.heap.get((o, "is_pattern"), E)
        theirs = E
        for t in tris:
            v = I.heap.get((t[1], "is_pattern"), MISSING)
            theirs |= E if v is MISSING else v - {UNDEF}
        if theirs and theirs != mine:
            # a pattern and amounts give amounts (C07)
            exact = len(mine) == len(theirs) == 1 and all(a[0] == "c" for a in mine | theirs)
            I.hset(o, "is_pattern", AV_FALSE if exact else mine | AV_FALSE)
    return obj


def setitem(I, args, node):
    """x[key] = value: x's own value array is written in place or replaced, its column labels
    are replaced, its virtual columns updated; `value` is not modified or kept."""
    me, key, value = args
    if any(a[0] not in "o" or I.meta[a[1]].ci is None for a in me):
        return None
    vc = I.load_attr(me, "virtual_columns", node)
    fns = frozenset(a for a in value if a[0] in "fb" or a[0] == "x")
    if fns:
        def put():
            I.store_item(vc, key, fns, None, node)
            return AV_T
        def pop():
            return I.call_attr(vc, "pop", [key], {}, node)
        I.choose([put, pop] if fns != value else [put])
    else:
        I.call_attr(vc, "pop", [key], {}, node)
    for a in me:
        vals = I.heap.get((a[1], "values"), E) - {UNDEF}
        for b in vals:
            if b[0] == "o" and I.meta[b[1]].cls == "ext":
                I.mutated(b[1], "[]", node)
    I.store_attr(me, "values", union_fresh(I, me, "values", node), node)
    I.store_attr(me, "vdims", union_fresh(I, me, "vdims", node), node)
    return AV_NONE


def union_fresh(I, me, f, node):
    out = I.fresh_ext(node, "ndarray" if f != "values" else None)
    for a in me:
        out |= I.heap.get((a[1], f), E) - {UNDEF}
    return out
