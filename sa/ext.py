"""Alias / mutation model of the libraries the package calls (numpy, pandas, sparse, dask,
sklearn, joblib, the builtins).  Rules: a call returns a fresh object and mutates nothing, unless
listed here as a view (result aliases the receiver), a mutator, or a higher-order function."""
import ast

NONE = ("c", "NoneType", None)
T = ("t", None)
E = frozenset()
AV_T = frozenset([T])
AV_INT = frozenset([("t", "int")])
AV_BOOL = frozenset([("t", "bool")])
AV_STR = frozenset([("t", "str")])
AV_NONE = frozenset([NONE])
UNDEF = ("u",)
CONTAINERS = ("list", "tuple", "dict", "set")
SEQ = ("list", "tuple", "set")
MISSING = None  # set by engine import below


def C(v):
    return frozenset([("c", type(v).__name__, v)])


VIEW_ATTRS = {"T", "values", "data", "coords", "array", "flat", "real", "imag", "loc", "iloc",
              "at", "iat", "base", "_values", "dt", "str"}
IMMUTABLE_TAGS = {"Index", "DatetimeIndex", "PeriodIndex", "Timestamp", "str"}
VIEW_METHODS = {"reshape", "transpose", "swapaxes", "ravel", "squeeze", "view", "diagonal",
                "to_numpy", "__iter__", "__array__", "get"}
# numpy functions returning a view of (or the very) first argument
VIEW_FUNCS = {"asarray", "squeeze", "swapaxes", "transpose", "moveaxis", "rollaxis",
              "expand_dims", "broadcast_to", "atleast_1d", "atleast_2d", "atleast_3d", "reshape",
              "ravel", "diagonal", "asanyarray", "ascontiguousarray", "diag", "asfarray"}
# functions whose first positional argument is overwritten
MUTATOR_FUNCS = {"copyto", "put", "place", "putmask", "fill_diagonal", "put_along_axis",
                 "shuffle"}
# methods of library objects that mutate the receiver
MUTATOR_METHODS = {"sort", "fill", "put", "itemset", "resize", "partition", "setflags",
                   "__setitem__", "update", "pop", "insert", "clear", "setdefault", "extend",
                   "popitem", "setfield", "byteswap!", "__delitem__"}
CTOR_TAGS = {"pandas.Series": "pandas.Series", "pandas.DataFrame": "pandas.DataFrame",
             "pandas.DatetimeIndex": "DatetimeIndex", "pandas.Index": "Index",
             "pandas.PeriodIndex": "PeriodIndex", "pandas.date_range": "DatetimeIndex",
             "pandas.period_range": "PeriodIndex", "pandas.MultiIndex": "Index",
             "numpy.array": "ndarray", "numpy.arange": "ndarray", "numpy.ones": "ndarray",
             "numpy.zeros": "ndarray", "numpy.empty": "ndarray", "numpy.repeat": "ndarray",
             "numpy.ix_": None, "pandas.concat": "pandas.DataFrame",
             "pandas.pivot_table": "pandas.DataFrame", "pandas.read_csv": "pandas.DataFrame",
             "pandas.read_json": None, "numpy.tile": "ndarray",
             "sparse.COO": "COO", "dask.array.from_array": "dask", "dask.array.array": "dask"}
TAG_CLASS = {"ndarray": "numpy.ndarray", "pandas.Series": "pandas.Series",
             "pandas.DataFrame": "pandas.DataFrame", "DatetimeIndex": "pandas.DatetimeIndex",
             "Index": "pandas.Index", "PeriodIndex": "pandas.PeriodIndex", "COO": "sparse.COO"}
UFUNCS = {"sqrt", "log", "exp", "abs", "absolute", "maximum", "minimum", "sign", "isnan",
          "isfinite", "floor", "ceil", "power", "add", "subtract", "multiply", "divide",
          "log1p", "expm1", "square", "negative"}
BUILTIN_TYPES = {"int": "int", "float": "float", "bool": "bool", "str": "str",
                 "NoneType": "NoneType"}


def canon(d):
    for a, b in (("sklearn.ensemble._voting.", "sklearn.ensemble."),
                 ("sklearn.ensemble._base.", "sklearn.ensemble."),
                 ("sparse._coo.core.", "sparse.")):
        if d.startswith(a):
            return b + d[len(a):]
    return d


def leaf(d):
    return d.rsplit(".", 1)[-1]


def symbol_attr(x, name):
    if name == "newaxis":
        return AV_NONE
    if name in ("nan", "inf", "pi", "e", "NaN", "NaT", "NA"):
        return AV_T
    if name == "__version__":
        return AV_STR
    if name == "__name__":
        return C(leaf(x))
    return frozenset([("x", canon(x + "." + name))])


def same_symbol(a, b):
    return False


def is_view_tag(tag):
    return tag in (None, "ndarray")


def binop_tag(tags):
    for t in ("pandas.DataFrame", "pandas.Series", "DatetimeIndex", "PeriodIndex", "Index"):
        if t in tags:
            return t
    if tags == {"ndarray"}:
        return "ndarray"
    return None


def cmp_tag(tags):
    if tags & {"pandas.DataFrame"}:
        return "pandas.DataFrame"
    if tags & {"pandas.Series"}:
        return "pandas.Series"
    return "ndarray"


def may_raise(stmts):
    """Can the try body raise?  Anything but plain constants/pass/assignments of names."""
    for st in stmts:
        for n in ast.walk(st):
            if isinstance(n, (ast.Call, ast.Subscript, ast.Attribute, ast.BinOp, ast.Import,
                              ast.ImportFrom, ast.Raise, ast.Assert, ast.For)):
                return True
    return False


SK_METHODS = {"fit_transform", "get_params", "set_params", "_validate_names", "_log_message",
              "_validate_params", "_get_params", "_set_params", "_repr_html_", "_validate_data",
              "__sklearn_tags__", "_check_n_features", "_check_feature_names", "score",
              "_validate_steps", "_iter", "fit_predict", "fit", "predict", "transform",
              "named_steps", "steps", "__setitem__", "__getitem__", "_fit"}


def base_provides(ext_bases, name):
    eb = [b for b in ext_bases if b not in ("builtins.object", "object", "abc.ABC")]
    if not eb:
        return False
    if all(leaf(b) in ("BaseEstimator", "TransformerMixin") for b in eb):
        if name == "fit_transform":
            return any(leaf(b) == "TransformerMixin" for b in eb)
        return name in ("get_params", "set_params", "_validate_params", "_repr_html_",
                        "_check_n_features", "_validate_data", "__sklearn_tags__", "set_output",
                        "_get_param_names")
    if any(leaf(b) == "Pipeline" for b in eb):
        return name in SK_METHODS | {"named_steps"}
    if any("Voting" in b or "Ensemble" in b for b in eb):
        return name in SK_METHODS - {"fit", "predict", "transform", "steps", "named_steps"}
    return True


def is_dict_presence(fn):
    """`def __contains__(self, v): return self.__dict__.get(v, None) is not None`"""
    body = [s for s in fn.body if not (isinstance(s, ast.Expr)
                                       and isinstance(s.value, ast.Constant))]
    if len(body) != 1 or not isinstance(body[0], ast.Return) or body[0].value is None:
        return False
    s = ast.unparse(body[0].value).replace(", None)", ")")
    p = fn.args.args
    if len(p) != 2:
        return False
    me, v = p[0].arg, p[1].arg
    return s in ("%s.__dict__.get(%s) is not None" % (me, v),
                 "vars(%s).get(%s) is not None" % (me, v),
                 "getattr(%s, %s) is not None" % (me, v))


# ---------------------------------------------------------------------------- values
def elem_of(I, a, node):
    tag = I.meta[a[1]].tag
    if tag in ("bag",):
        return I.heap.get((a[1], "[]")) or AV_T
    if tag in ("pandas.DataFrame", "Index", "DatetimeIndex", "PeriodIndex", "pandas.Series",
               "groupby"):
        return AV_T
    return frozenset([T, a]) if tag in (None, "ndarray") else AV_T


def is_view_index(I, idx, depth=0):
    """True when subscripting an array with idx certainly yields a view, None unknown."""
    for a in idx:
        if a[0] == "c" and (a[1] in ("slice", "ellipsis", "NoneType", "int")):
            continue
        if a[0] == "t" and a[1] in ("slice", "int"):
            continue
        if a[0] == "o" and I.meta[a[1]].cls == "tuple" and depth == 0:
            ex = I.exact_elems(frozenset([a]))
            if ex is None:
                if not is_view_index(I, I.all_elems(a[1]) or AV_T, 1):
                    return False
                continue
            if all(is_view_index(I, x, 1) for x in ex):
                continue
        return False
    return True


def keep_shape(I, src, r, node):
    """`r`: a fresh array of the same shape as `src`."""
    if r is not None and (src, "#shape") in I.heap:
        for a in r:
            if a[0] == "o" and a[1] != src:
                I.hset(a[1], "#shape", I.heap[(src, "#shape")])
    return r


def other_shape(I, src, r, node):
    """`r` may be `src` itself standing for a view of it: a view has another shape."""
    if (src, "#shape") in I.heap:
        return r | I.fresh_ext(node, I.meta[src].tag)
    return r


SAME_SHAPE = {"copy", "todense", "astype", "fillna", "asnumpy", "array", "asarray", "nan_to_num",
              "from_array", "round", "abs", "sqrt", "log", "exp", "isnan", "isfinite"}


def subscript(I, a, idx, idxnode, node):
    return other_shape(I, a[1], subscript1(I, a, idx, idxnode, node), node)


def subscript1(I, a, idx, idxnode, node):
    m = I.meta[a[1]]
    tag = m.tag
    if tag in ("shape",):
        return AV_INT
    if tag == "bag":
        return I.heap.get((a[1], "[]")) or AV_T
    stored = I.heap.get((a[1], "[]"))
    out = stored or E
    if (a[1], "#strs") in I.heap:
        one = all((x[0] == "c" and x[1] == "int") or x == ("t", "int") for x in idx)
        return out | frozenset([a]) if one else frozenset([a])
    if stored is not None and tag in ("objarray",):
        return out
    if tag in ("Index", "DatetimeIndex", "PeriodIndex"):
        return out | frozenset([("o", I.ext_obj(node, tag)), T])
    if tag == "pandas.DataFrame":
        # a column or a block: pandas hands back a (possibly shared) view
        if all(x[0] in "ct" and x[1] in ("str", None) for x in idx):
            return out | frozenset([("o", I.ext_obj(node, "pandas.Series"))])
        return out | frozenset([("o", I.ext_obj(node, "pandas.DataFrame"))])
    if tag == "pandas.Series":
        return out | frozenset([("o", I.ext_obj(node, "pandas.Series")), T])
    if tag in ("groupby", "rng", "model"):
        return AV_T
    # arrays
    scalar = all((x[0] == "c" and x[1] == "int") or x == ("t", "int") for x in idx)
    if is_view_index(I, idx):
        if scalar:
            return out | frozenset([a, T])
        return out | frozenset([a])
    kinds = {x[0] for x in idx}
    if kinds <= {"t"} and idx == AV_T:
        # unknown index: may be a view
        return out | frozenset([a, T])
    return out | frozenset([("o", I.ext_obj(node, tag))])


SCALAR_ATTRS = {"ndim", "size", "nnz", "nbytes", "itemsize"}


def ext_attr(I, a, name, node):
    oid = a[1]
    tag = I.meta[oid].tag
    v = I.heap.get((oid, name))
    if v is not None and name not in VIEW_ATTRS:
        return v
    if name in VIEW_ATTRS:
        if tag in ("Index", "DatetimeIndex", "PeriodIndex") and name in ("values",):
            return frozenset([("o", I.ext_obj(node, "ndarray"))])
        return frozenset([a])
    if name == "shape":
        if (oid, "#shape") in I.heap:
            (c,) = I.heap[(oid, "#shape")]
            return I.new_seq("tuple", [C(v) for v in c[2]], node)
        return frozenset([("o", I.ext_obj(node, "shape"))])
    if name in SCALAR_ATTRS:
        return AV_INT
    if name in ("index", "columns"):
        if tag in ("pandas.DataFrame", "pandas.Series"):
            return frozenset([("o", I.ext_obj(node, "Index"))])
        return frozenset([T, ("xm", name, frozenset([a]))]) if tag is None else AV_T
    if name in ("chunks", "dtype", "name", "names", "fill_value", "year", "month", "freq",
                "freqstr", "levels", "dtypes", "hour", "day", "quarter", "n_features_in_",
                "coef_", "x", "fun", "cost", "jac", "scale", "empty", "T_"):
        return AV_T
    if tag == "rng":
        return frozenset([("xm", name, frozenset([a]))])
    return frozenset([("xm", name, frozenset([a])), T])


# ---------------------------------------------------------------------------- builtins helpers
def tup(I, items, node):
    return I.new_seq("tuple", items, node)


def seq_like(I, kind, av, node):
    """list(av) / tuple(av) / set(av) ..."""
    ex = I.exact_elems(av)
    if ex is not None and len(ex) <= 24:
        if kind == "set":
            seen = []
            for e in ex:
                if e not in seen:
                    seen.append(e)
            ex = seen
        return I.new_seq(kind, ex, node)
    return I.new_seq(kind, None, node, I.iter_elems(av, node))


def names_of(av):
    out = []
    for a in av:
        if a[0] == "c" and a[1] == "str":
            out.append(a[2])
        else:
            return None
    return out


def isinst(I, av, cls):
    res = set()
    targets = E
    for c in cls:
        if c[0] == "o" and I.meta[c[1]].cls in SEQ:
            targets |= I.all_elems(c[1])
        else:
            targets |= {c}
    unknown = any(t[0] not in ("k", "x") for t in targets)
    for a in av:
        got = False
        maybe = unknown
        for t in targets:
            r = inst1(I, a, t)
            if r is True:
                got = True
            elif r is None:
                maybe = True
        if got:
            res.add(True)
        elif maybe:
            res |= {True, False}
        else:
            res.add(False)
    return res or {True, False}


def inst1(I, a, t):
    k = a[0]
    if t[0] == "k":
        if k == "o":
            ci = I.meta[a[1]].ci
            if ci is None:
                return False
            return ci.is_sub(t[1])
        return False       # unknown library values are never package objects
    if t[0] != "x":
        return None
    name = t[1]
    lf = leaf(name)
    if k == "c":
        if a[1] == "slice":
            return lf == "slice"
        if a[1] == "bool" and lf == "int":
            return True
        if name.startswith("builtins."):
            return lf == a[1] or lf == "object"
        if lf in ("Iterable", "Sequence", "Hashable", "Sized"):
            return a[1] == "str" if lf != "Hashable" else True
        return False
    if k == "o":
        m = I.meta[a[1]]
        if m.ci is not None:
            eb = m.ci.ext_bases()
            return any(leaf(b) == lf for b in eb)
        if m.cls in CONTAINERS:
            if lf in ("Iterable", "Sequence", "Sized", "Collection"):
                return True
            if lf in ("Mapping", "MutableMapping"):
                return m.cls == "dict"
            return name == "builtins." + m.cls
        if m.tag in TAG_CLASS:
            if lf == leaf(TAG_CLASS[m.tag]):
                return True
            if lf == "Index" and m.tag in ("DatetimeIndex", "PeriodIndex"):
                return True
            if lf in ("Iterable", "Sized", "Collection"):
                return True
            return False
        if name.startswith("builtins."):
            return False
        return None
    if k == "t":
        if a[1] == "slice":
            return lf == "slice"
        if a[1] in ("int", "str", "bool"):
            if name.startswith("builtins."):
                return lf == a[1] or (a[1] == "bool" and lf == "int")
        if a[1] is not None and lf in ("DataFrame", "Series", "ndarray", "Index",
                                       "DatetimeIndex", "PeriodIndex"):
            return False
        return None
    if k in ("f", "b", "part"):
        if lf in ("Callable", "FunctionType", "LambdaType"):
            return True
        return False
    if k in ("k", "x"):
        return True if lf == "type" else False
    return None


def typeof(I, av):
    out = E
    for a in av:
        k = a[0]
        if k == "o":
            m = I.meta[a[1]]
            if m.ci is not None:
                out |= {("k", m.ci)}
            elif m.cls in CONTAINERS:
                out |= {("x", "builtins." + m.cls)}
            elif m.tag in TAG_CLASS:
                out |= {("x", TAG_CLASS[m.tag])}
            else:
                out |= {T}
        elif k == "c":
            out |= {("x", "builtins." + a[1])}
        elif k == "t" and a[1] in ("int", "str", "bool", "slice"):
            out |= {("x", "builtins." + a[1])}
        elif k in ("f", "b"):
            out |= {("x", "types.FunctionType")}
        else:
            out |= {T}
    return out


def presence(I, av, names, node):
    res = set()
    for a in av:
        for nm in names:
            if a[0] == "o" and I.meta[a[1]].ci is not None:
                ci = I.meta[a[1]].ci
                prop = I.find_prop(ci, nm)
                if prop is not None:
                    if prop["get"] is None:
                        res |= {True, False}
                        continue
                    mark = len(I.trail)
                    rec = {"mark": mark, "raises": []}
                    I.trys.append(rec)
                    ok = True
                    try:
                        I.choose([lambda: I.call_fv(prop["get"], [frozenset([a])], {}, node)])
                    except Exception as e:
                        if type(e).__name__ != "Dead":
                            raise
                        ok = False
                    finally:
                        I.trys.pop()
                    if ok:
                        res.add(True)
                    if rec["raises"] or not ok:
                        res.add(False)
                    if not ok:
                        I.undo(mark)
                    continue
                v = I.heap.get((a[1], nm))
                if v is not None and not I.suppress:
                    I.note_read(a[1], I.meta[a[1]], nm, node, probe=True)
                if v is not None and v != frozenset([UNDEF]):
                    res.add(True)
                    if UNDEF not in v:
                        continue
                if I.class_lookup(ci, nm) is not None:
                    res.add(True)
                    continue
                ga = I.find_method(ci, "__getattr__")
                if ga is not None:
                    mark = len(I.trail)
                    rec = {"mark": mark, "raises": []}
                    I.trys.append(rec)
                    try:
                        I.call_fv(ga, [frozenset([a]), C(nm)], {}, node)
                        res.add(True)
                        if rec["raises"]:
                            res.add(False)
                    except Exception as e:
                        if type(e).__name__ != "Dead":
                            raise
                        I.undo(mark)
                        res.add(False)
                    finally:
                        I.trys.pop()
                    continue
                if base_provides(ci.ext_bases(), nm):
                    res.add(True)
                    continue
                res.add(False)
            elif a[0] == "c":
                res.add(hasattr(type(a[2]), nm) if a[1] not in ("ellipsis", "slice") else False)
            elif a[0] == "o" and I.meta[a[1]].cls in CONTAINERS:
                res.add(hasattr({"list": list, "dict": dict, "tuple": tuple,
                                 "set": set}[I.meta[a[1]].cls], nm))
            elif a[0] == "k":
                res.add(I.class_lookup(a[1], nm) is not None)
            else:
                res |= {True, False}
    return res or {True, False}


def deep_copy(I, av, node, memo=None):
    memo = {} if memo is None else memo
    out = E
    for a in av:
        out |= {deep1(I, a, node, memo)}
    return out


def deep1(I, a, node, memo):
    if a[0] == "o":
        oid = a[1]
        if oid in memo:
            return ("o", memo[oid])
        m = I.meta[oid]
        if m.cls in ("env", "modenv"):
            return a
        n = (I.ext_obj(node, m.tag) if m.cls == "ext" and not I.fields[oid]
             else I.alloc(m.cls, m.ci, node, m.tag))
        memo[oid] = n
        for f in list(I.fields[oid]):
            v = I.heap.get((oid, f))
            if v is not None:
                I.hset(n, f, frozenset(deep1(I, x, node, memo) for x in v))
        return ("o", n)
    if a[0] == "b":
        return ("b", a[1], frozenset(deep1(I, x, node, memo) for x in a[2]))
    return a


def shallow_copy(I, av, node):
    out = E
    for a in av:
        if a[0] == "o":
            m = I.meta[a[1]]
            cp = None
            if m.ci is not None:
                fv = I.find_method(m.ci, "__copy__")
                if fv is not None:
                    out |= I.call_fv(fv, [frozenset([a])], {}, node)
                    continue
            n = I.alloc(m.cls, m.ci, node, m.tag)
            if m.cls != "ext":
                for f in list(I.fields[a[1]]):
                    v = I.heap.get((a[1], f))
                    if v is not None:
                        I.hset(n, f, v)
            else:
                for f in list(I.fields[a[1]]):
                    v = I.heap.get((a[1], f))
                    if v is not None:
                        I.hset(n, f, v)
            out |= {("o", n)}
        else:
            out |= {a}
    return out


def init_params(I, ci):
    fv = I.find_method(ci, "__init__")
    if fv is None:
        if any(leaf(b) == "Pipeline" for b in ci.ext_bases()):
            return ["steps", "memory", "verbose"]
        return []
    return fv.fi.args[1:] + fv.fi.kwonly


def get_params(I, a, node):
    d = I.alloc("dict", None, node)
    for p in init_params(I, I.meta[a[1]].ci):
        try:
            v = I.load_attr(frozenset([a]), p, node)
        except Exception as e:
            if type(e).__name__ != "Dead":
                raise
            v = AV_T
        I.hset(d, ("k", p), v)
    I.hset(d, "#n", C(True))
    return frozenset([("o", d)])


def clone(I, av, node):
    out = E
    for a in av:
        if a[0] == "o" and I.meta[a[1]].ci is not None:
            ci = I.meta[a[1]].ci
            kw = {}
            for p in init_params(I, ci):
                v = I.heap.get((a[1], p))
                if v is not None and v - {UNDEF}:
                    kw[p] = deep_copy(I, v - {UNDEF}, node)
            out |= I.instantiate(ci, [], kw, node)
        elif a[0] == "o":
            out |= deep_copy(I, frozenset([a]), node)
        else:
            out |= {a}
    return out


def internal_atoms(I, av):
    return frozenset(a for a in av if a[0] == "o" and I.meta[a[1]].ci is not None)


def ext_atoms(I, av):
    return frozenset(a for a in av if a[0] == "o" and I.meta[a[1]].cls == "ext")


def is_seqobj(I, a):
    return a[0] == "o" and I.meta[a[1]].cls in SEQ


def mutate_av(I, av, node, field="[]"):
    for a in av:
        if a[0] == "o":
            I.mutated(a[1], field, node)


# ---------------------------------------------------------------------------- calls
def arg(args, kwargs, i, name=None, default=None):
    if i is not None and i < len(args):
        return args[i]
    if name is not None and name in kwargs:
        return kwargs[name]
    return default


def record(I, name, args, kwargs, node):
    if I.suppress:
        return
    I.ext_calls.setdefault(name, {})[I.site(node)] = True
    for cb in getattr(I, "on_ext", ()):
        cb(I, name, args, kwargs, node)


def call(I, name, args, kwargs, node):
    o = None
    if "." in name:
        b, l = name.rsplit(".", 1)
        o = I.extattrs.get((b, l))
    if o is not None:
        fs = frozenset(a for a in o if a != ("x", name))
        if fs and fs == o:
            return I.call(o, args, kwargs, node)
        if fs:
            return I.choose([lambda: I.call(fs, args, kwargs, node),
                             lambda: call2(I, name, args, kwargs, node)])
    return call2(I, name, args, kwargs, node)


# context managers that put a process-wide setting back on exit
RESTORING = ("catch_warnings", "errstate", "option_context", "printoptions", "local_rng",
             "rc_context", "localcontext")
# calls that change the state of the process
PROCESS = {
    "numpy.seterr": "errstate", "numpy.seterrcall": "errstate", "numpy.setbufsize": "",
    "numpy.set_printoptions": "printoptions", "numpy.random.seed": "",
    "numpy.random.set_state": "", "random.seed": "", "random.setstate": "",
    "cupy.random.seed": "", "dask.array.random.seed": "",
    "pandas.set_option": "option_context", "pandas.reset_option": "option_context",
    "pandas.set_eng_float_format": "", "pandas.plotting.register_matplotlib_converters": "",
    "warnings.simplefilter": "catch_warnings", "warnings.filterwarnings": "catch_warnings",
    "warnings.resetwarnings": "catch_warnings", "os.chdir": "", "os.putenv": "",
    "os.unsetenv": "", "os.environ.update": "", "os.environ.setdefault": "",
    "os.environ.pop": "", "os.umask": "", "locale.setlocale": "", "sys.setrecursionlimit": "",
    "logging.basicConfig": "", "logging.disable": "", "gc.disable": "", "gc.enable": "",
    "dask.config.set": "", "matplotlib.pyplot.style.use": "", "matplotlib.use": "",
    "matplotlib.rcParams.update": "", "sklearn.set_config": "", "decimal.setcontext": "",
    "sys.path.append": "", "sys.path.insert": "", "importlib.reload": "",
}
# calls whose answer differs between two runs on the same data
CLOCK = {"time", "time_ns", "perf_counter", "monotonic", "process_time", "now", "today", "utcnow",
         "urandom", "uuid1", "uuid4", "getpid", "token_hex", "token_bytes", "randbits",
         "getrandbits", "mktemp"}
CLOCK_BASE = ("time.", "datetime.", "os.", "uuid.", "secrets.", "pandas.", "random.", "tempfile.")


def effects(I, name, args, kwargs, node):
    if I.suppress or not I.initdone:
        return
    if name in PROCESS and PROCESS[name] not in I.ctx:
        I.event("process", "PROCESS", name, "", node)
    if leaf(name) in CLOCK and name.startswith(CLOCK_BASE):
        I.event("clock", "PROCESS", name, "", node)
    if name.startswith(("pandas.to_datetime", "pandas.Timestamp")) and args and any(
            a[0] == "c" and a[2] in ("now", "today") for a in args[0]):
        I.event("clock", "PROCESS", name, "", node)
    if name in ("builtins.id", "builtins.hash"):
        I.event("clock", "PROCESS", name, "", node)


def call2(I, name, args, kwargs, node):
    record(I, name, args, kwargs, node)
    effects(I, name, args, kwargs, node)
    if name.startswith("builtins.") and name not in SPECIAL:
        h = globals().get("b_" + name[9:])
        if h is not None:
            return h(I, args, kwargs, node)
        I.callbacks(args, kwargs, node)
        return AV_T
    lf = leaf(name)
    h = SPECIAL.get(name) or SPECIAL_LEAF.get(lf) or (s_rng if is_random(name) else None)
    if h is not None:
        r = h(I, name, args, kwargs, node)
        if r is not None:
            return r
    root = name.split(".")[0]
    if root in ("numpy", "cupy", "dask", "sparse", "scipy", "pandas"):
        return array_fn(I, name, lf, args, kwargs, node)
    # unknown library function: fresh result; callbacks may be invoked
    I.callbacks(args, kwargs, node)
    if lf[:1].isupper():
        return frozenset([("o", I.ext_obj(node, CTOR_TAGS.get(name, "model")))])
    return frozenset([("o", I.ext_obj(node, None))])


def str_elems(I, av):
    """Constant strings an array is filled with (None when it holds anything else)."""
    out = E
    for a in av:
        if a[0] == "c" and a[1] == "str":
            out |= {a}
        elif a[0] == "o" and is_seqobj(I, a):
            r = str_elems(I, I.all_elems(a[1]))
            if r is None:
                return None
            out |= r
        elif a[0] == "o" and (a[1], "#strs") in I.heap:
            out |= I.heap[(a[1], "[]")]
        else:
            return None
    return out or None


def str_array(I, els, node):
    oid = I.alloc("ext", None, node, "ndarray")
    I.hset(oid, "#strs", AV_NONE)
    I.hset(oid, "[]", els)
    return frozenset([("o", oid)])


STR_FILL = {"repeat": 0, "array": 0, "asarray": 0, "full": 1, "tile": 0, "broadcast_to": 0,
            "reshape": 0, "flatten": 0, "ravel": 0}


def array_fn(I, name, lf, args, kwargs, node):
    r = array_fn1(I, name, lf, args, kwargs, node)
    if lf in SAME_SHAPE and args and len(args[0]) == 1:
        (a,) = args[0]
        if a[0] == "o" and not is_seqobj(I, a):
            return keep_shape(I, a[1], r, node)
    return r


def array_fn1(I, name, lf, args, kwargs, node):
    k = STR_FILL.get(lf)
    if k is not None and len(args) > k:
        els = str_elems(I, args[k])
        if els is not None:
            return str_array(I, els, node)
    if "out" in kwargs:
        mutate_av(I, kwargs["out"], node)
    if lf in MUTATOR_FUNCS and args:
        mutate_av(I, args[0], node)
    if lf == "nan_to_num":
        cp = kwargs.get("copy", args[1] if len(args) > 1 else None)
        if cp is not None and any(a[0] == "c" and not a[2] for a in cp):
            mutate_av(I, args[0], node)
            return args[0]
    # package objects given to numpy: dispatch through the array protocols
    allv = E
    for v in list(args) + list(kwargs.values()):
        allv |= v
        for a in v:
            if is_seqobj(I, a):
                allv |= I.all_elems(a[1])
    objs = internal_atoms(I, allv)
    objs = frozenset(a for a in objs if I.find_method(I.meta[a[1]].ci, "__array_ufunc__")
                     or I.find_method(I.meta[a[1]].ci, "__array__"))
    if objs:
        sym = frozenset([("x", name)])
        if lf in UFUNCS and I.has_method(objs, "__array_ufunc__"):
            return I.call_attr(objs, "__array_ufunc__", [sym, C("__call__")] + list(args),
                               {k: v for k, v in kwargs.items()}, node)
        if lf == "concatenate":
            for m in I.p.modules:
                v = I.heap.get((I.modenv[m], "concat"))
                if v and any(a[0] == "f" for a in v):
                    return I.call(frozenset(a for a in v if a[0] == "f"), list(args),
                                  dict(kwargs), node)
        if lf in ("array", "asarray"):
            r = E
            for o in objs:
                fv = I.find_method(I.meta[o[1]].ci, "__array__")
                if fv:
                    r |= I.call_fv(fv, [frozenset([o])], {}, node)
            if lf == "array":
                return frozenset([("o", I.ext_obj(node, "ndarray"))])
            return r or AV_T
        if args:
            first = internal_atoms(I, args[0])
            meth = "__round__" if lf == "round" else lf
            if first and I.has_method(first, meth):
                return I.call_attr(first, meth, list(args[1:]), dict(kwargs), node)
        return frozenset([("o", I.ext_obj(node, None))])
    params = None
    if any(a[0] in ("f", "b", "part") for v in list(args) + list(kwargs.values()) for a in v):
        I.callbacks(args, kwargs, node)
    if lf in VIEW_FUNCS and args:
        r = ext_atoms(I, args[0])
        if lf != "asarray":
            for a in sorted(r):
                r = other_shape(I, a[1], r, node)
        rest = args[0] - r
        if rest or not r:
            r |= {("o", I.ext_obj(node, None))}
        return r
    if lf in ("to_datetime", "Timestamp", "Period", "datetime64", "timedelta64", "isscalar",
              "DateOffset", "to_timedelta", "isna", "isnull"):
        if name in ("pandas.to_datetime", "pandas.Timestamp") and len(args) == 1 and not kwargs:
            k = I.single_const(args[0], None)
            if isinstance(k, str):
                return frozenset([("t", "ts:" + k)])      # this date
        if lf in ("to_datetime", "isna", "isnull") and args and ext_atoms(I, args[0]):
            return frozenset([("o", I.ext_obj(node, None)), T])
        return AV_T
    if lf in ("array_equal", "allclose", "is_datetime64_any_dtype"):
        return AV_BOOL
    if lf in ("float64", "int64", "float32", "int32", "bool_"):
        return AV_T
    if lf == "unique" and any(k in kwargs for k in ("return_inverse", "return_index",
                                                    "return_counts")):
        el = frozenset([("o", I.ext_obj(node, "ndarray"))])
        return I.new_seq("tuple", [el, el], node)
    tag = CTOR_TAGS.get(name)
    if name in ("pandas.Series", "pandas.DataFrame"):
        cp = kwargs.get("copy")
        src = arg(args, kwargs, 0, "data", E)
        alias = frozenset(a for a in ext_atoms(I, src)
                          if I.meta[a[1]].tag in (None, "ndarray", "pandas.DataFrame",
                                                  "pandas.Series"))
        # pandas shares the buffer of an ndarray/frame input unless copy=True; a shared frame
        # is a new container, so only its array storage aliases: model as fresh container
        return frozenset([("o", I.ext_obj(node, tag))])
    scal = bool(args) and all(
        (a[0] in "ct" and a[0] != "o") for v in args for a in v) and lf in (
        "sqrt", "exp", "log", "floor", "ceil", "abs", "isnan", "maximum", "minimum", "sign",
        "round", "max", "min", "isfinite", "power", "any", "all", "sum", "prod")
    if scal:
        return AV_T
    r = frozenset([("o", I.ext_obj(node, tag))])
    if lf in ("array", "append", "concatenate", "where", "repeat", "hstack", "vstack"):
        # arrays of package objects keep them as elements
        els = E
        for v in args:
            for a in v:
                if is_seqobj(I, a):
                    els |= internal_atoms(I, I.all_elems(a[1]))
                elif a[0] == "o":
                    s = I.heap.get((a[1], "[]"))
                    if s and I.meta[a[1]].cls == "ext":
                        els |= s
        if els:
            r = frozenset([("o", I.alloc("ext", None, node, tag))])
            I.hset(next(iter(r))[1], "[]", els)
    if lf in ("max", "min", "sum", "nansum", "prod", "mean", "nanmean", "any", "all", "median"):
        return r | AV_T
    return r


# --- builtins
def b_getattr(I, args, kwargs, node):
    nms = names_of(args[1])
    default = args[2] if len(args) > 2 else None
    if nms is None:
        out = AV_T
        for a in args[0]:
            if a[0] == "o" and I.meta[a[1]].ci is not None:
                for f in I.fields[a[1]]:
                    v = I.heap.get((a[1], f))
                    if v:
                        out |= v - {UNDEF}
        return out | (default or E)
    out = E
    thunks = []
    for nm in nms:
        def th(nm=nm):
            if default is None:
                return I.load_attr(args[0], nm, node)
            return I.load_attr(args[0], nm, node, default)
        thunks.append(th)
    return I.choose(thunks)


def b_setattr(I, args, kwargs, node):
    nms = names_of(args[1])
    if nms is None:
        for a in args[0]:
            if a[0] == "o":
                I.mutated(a[1], "*", node)
                if I.meta[a[1]].ci is not None:
                    old = I.heap.get((a[1], "*"), E)
                    I.hset(a[1], "*", old | args[2])
            elif a[0] == "k" and I.initdone:
                I.event("mutate", "GLOBAL", a[1].name, "*", node)
        return AV_NONE
    for nm in nms:
        I.store_attr(args[0], nm, args[2], node)
    return AV_NONE


def b_delattr(I, args, kwargs, node):
    nms = names_of(args[1])
    for a in args[0]:
        if a[0] == "o":
            for nm in nms or ["*"]:
                v = I.heap.get((a[1], nm))
                if v is not None and v != frozenset([UNDEF]) or nm == "*":
                    I.mutated(a[1], nm, node)
                if v is not None:
                    sure = len(args[0]) == 1 and len(nms or ()) == 1
                    I.hset(a[1], nm, frozenset([UNDEF]) if sure else v | {UNDEF})
                    if (a[1], "#stale:" + nm) in I.heap:
                        I.hset(a[1], "#stale:" + nm, frozenset([("c", "bool", False)]))
    return AV_NONE


def b_hasattr(I, args, kwargs, node):
    nms = names_of(args[1])
    if nms is None:
        return AV_BOOL
    return I.bools(presence(I, args[0], nms, node))


def b_vars(I, args, kwargs, node):
    out = E
    for a in args[0] if args else ():
        if a[0] == "o":
            out |= {("vars", a[1])}
        elif a[0] == "m":
            out |= {("vars", I.modenv[a[1]])}
        else:
            out |= {T}
    return out or AV_T


def b_isinstance(I, args, kwargs, node):
    return I.bools(isinst(I, args[0], args[1]))


def b_issubclass(I, args, kwargs, node):
    res = set()
    for a in args[0]:
        for t in args[1]:
            if a[0] == "k" and t[0] == "k":
                res.add(a[1].is_sub(t[1]))
            elif a[0] == "k" and t[0] == "x":
                res.add(any(leaf(b) == leaf(t[1]) for b in a[1].ext_bases()))
            else:
                res |= {True, False}
    return I.bools(res)


def b_type(I, args, kwargs, node):
    if len(args) == 1:
        return typeof(I, args[0])
    return AV_T


def b_callable(I, args, kwargs, node):
    res = set()
    for a in args[0]:
        if a[0] in ("f", "b", "k", "x", "part", "xm"):
            res.add(True)
        elif a[0] == "c" or (a[0] == "o" and I.meta[a[1]].cls in CONTAINERS + ("ext",)):
            res.add(False)
        elif a[0] == "o":
            res.add(I.find_method(I.meta[a[1]].ci, "__call__") is not None
                    if I.meta[a[1]].ci else False)
        elif a[0] == "t" and a[1] is not None:
            res.add(False)
        else:
            res |= {True, False}
    return I.bools(res)


def b_len(I, args, kwargs, node):
    out = E
    for a in args[0]:
        if a[0] == "o":
            m = I.meta[a[1]]
            if m.cls in CONTAINERS:
                ex = I.exact_elems(frozenset([a]))
                out |= C(len(ex)) if ex is not None else AV_INT
                continue
            if m.ci is not None and I.find_method(m.ci, "__len__"):
                r = I.call_attr(frozenset([a]), "__len__", [], {}, node)
                out |= r if all(x[0] == "c" for x in r) else AV_INT
                continue
            out |= AV_INT
        elif a[0] == "c" and a[1] == "str":
            out |= C(len(a[2]))
        elif a[0] == "c":
            continue
        elif a[0] == "vars":
            out |= AV_INT
        else:
            out |= AV_INT
    if not out:
        I.note_raise()
        raise I.Dead()
    return out


def b_range(I, args, kwargs, node):
    cs = [I.single_const(a, None) for a in args]
    if all(isinstance(c, int) for c in cs) and cs:
        r = range(*cs)
        if len(r) <= 12:
            return I.new_seq("list", [C(i) for i in r], node)
    return frozenset([("t", "range")])


def b_zip(I, args, kwargs, node):
    exs = [I.exact_elems(a) for a in args]
    if args and all(e is not None for e in exs):
        return I.new_seq("list", [tup(I, list(z), node) for z in zip(*exs)], node)
    if "*" in kwargs or not args:
        # zip(*seq): columns
        el = kwargs.get("*", AV_T)
        inner = I.iter_elems(el, node) or AV_T
        return I.new_seq("list", None, node, I.new_seq("tuple", None, node, inner))
    els = [I.iter_elems(a, node) or AV_T for a in args]
    return I.new_seq("list", None, node, tup(I, els, node))


def b_enumerate(I, args, kwargs, node):
    ex = I.exact_elems(args[0])
    if ex is not None and len(ex) <= 24:
        st = I.single_const(arg(args, kwargs, 1, "start", C(0)), None)
        if isinstance(st, int):
            return I.new_seq("list", [tup(I, [C(i + st), e], node)
                                      for i, e in enumerate(ex)], node)
    el = I.iter_elems(args[0], node)
    if not el:
        return I.new_seq("list", None, node, E)
    return I.new_seq("list", None, node, tup(I, [AV_INT, el], node))


def b_map(I, args, kwargs, node):
    f = args[0]
    exs = [I.exact_elems(a) for a in args[1:]]
    if all(e is not None and len(e) <= 12 for e in exs):
        return I.new_seq("list", [I.call(f, list(z), {}, node) for z in zip(*exs)], node)
    els = [I.iter_elems(a, node) or AV_T for a in args[1:]]
    r = I.choose([lambda: I.call(f, els, {}, node), lambda: E])
    return I.new_seq("list", None, node, r)


def b_filter(I, args, kwargs, node):
    el = I.iter_elems(args[1], node)
    if el and not all(a == NONE for a in args[0]):
        I.choose([lambda: I.call(args[0], [el], {}, node), lambda: E])
    return I.new_seq("list", None, node, el)


def b_sorted(I, args, kwargs, node):
    if "key" in kwargs:
        el = I.iter_elems(args[0], node) or AV_T
        I.callbacks([kwargs["key"]], {}, node, [el])
    ex = I.exact_elems(args[0])
    if ex is not None:
        ks = [I.single_const(e, None) for e in ex]
        if all(k is not None for k in ks) and "key" not in kwargs:
            try:
                o = sorted(ks, reverse=I.single_const(kwargs.get("reverse", C(False)), None) is True)
                return I.new_seq("list", [C(k) for k in o], node)
            except TypeError:
                pass
    return I.new_seq("list", None, node, I.iter_elems(args[0], node))


def b_reversed(I, args, kwargs, node):
    ex = I.exact_elems(args[0])
    if ex is not None:
        return I.new_seq("list", ex[::-1], node)
    return I.new_seq("list", None, node, I.iter_elems(args[0], node))


def b_list(I, args, kwargs, node):
    if not args:
        return I.new_seq("list", [], node)
    return seq_like(I, "list", args[0], node)


def b_tuple(I, args, kwargs, node):
    if not args:
        return I.new_seq("tuple", [], node)
    return seq_like(I, "tuple", args[0], node)


def b_set(I, args, kwargs, node):
    if not args:
        return I.new_seq("set", [], node)
    return seq_like(I, "set", args[0], node)


b_frozenset = b_set


def b_dict(I, args, kwargs, node):
    d = I.alloc("dict", None, node)
    exact = True
    if args:
        for a in args[0]:
            if a[0] == "o" and I.meta[a[1]].cls == "dict":
                if not I.dict_copy(a[1], d):
                    exact = False
            elif a[0] == "o" and I.meta[a[1]].cls in SEQ:
                ex = I.exact_elems(frozenset([a]))
                done = False
                if ex is not None:
                    prs = [I.exact_elems(e) for e in ex]
                    ks = [I.single_const(p[0], None) if p and len(p) == 2 else None
                          for p in prs]
                    if all(k is not None for k in ks):
                        for k, p in zip(ks, prs):
                            I.hset(d, ("k", k), p[1])
                        done = True
                if not done:
                    exact = False
                    el = I.all_elems(a[1])
                    kv = vv = E
                    for x in el:
                        p = I.exact_elems(frozenset([x]))
                        if p and len(p) == 2:
                            kv |= p[0]
                            vv |= p[1]
                        else:
                            kv |= AV_T
                            vv |= I.iter_elems(frozenset([x]), node)
                    I.dict_unknown(d, kv, vv)
            elif a[0] == "vars":
                copy_vars_to_dict(I, a[1], d)
                exact = False
            else:
                exact = False
                I.dict_unknown(d, AV_T, AV_T)
        if len(args[0]) > 1:
            exact = False
    for k, v in kwargs.items():
        if k in ("*", "**"):
            exact = False
            I.dict_unknown(d, AV_T, v)
        else:
            I.hset(d, ("k", k), v)
    I.hset(d, "#n", C(True) if exact else C(False))
    return frozenset([("o", d)])


def copy_vars_to_dict(I, oid, d):
    for f in I.fields[oid]:
        v = I.heap.get((oid, f))
        if v is not None and isinstance(f, str):
            I.hset(d, ("k", f), v)


def b_sum(I, args, kwargs, node):
    el = I.iter_elems(args[0], node)
    objs = internal_atoms(I, el)
    if objs:
        def th():
            r = I.binop("Add", C(0), objs, node)
            r2 = I.choose([lambda: E, lambda: I.binop("Add", r, objs, node)])
            return r | r2
        return I.choose([th, lambda: C(0)])
    if ext_atoms(I, el):
        return frozenset([("o", I.ext_obj(node, None)), T])
    return AV_T


def b_max(I, args, kwargs, node):
    if "key" in kwargs:
        I.callbacks([kwargs["key"]], {}, node)
    vs = args if len(args) > 1 else I.exact_elems(args[0]) if args else None
    if len(args) == 1:
        el = I.iter_elems(args[0], node)
    else:
        el = E
        for a in args:
            el |= a
    objs = internal_atoms(I, el)
    if vs:
        ks = [I.single_const(v, None) for v in vs]
        if all(k is not None for k in ks) and "key" not in kwargs:
            try:
                return C(max(ks))
            except TypeError:
                pass
    if el and all(a[0] in "ct" and a[1] in ("int", "bool") for a in el):
        return AV_INT
    return frozenset([T]) | objs | frozenset(a for a in el if a[0] == "o")


def b_min(I, args, kwargs, node):
    r = b_max(I, args, kwargs, node)
    return AV_T if all(a[0] == "c" for a in r) else r


def b_abs(I, args, kwargs, node):
    objs = internal_atoms(I, args[0])
    if objs:
        return I.call_attr(objs, "__abs__", [], {}, node)
    k = I.single_const(args[0], None)
    if isinstance(k, (int, float)):
        return C(abs(k))
    if ext_atoms(I, args[0]):
        return frozenset([("o", I.ext_obj(node, None))])
    return AV_T


def b_round(I, args, kwargs, node):
    objs = internal_atoms(I, args[0])
    if objs:
        return I.call_attr(objs, "__round__", list(args[1:]), kwargs, node)
    if ext_atoms(I, args[0]):
        return frozenset([("o", I.ext_obj(node, None))])
    return AV_T


def b_int(I, args, kwargs, node):
    k = I.single_const(args[0], None) if args else 0
    if isinstance(k, (int, float, str)):
        try:
            return C(int(k))
        except Exception:
            pass
    return AV_INT


def b_float(I, args, kwargs, node):
    return AV_T


def b_bool(I, args, kwargs, node):
    return I.bools(I.truth(args[0])) if args else C(False)


def b_str(I, args, kwargs, node):
    if not args:
        return C("")
    k = I.single_const(args[0], None)
    if isinstance(k, (int, str)):
        return C(str(k))
    if I.json_model and len(args[0]) == 1:
        (a,) = args[0]
        if a[0] == "t" and str(a[1]).startswith("ts:"):
            return C(a[1][3:])                            # reads back as this date
    return AV_STR


def b_repr(I, args, kwargs, node):
    return AV_STR


def b_print(I, args, kwargs, node):
    return AV_NONE


def b_iter(I, args, kwargs, node):
    objs = internal_atoms(I, args[0])
    if objs:
        return I.new_seq("list", None, node, I.iter_elems(args[0], node))
    return args[0]


def b_next(I, args, kwargs, node):
    r = I.iter_elems(args[0], node)
    if len(args) > 1:
        r |= args[1]
    if not r:
        raise I.Dead()
    return r


def b_any(I, args, kwargs, node):
    return AV_BOOL


def b_all(I, args, kwargs, node):
    return AV_BOOL


def b_slice(I, args, kwargs, node):
    vs = list(args)
    if len(vs) == 1:
        vs = [AV_NONE, vs[0], AV_NONE]
    elif len(vs) == 2:
        vs = vs + [AV_NONE]
    ks = [I.single_const(v, "?") for v in vs]
    if all(k is None or (isinstance(k, int) and not isinstance(k, bool)) for k in ks):
        return frozenset([("c", "slice", tuple(ks))])
    return frozenset([("t", "slice")])


def b_dir(I, args, kwargs, node):
    return I.new_seq("list", None, node, AV_STR)


def b_open(I, args, kwargs, node):
    return frozenset([("o", I.ext_obj(node, "file"))])


def b_property(I, args, kwargs, node):
    return AV_T


def b_hash(I, args, kwargs, node):
    return AV_INT


def b_id(I, args, kwargs, node):
    return AV_INT


def b_object(I, args, kwargs, node):
    return AV_T


def b_exec(I, args, kwargs, node):
    return AV_NONE


for _e in ("Exception", "ValueError", "TypeError", "AttributeError", "KeyError",
           "NotImplementedError", "ImportError", "ZeroDivisionError", "RuntimeError",
           "IndexError", "FileNotFoundError", "DeprecationWarning", "UserWarning", "OSError",
           "AssertionError"):
    globals()["b_" + _e] = lambda I, args, kwargs, node: AV_T


# --- specials
def s_deepcopy(I, name, args, kwargs, node):
    return deep_copy(I, args[0], node)


def s_copy(I, name, args, kwargs, node):
    return shallow_copy(I, args[0], node)


def s_methodtype(I, name, args, kwargs, node):
    out = E
    for a in args[0]:
        if a[0] == "f":
            out |= {("b", a[1], args[1])}
        else:
            out |= AV_T
    return out


def s_partial(I, name, args, kwargs, node):
    return frozenset([("part", args[0], tuple(args[1:]), tuple(sorted(kwargs.items())))])


def s_delayed(I, name, args, kwargs, node):
    return args[0]


def s_parallel(I, name, args, kwargs, node):
    return frozenset([("x", "joblib.Parallel()")])


def s_parallel_run(I, name, args, kwargs, node):
    return seq_like(I, "list", args[0], node)


def s_clone(I, name, args, kwargs, node):
    return clone(I, args[0], node)


def s_fit_single(I, name, args, kwargs, node):
    est = args[0]
    fp = kwargs.get("fit_params", args[3] if len(args) > 3 else None)
    kw = {}
    for a in fp or ():
        if a[0] == "o" and I.meta[a[1]].cls == "dict":
            ex = I.dict_exact(a[1])
            if ex is not None:
                for k, v in ex:
                    kw[k] = kw.get(k, E) | v
            else:
                for f in I.fields[a[1]]:
                    if isinstance(f, tuple):
                        v = I.heap.get((a[1], f))
                        if v is not None and v - {UNDEF}:
                            kw[f[1]] = kw.get(f[1], E) | (v - {UNDEF})
    I.call_attr(est, "fit", [arg(args, kwargs, 1, "X", AV_T), arg(args, kwargs, 2, "y", AV_T)],
                kw, node)
    return est


def s_objnew(I, name, args, kwargs, node):
    out = E
    for a in args[0]:
        if a[0] == "k":
            out |= {("o", I.alloc(a[1].name, a[1], node))}
        else:
            out |= AV_T
    return out


def s_vectorize(I, name, args, kwargs, node):
    return frozenset([("part", args[0], (), ())])


def s_bag(I, name, args, kwargs, node):
    b = I.alloc("ext", None, node, "bag")
    I.hset(b, "[]", I.iter_elems(args[0], node))
    return frozenset([("o", b)])


RNG_MAKE = ("RandomState", "default_rng", "Generator", "check_random_state", "Random", "PCG64",
            "MT19937", "SeedSequence", "SystemRandom")


def is_random(name):
    return ".random." in name or name.startswith("random.") or (
        leaf(name) in ("check_random_state", "rvs"))


def s_rng(I, name, args, kwargs, node):
    if not I.suppress:
        I.rng_calls.setdefault(name, []).append(
            (I.site(node), I.callpath(), args, kwargs))
    if leaf(name) in RNG_MAKE:
        o = I.alloc("ext", None, node, "rng")
        sd = arg(args, kwargs, 0, "seed", None)
        I.hset(o, "seed", sd if sd is not None else AV_NONE)
        return frozenset([("o", o)])
    if leaf(name) in ("shuffle",):
        mutate_av(I, args[0], node)
        return AV_NONE
    return frozenset([("o", I.ext_obj(node, "ndarray")), T])


def s_paramgrid(I, name, args, kwargs, node):
    d = I.alloc("dict", None, node)
    I.dict_unknown(d, AV_STR, AV_T)
    I.hset(d, "#n", C(False))
    return I.new_seq("list", None, node, frozenset([("o", d)]))


def s_bunch(I, name, args, kwargs, node):
    return b_dict(I, args, kwargs, node)


def s_warn(I, name, args, kwargs, node):
    return AV_NONE


def json_copy(I, av, node):
    """The JSON image of a value; None when it cannot be written."""
    out = E
    for a in av:
        if a[0] == "c":
            if a[1] not in ("str", "int", "float", "bool", "NoneType"):
                return None
            out |= {a}
        elif a[0] in ("t", "u"):
            out |= {a}
        elif a[0] == "o":
            m = I.meta[a[1]]
            if m.cls == "ext" and m.tag == "json":
                out |= {a}
                continue
            if m.cls not in ("list", "tuple", "dict"):
                return None
            n = I.alloc("dict" if m.cls == "dict" else "list", None, node)
            for f in list(I.fields[a[1]]):
                v = I.heap.get((a[1], f))
                if v is None:
                    continue
                w = v if f in ("#n", "[k]") else json_copy(I, v, node)
                if w is None:
                    return None
                I.hset(n, f, w)
            out |= {("o", n)}
        else:
            return None
    return out


def s_jsondumps(I, name, args, kwargs, node):
    if not I.json_model:
        return AV_STR
    v = json_copy(I, args[0], node)
    if v is None:
        from .engine import Dead
        raise Dead()
    n = I.alloc("ext", None, node, "json")
    I.hset(n, "#json", v)
    return frozenset([("o", n)])


def s_jsonloads(I, name, args, kwargs, node):
    if I.json_model and args and all(a[0] == "o" and (a[1], "#json") in I.heap for a in args[0]):
        out = E
        for a in args[0]:
            out |= json_copy(I, I.heap[(a[1], "#json")], node)
        return out
    d = I.alloc("dict", None, node)
    I.dict_unknown(d, AV_STR, AV_T)
    I.hset(d, "#n", C(False))
    return frozenset([("o", d), T])


def s_str(I, name, args, kwargs, node):
    return AV_STR


def s_deprecated(I, name, args, kwargs, node):
    return frozenset([("x", "sklearn.utils.deprecated()")])


def s_identity(I, name, args, kwargs, node):
    return args[0] if args else AV_T


def s_check_is_fitted(I, name, args, kwargs, node):
    return AV_NONE


SPECIAL = {
    "copy.deepcopy": s_deepcopy, "copy.copy": s_copy, "types.MethodType": s_methodtype,
    "functools.partial": s_partial, "joblib.delayed": s_delayed, "joblib.Parallel": s_parallel,
    "joblib.Parallel()": s_parallel_run, "sklearn.base.clone": s_clone,
    "builtins.object.__new__": s_objnew, "numpy.vectorize": s_vectorize,
    "dask.bag.from_sequence": s_bag, "json.loads": s_jsonloads, "json.dumps": s_jsondumps,
    "warnings.warn": s_warn, "warnings.simplefilter": s_warn,
    "warnings.filterwarnings": s_warn,
    "functools.wraps": lambda I, n, a, k, nd: frozenset([("x", "functools.wraps()")]),
    "functools.wraps()": s_identity,
    "sklearn.utils.deprecated()": s_identity,
}
SPECIAL_LEAF = {"_fit_single_estimator": s_fit_single, "ParameterGrid": s_paramgrid,
                "Bunch": s_bunch, "deprecated": s_deprecated,
                "_deprecate_positional_args": s_identity, "abstractmethod": s_identity,
                "check_is_fitted": s_check_is_fitted, "elemwise": None}


def _elemwise(I, name, args, kwargs, node):
    I.callbacks(args, kwargs, node)
    return frozenset([("o", I.ext_obj(node, None))])


SPECIAL_LEAF["elemwise"] = _elemwise
for _m in ("numpy", "cupy", "dask.array"):
    for _f in ("RandomState", "default_rng", "seed", "choice", "normal", "gamma", "shuffle",
               "rand", "randn", "random", "randint", "uniform", "poisson", "permutation",
               "standard_normal", "multivariate_normal"):
        SPECIAL["%s.random.%s" % (_m, _f)] = s_rng


# ---------------------------------------------------------------------------- methods
STR_FOLD = {"lower", "upper", "strip", "replace", "title", "startswith", "endswith", "lstrip",
            "rstrip", "capitalize", "isdigit", "format", "zfill"}


def method_call(I, a, name, args, kwargs, node):
    k = a[0]
    if k == "c":
        return const_method(I, a, name, args, kwargs, node)
    if k == "vars":
        return vars_method(I, a, name, args, kwargs, node)
    if k == "k":
        if name == "__new__":
            return s_objnew(I, "", args, kwargs, node)
        if name == "__init__" and args:
            return AV_NONE
        return AV_T
    if k == "o":
        m = I.meta[a[1]]
        if m.ci is not None:
            return internal_method(I, a, name, args, kwargs, node)
        if m.cls in SEQ:
            return seq_method(I, a, name, args, kwargs, node)
        if m.cls == "dict":
            return dict_method(I, a, name, args, kwargs, node)
        if m.cls == "ext":
            return ext_method(I, a, name, args, kwargs, node)
        return AV_T
    if k in ("t", "xm"):
        I.callbacks(args, kwargs, node)
        if k == "t" and a[1] == "str" and name in STR_FOLD | {"join"}:
            return AV_BOOL if name in ("startswith", "endswith", "isdigit") else AV_STR
        if name in ("split",) and k == "t" and a[1] == "str":
            return I.new_seq("list", None, node, AV_STR)
        if name in ("keys", "items", "values", "tolist", "to_list"):
            return AV_T
        # methods looked up on unknown receivers: fresh unknown
        return AV_T
    return AV_T


def const_method(I, a, name, args, kwargs, node):
    if a == NONE:
        I.note_raise()
        raise I.Dead()
    if a[1] == "str":
        if name in STR_FOLD | {"split", "join"}:
            vals = [I.single_const(v, None) for v in args]
            if name == "join":
                ex = I.exact_elems(args[0]) if args else None
                if ex is not None:
                    ks = [I.single_const(e, None) for e in ex]
                    if all(isinstance(x, str) for x in ks):
                        return C(a[2].join(ks))
                return AV_STR
            if all(isinstance(v, (str, int)) for v in vals) and not kwargs:
                try:
                    r = getattr(a[2], name)(*vals)
                except Exception:
                    return AV_STR
                if isinstance(r, list):
                    return I.new_seq("list", [C(x) for x in r], node)
                return C(r)
            if name in ("startswith", "endswith", "isdigit"):
                return AV_BOOL
            return AV_STR if name != "split" else I.new_seq("list", None, node, AV_STR)
        if not hasattr("", name):
            I.note_raise()
            raise I.Dead()
        return AV_T
    if a[1] in ("int", "float", "bool") and not hasattr(0.5, name) and not hasattr(1, name):
        I.note_raise()
        raise I.Dead()
    return AV_T


def vars_method(I, a, name, args, kwargs, node):
    oid = a[1]
    if name in ("keys", "__iter__"):
        ks = [f for f in I.fields[oid] if isinstance(f, str) and f[:1] not in "#*["
              and (oid, f) in I.heap]
        if all(UNDEF not in I.heap[(oid, f)] for f in ks) and (oid, "*") not in I.heap and \
                len(ks) <= 40:
            return I.new_seq("list", [C(f) for f in ks], node)
        return I.new_seq("list", None, node, AV_STR)
    if name in ("values", "items"):
        items = []
        exact = (oid, "*") not in I.heap
        for f in list(I.fields[oid]):
            v = I.heap.get((oid, f))
            if v is None or not isinstance(f, str) or f[:1] in "#*[":
                continue
            if v == frozenset([UNDEF]):
                continue
            if UNDEF in v:
                exact = False
            w = v - {UNDEF}
            items.append(w if name == "values" else tup(I, [C(f), w], node))
        # keep elements apart (exact): an over-approximation when some may be absent
        return I.new_seq("list", items, node) if len(items) <= 40 else \
            I.new_seq("list", None, node, frozenset().union(*items))
    if name == "get":
        nms = names_of(args[0])
        d = args[1] if len(args) > 1 else AV_NONE
        out = E
        if nms is None:
            for f in I.fields[oid]:
                out |= I.heap.get((oid, f), E) - {UNDEF}
            return out | d
        for nm in nms:
            v = I.heap.get((oid, nm))
            if v is None:
                out |= d
            else:
                out |= v - {UNDEF}
                if UNDEF in v:
                    out |= d
        return out
    if name == "update":
        for src in args:
            for s in src:
                if s[0] == "vars":
                    for f in list(I.fields[s[1]]):
                        v = I.heap.get((s[1], f))
                        if v is not None:
                            old = I.heap.get((oid, f))
                            nv = v
                            if UNDEF in v and old is not None:
                                nv = (v - {UNDEF}) | old
                            I.write(oid, f, nv, node)
                elif s[0] == "o" and I.meta[s[1]].cls == "dict":
                    for f in list(I.fields[s[1]]):
                        v = I.heap.get((s[1], f))
                        if v is None:
                            continue
                        if isinstance(f, tuple):
                            I.write(oid, f[1], v, node)
                        elif f == "[]" and v:
                            I.mutated(oid, "*", node)
                            I.hset(oid, "*", I.heap.get((oid, "*"), E) | v)
                else:
                    I.mutated(oid, "*", node)
        for kk, v in kwargs.items():
            if kk not in ("*", "**"):
                I.write(oid, kk, v, node)
        return AV_NONE
    if name in ("pop", "setdefault", "__setitem__", "clear", "popitem"):
        nms = names_of(args[0]) if args else None
        out = E
        for nm in nms or []:
            v = I.heap.get((oid, nm))
            if name == "pop":
                if v is not None and v != frozenset([UNDEF]):
                    I.mutated(oid, nm, node)
                    out |= v - {UNDEF}
                    I.hset(oid, nm, frozenset([UNDEF]))
                else:
                    out |= args[1] if len(args) > 1 else E
                if v is not None and UNDEF in v and len(args) > 1:
                    out |= args[1]
            elif name == "setdefault":
                dv = args[1] if len(args) > 1 else AV_NONE
                if v is None or UNDEF in v:
                    I.mutated(oid, nm, node)
                    I.hset(oid, nm, ((v or E) - {UNDEF}) | dv)
                out |= I.heap[(oid, nm)]
            elif name == "__setitem__":
                I.write(oid, nm, args[1], node)
                out |= AV_NONE
        if nms is None:
            I.mutated(oid, "*", node)
        return out or AV_T
    if name == "copy":
        d = I.alloc("dict", None, node)
        copy_vars_to_dict(I, oid, d)
        exact = all(UNDEF not in I.heap.get((oid, f), E) for f in I.fields[oid])
        I.hset(d, "#n", C(bool(exact)))
        return frozenset([("o", d)])
    return AV_T


def seq_method(I, a, name, args, kwargs, node):
    oid = a[1]
    cls = I.meta[oid].cls
    me = frozenset([a])
    if name in ("append", "add"):
        I.mutated(oid, "[]", node)
        I.list_append(oid, args[0], node)
        return AV_NONE
    if name in ("extend", "update", "difference_update", "intersection_update", "__iadd__"):
        I.mutated(oid, "[]", node)
        for v in args:
            I.list_extend(oid, v, node)
        return AV_NONE
    if name == "insert":
        I.mutated(oid, "[]", node)
        I.hset(oid, "[]", I.all_elems(oid) | args[1])
        I.hset(oid, "#n", AV_T)
        return AV_NONE
    if name in ("remove", "discard", "clear", "sort", "reverse"):
        I.mutated(oid, "[]", node)
        if name == "sort" and "key" in kwargs:
            I.callbacks([kwargs["key"]], {}, node, [I.all_elems(oid) or AV_T])
        I.list_blur(oid)
        return AV_NONE
    if name == "pop":
        I.mutated(oid, "[]", node)
        ex = I.exact_elems(me)
        r = I.all_elems(oid)
        i = I.single_const(args[0], None) if args else -1
        if ex is not None and isinstance(i, int) and -len(ex) <= i < len(ex):
            r = ex[i]
            rest = list(ex)
            rest.pop(i)
            for j, v in enumerate(rest):
                I.hset(oid, j, v)
            I.hset(oid, "#n", C(len(rest)))
            return r
        I.list_blur(oid)
        return r or AV_T
    if name == "copy":
        return seq_like(I, cls, me, node)
    if name == "index" and args:
        ex = I.exact_elems(me)
        if ex is not None and len(args) == 1 and all(a[0] == "c" for a in args[0]) and all(
                len(v) == 1 and all(a[0] == "c" for a in v) for v in ex):
            vals = [next(iter(v)) for v in ex]
            r = E
            for a in args[0]:
                hit = [j for j, v in enumerate(vals) if v[2] == a[2]]
                if hit:
                    r |= C(hit[0])
                else:
                    I.note_raise()
            if not r:
                raise I.Dead()
            return r
    if name in ("index", "count"):
        return AV_INT
    if name in ("union", "intersection", "difference", "symmetric_difference"):
        acc = I.all_elems(oid)
        if name in ("union", "symmetric_difference"):
            for v in args:
                acc |= I.iter_elems(v, node)
        return I.new_seq("set", None, node, acc)
    if name in ("issubset", "issuperset", "isdisjoint", "__contains__"):
        return AV_BOOL
    if name == "__len__":
        return b_len(I, [me], {}, node)
    if name == "__getitem__":
        return I.load_item(me, args[0], None, node)
    if name == "__setitem__":
        I.store_item(me, args[0], args[1], node)
        return AV_NONE
    return AV_T


def dict_method(I, a, name, args, kwargs, node):
    oid = a[1]
    me = frozenset([a])
    if name == "get":
        d = args[1] if len(args) > 1 else kwargs.get("default", AV_NONE)
        return I.dict_get(oid, args[0], node, d)
    if name == "keys":
        ex = I.dict_exact(oid)
        if ex is not None:
            return I.new_seq("list", [C(k) for k, _ in ex], node)
        return I.new_seq("list", None, node, I.dict_keys(oid))
    if name == "values":
        ex = I.dict_exact(oid)
        if ex is not None:
            return I.new_seq("list", [v for _, v in ex], node)
        return I.new_seq("list", None, node, I.dict_values(oid))
    if name == "items":
        ex = I.dict_exact(oid)
        if ex is not None:
            return I.new_seq("list", [tup(I, [C(k), v], node) for k, v in ex], node)
        ks, vs = I.dict_keys(oid), I.dict_values(oid)
        if not vs:
            return I.new_seq("list", None, node, E)
        return I.new_seq("list", None, node, tup(I, [ks or AV_T, vs], node))
    if name == "update":
        I.mutated(oid, "[]", node)
        for v in args:
            for s in v:
                if s[0] == "o" and I.meta[s[1]].cls == "dict":
                    if not I.dict_copy(s[1], oid):
                        if (oid, "#n") in I.heap:
                            I.hset(oid, "#n", C(False))
                else:
                    I.dict_unknown(oid, AV_T, AV_T)
        for k, v in kwargs.items():
            if k in ("*", "**"):
                I.dict_unknown(oid, AV_T, v)
            else:
                I.hset(oid, ("k", k), v)
        return AV_NONE
    if name in ("pop", "setdefault"):
        d = args[1] if len(args) > 1 else None
        k = I.single_const(args[0], "?nokey?")
        absent = False
        if k != "?nokey?":
            v = I.heap.get((oid, ("k", k)))
            absent = I.dict_exact(oid) is not None and (v is None or v == frozenset([UNDEF]))
        if name == "pop":
            if absent and d is not None:
                return d
            I.mutated(oid, "[]", node)
            r = I.dict_get(oid, args[0], node, d)
            if k != "?nokey?" and I.heap.get((oid, ("k", k))) is not None:
                I.hset(oid, ("k", k), frozenset([UNDEF]))
            return r or AV_T
        r = I.dict_get(oid, args[0], node, d or AV_NONE)
        if absent or k == "?nokey?" or I.dict_exact(oid) is None:
            I.mutated(oid, "[]", node)
            if k != "?nokey?":
                I.hset(oid, ("k", k), r)
            else:
                I.dict_unknown(oid, args[0], r)
        return r
    if name in ("clear", "popitem"):
        I.mutated(oid, "[]", node)
        return AV_T
    if name == "copy":
        return b_dict(I, [me], {}, node)
    if name == "__getitem__":
        return I.dict_get(oid, args[0], node)
    if name == "__setitem__":
        I.store_item(me, args[0], args[1], node)
        return AV_NONE
    if name in ("__contains__", "__len__"):
        return AV_T
    return AV_T


TRIANGLE_ONLY = {"set_backend", "cum_to_incr", "incr_to_cum", "dev_to_val", "val_to_dev", "grain",
                 "get_array_module", "broadcast_axis", "sort_axis", "trend"}


def package_only(I, name):
    if name in TRIANGLE_ONLY:
        return True
    if not name.startswith("_") or name.startswith("__"):
        return False
    pk = I.__dict__.get("pkg_private")
    if pk is None:
        pk = I.pkg_private = {m for c in I.cls_by_name.values() for m in c.methods
                              if m.startswith("_")}
    return name in pk


def ext_method(I, a, name, args, kwargs, node):
    r = ext_method1(I, a, name, args, kwargs, node)
    if name in SAME_SHAPE:
        return keep_shape(I, a[1], r, node)
    return r


def ext_method1(I, a, name, args, kwargs, node):
    oid = a[1]
    tag = I.meta[oid].tag
    me = frozenset([a])
    record(I, "method." + name, args, kwargs, node)
    if tag not in ("model", "user") and package_only(I, name):
        raise I.Dead()              # AttributeError: no library object has it
    if tag == "bag":
        if name == "map":
            el = I.heap.get((oid, "[]")) or AV_T
            r = I.choose([lambda: I.call(args[0], [el] + list(args[1:]), dict(kwargs), node),
                          lambda: E])
            b = I.alloc("ext", None, node, "bag")
            I.hset(b, "[]", r)
            return frozenset([("o", b)])
        if name == "compute":
            return I.new_seq("list", None, node, I.heap.get((oid, "[]")) or E)
    if tag == "rng":
        if not I.suppress:
            I.rng_calls.setdefault("rng." + name, []).append(
                (I.site(node), I.callpath(), args, kwargs))
            if oid < I.phase_mark:
                I.event("rng", "PROCESS", "generator kept from an earlier call", name, node)
        return frozenset([("o", I.ext_obj(node, "ndarray")), T])
    # a callable stored in an instance-like field
    st = I.heap.get((oid, name))
    if st is not None and any(x[0] in ("f", "b") for x in st):
        return I.call(st, args, kwargs, node)
    inplace = kwargs.get("inplace")
    if inplace is not None and any(True in I.truth(frozenset([x])) for x in inplace):
        mutate_av(I, me, node)
    if "out" in kwargs:
        mutate_av(I, kwargs["out"], node)
    if name in MUTATOR_METHODS and tag not in IMMUTABLE_TAGS:
        mutate_av(I, me, node)
        if name == "update" and args:
            pass
        return AV_T
    if any(x[0] in ("f", "b", "part") for v in list(args) + list(kwargs.values()) for x in v):
        I.callbacks(args, kwargs, node)
    if (oid, "#strs") in I.heap and name in ("flatten", "copy", "astype", "repeat", "reshape",
                                             "ravel", "squeeze", "tolist", "transpose"):
        if name == "tolist":
            return I.new_seq("list", None, node, I.heap[(oid, "[]")])
        return str_array(I, I.heap[(oid, "[]")], node)
    if name in VIEW_METHODS and tag in (None, "ndarray", "COO"):
        return other_shape(I, oid, me, node)
    if name == "astype":
        cp = kwargs.get("copy")
        if cp is not None and any(x[0] == "c" and not x[2] for x in cp):
            return me | I.fresh_ext(node, tag)
        return I.fresh_ext(node, tag)
    if name in ("fit", "fit_transform") and tag == "model":
        return me if name == "fit" else I.fresh_ext(node, None)
    if name in ("tolist", "to_list"):
        return I.new_seq("list", None, node, AV_T)
    if name in ("item", "strftime", "year"):
        return AV_T
    if name in ("index", "argmax", "argmin", "nunique", "count") and tag is None:
        return AV_T
    if name in ("groupby", "rolling", "resample"):
        return I.fresh_ext(node, "groupby")
    if name in ("to_frame", "reset_index", "unstack", "pivot_table", "merge"):
        return I.fresh_ext(node, "pandas.DataFrame")
    if name in ("copy", "sort_values", "sort_index", "drop", "rename", "fillna", "reindex",
                "set_index", "drop_duplicates", "dropna", "round", "cumsum", "cumprod", "shift",
                "isna", "notna", "isin", "clip"):
        if name == "set_index":
            return I.fresh_ext(node, tag)
        return I.fresh_ext(node, tag)
    if name in ("to_timestamp", "to_period"):
        return I.fresh_ext(node, {"DatetimeIndex": "PeriodIndex",
                                  "PeriodIndex": "DatetimeIndex"}.get(tag))
    if name in ("max", "min", "sum", "mean", "any", "all", "std", "prod", "nansum"):
        return I.fresh_ext(node, None) | AV_T
    if name in ("to_json", "to_html", "to_string", "to_csv", "render"):
        return AV_STR
    r = I.fresh_ext(node, None)
    if tag == "groupby" or name == "apply":
        return r | AV_T
    return r


# ---------------------------------------------------------------------------- sklearn bases
def internal_method(I, a, name, args, kwargs, node):
    me = frozenset([a])
    ci = I.meta[a[1]].ci
    eb = [leaf(b) for b in ci.ext_bases()]
    if name == "__init__":
        if "Pipeline" in eb:
            I.store_attr(me, "steps", arg(args, kwargs, 0, "steps", AV_T), node)
            I.store_attr(me, "memory", kwargs.get("memory", AV_NONE), node)
            I.store_attr(me, "verbose", kwargs.get("verbose", C(False)), node)
        elif any("Ensemble" in b or "Voting" in b for b in eb) and (args or kwargs):
            v = arg(args, kwargs, 0, "estimators", None)
            if v is not None:
                I.store_attr(me, "estimators", v, node)
        return AV_NONE
    if name == "__new__":
        return s_objnew(I, "", args, kwargs, node)
    if name in ("__setattr__",) and args:
        nms = names_of(args[0])
        for nm in nms or []:
            I.write(a[1], nm, args[1], node)
        if nms is None:
            I.mutated(a[1], "*", node)
        return AV_NONE
    if name == "__getattribute__" and args:
        return b_getattr(I, [me, args[0]], {}, node)
    if name == "get_params":
        return get_params(I, a, node)
    if name == "set_params":
        if not args and not kwargs:
            return me
        for k, v in kwargs.items():
            if k in ("*", "**"):
                for p in init_params(I, ci):
                    I.write(a[1], p, v, node, weak=True)
            else:
                I.store_attr(me, k, v, node)
        return me
    if name == "fit_transform":
        X = arg(args, kwargs, 0, "X", AV_T)
        y = arg(args, kwargs, 1, "y", AV_NONE)
        kw = {k: v for k, v in kwargs.items() if k not in ("X", "y")}
        f = I.call_attr(me, "fit", [X, y], kw, node)
        return I.call_attr(f, "transform", [X], {}, node)
    if "Pipeline" in eb and name in ("fit", "predict", "fit_predict", "transform"):
        return sk_pipeline(I, a, name, args, kwargs, node)
    if name == "named_steps":
        return AV_T
    if name == "_validate_names":
        return AV_NONE
    if name == "_log_message":
        return AV_STR | AV_NONE
    return AV_T


def sk_pipeline(I, a, name, args, kwargs, node):
    me = frozenset([a])
    steps = I.load_attr(me, "steps", node)
    ests = []
    ex = I.exact_elems(steps)
    if ex is None:
        el = I.iter_elems(steps, node)
        seq = [el, el]
    else:
        seq = ex
    for s in seq:
        e = E
        for x in s:
            p = I.exact_elems(frozenset([x]))
            if p and len(p) >= 2:
                e |= p[1]
            else:
                e |= I.iter_elems(frozenset([x]), node) if x[0] == "o" else AV_T
        ests.append(internal_atoms(I, e) or e)
    X = arg(args, kwargs, 0, "X", AV_T)
    if name == "fit":
        for e in ests[:-1]:
            X = I.call_attr(e, "fit_transform", [X], {}, node)
        if ests:
            I.call_attr(ests[-1], "fit", [X, AV_NONE], {}, node)
        return me
    for e in ests[:-1]:
        X = I.call_attr(e, "transform", [X], {}, node)
    kw = {k: v for k, v in kwargs.items() if k != "X"}
    if ests:
        return I.call_attr(ests[-1], name, [X], kw, node)
    return AV_T
