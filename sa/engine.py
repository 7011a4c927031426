"""Abstract interpreter: inlining, flow-sensitive heap, may-alias / ownership / effect analysis.

The program is never run.  Statements of /repo's source are evaluated over *abstract values*
(sets of atoms: constants, abstract objects, functions, classes, library symbols, "unknown").
Branches whose condition cannot be decided are both explored and joined; loops are explored for
zero, one and two iterations and joined; calls to package functions are inlined with receiver
dispatch over the class hierarchy; calls to library functions use the alias/mutation model of
ext.py.  Effects on *frozen* objects (caller-owned inputs, fitted estimators, module globals)
are reported as events carrying the construct and the call path.
"""
import ast
import sys

from . import ext
from .model import (AnalysisBroken, ClassInfo, FunctionInfo, Module, Program, PKG)

sys.setrecursionlimit(60000)

MISSING = object()
UNDEF = ("u",)
T = ("t", None)
TINT = ("t", "int")
TBOOL = ("t", "bool")
TSTR = ("t", "str")
NONE = ("c", "NoneType", None)
TRUE = ("c", "bool", True)
FALSE = ("c", "bool", False)
E = frozenset()
AV_T = frozenset([T])
AV_INT = frozenset([TINT])
AV_BOOL = frozenset([TBOOL])
AV_STR = frozenset([TSTR])
AV_NONE = frozenset([NONE])
AV_TRUE = frozenset([TRUE])
AV_FALSE = frozenset([FALSE])
CONTAINERS = ("list", "tuple", "dict", "set")


def const(v):
    return ("c", type(v).__name__, v)


def C(v):
    return frozenset([const(v)])


class Dead(Exception):
    """The current abstract path has no normal continuation."""


class Budget(Exception):
    pass


class FuncVal:
    __slots__ = ("fi", "env", "defaults", "kwdefaults", "cls")

    def __init__(self, fi, env, defaults, kwdefaults, cls=None):
        self.fi, self.env, self.defaults, self.kwdefaults = fi, env, defaults, kwdefaults
        self.cls = cls

    def __repr__(self):
        return "<fv %s>" % self.fi.qual


class Meta:
    __slots__ = ("cls", "ci", "site", "tag")

    def __init__(self, cls, ci, site, tag=None):
        self.cls, self.ci, self.site, self.tag = cls, ci, site, tag


class Frame:
    __slots__ = ("fi", "env", "returns", "mark", "serial", "depth", "loops", "node", "selfcls",
                 "final", "final_av", "module", "yields", "fv", "args_self")

    def __init__(self, fi, env, module, mark, serial, fv=None):
        self.fi, self.env, self.module = fi, env, module
        self.returns = []
        self.mark, self.serial = mark, serial
        self.depth = 0
        self.loops = []
        self.node = None
        self.final = False
        self.final_av = E
        self.yields = None
        self.fv = fv
        self.args_self = E


class Event:
    __slots__ = ("kind", "label", "path", "field", "file", "line", "func", "stack", "text", "extra")

    def __init__(self, kind, label, path, field, file, line, func, stack, text, extra=None):
        self.kind, self.label, self.path, self.field = kind, label, path, field
        self.file, self.line, self.func = file, line, func
        self.stack, self.text, self.extra = stack, text, extra

    def key(self):
        return (self.kind, self.label, self.path, str(self.field), self.file, self.func, self.line)

    def describe(self):
        return "%s:%d in %s: `%s` [%s of %s%s.%s] via %s" % (
            self.file, self.line, self.func, self.text, self.kind, self.label, self.path,
            self.field, " > ".join(self.stack))


class Interp:
    Dead = Dead

    def __init__(self, program=None, budget=6_000_000, memo=True):
        self.p = program or Program()
        self.heap = {}
        self.trail = []
        self.meta = []
        self.fields = []
        self.frozen = {}
        self.events = {}
        self.suppress = 0
        self.stack = []          # frames
        self.trys = []
        self.modenv = {}         # module name -> env oid
        self.modstate = {}       # name -> 'running'|'done'
        self.classes = {}        # (module, name) -> ClassInfo
        self.cls_by_name = {}
        self.extattrs = {}
        self.fvs = {}
        self.fattrs = {}
        self.initdone = False
        self.steps = 0
        self.budget = budget
        self.rec_bound = 3
        self.rec_bounds = {}
        self.visited_fns = set()
        self.visited_stmts = set()
        self.call_sites = set()
        self.ext_calls = {}
        self.rng_calls = {}
        self.read_hook = None
        self.json_model = False
        self.read_log = None      # {(class, attribute)} read, when recording
        self.maybe_missing = {}
        self.truncated = {}
        self.callcount = {}
        self.memo = None
        self.sites = {}
        self.site_of = {}
        self.multi = set()       # package objects standing for several runtime objects
        self.trunc_log = []
        self.hooks = {}           # qualified fn name -> callable(interp, fv, args, kwargs, selfav)
        self.on_call = []
        self.obs = None           # {node: (file, func, set of constant values)} when recording
        self.watch = None         # oid of the estimator whose option reads are recorded
        self.watched = {}         # field -> set of (file, line, func)
        self.on_ext = []
        self.on_index = []
        self.pinned = {}          # (object, property) -> value it is assumed to have
        self.ctx = []             # active state-restoring context managers
        self.phase_mark = 0       # objects with smaller ids predate the current phase
        self.wires = None
        self.made = set()
        for name in list(self.p.modules):
            self.load_module(name)
        self.initdone = True
        self.freeze_globals()
        if memo:
            from .memo import Memo
            self.memo = Memo(self)

    # ------------------------------------------------------------------ heap
    def alloc(self, cls, ci=None, node=None, tag=None):
        oid = len(self.meta)
        self.meta.append(Meta(cls, ci, self.site(node), tag))
        self.fields.append({})
        return oid

    def hget(self, oid, f):
        return self.heap.get((oid, f), MISSING)

    def hset(self, oid, f, av):
        k = (oid, f)
        old = self.heap.get(k, MISSING)
        if old is av or (old is not MISSING and old == av):
            return
        if oid in self.multi and old is not MISSING:
            av = av | old
            if av == old:
                return
        self.trail.append((k, old))
        self.heap[k] = av
        self.fields[oid][f] = True

    def delta_since(self, mark):
        h = self.heap
        return {k: h.get(k, MISSING) for k, _ in self.trail[mark:]}

    def undo(self, mark):
        h, tr = self.heap, self.trail
        while len(tr) > mark:
            k, old = tr.pop()
            if old is MISSING:
                h.pop(k, None)
            else:
                h[k] = old

    def apply(self, delta):
        h, tr = self.heap, self.trail
        for k, v in delta.items():
            old = h.get(k, MISSING)
            if old is v or (old is not MISSING and old == v):
                continue
            if v is MISSING:
                continue
            tr.append((k, old))
            h[k] = v
            self.fields[k[0]][k[1]] = True

    def merge(self, deltas, serial):
        """Plain join (no renaming): used where Python locals hold fresh values."""
        if len(deltas) == 1:
            return deltas[0]
        return self.join2(deltas, serial, ())

    def join2(self, deltas, serial, shared):
        h = self.heap
        keys = {}
        for d in deltas:
            keys.update(d)
        out = {}
        for k in keys:
            acc = E
            base = h.get(k, MISSING)
            miss = False
            for d in deltas:
                v = d.get(k, base) if k in d else base
                if v is MISSING:
                    miss = True
                else:
                    acc = acc | v
            if miss and (k[0] < serial or k[0] in shared):
                if not isinstance(k[1], str) or k[1][:1] not in "#[":
                    acc = acc | {UNDEF}
            out[k] = acc
        return out

    def live(self, delta, serial, extra=E):
        """Fresh objects of `delta` reachable from pre-existing locations (and `extra`)."""
        refs = self.avrefs
        todo = []
        refs(extra, todo)
        byobj = {}
        for k, v in delta.items():
            if v is MISSING:
                continue
            if k[0] < serial:
                refs(v, todo)
            else:
                byobj.setdefault(k[0], []).append(v)
        seen = set()
        while todo:
            o = todo.pop()
            if o < serial or o in seen:
                continue
            seen.add(o)
            for v in byobj.get(o, ()):
                refs(v, todo)
        return seen

    def join(self, deltas, serial, results=None):
        """Join alternative heaps; objects allocated in different alternatives that play the
        same role (same class, same location) never coexist and are unified.
        -> (merged delta, joined result)"""
        if results is None:
            results = [E] * len(deltas)
        if self.memo is None:
            res = E
            for r in results:
                res |= r
            return self.merge(deltas, serial), res
        fr = self.stack[-1] if self.stack else None
        ey = fr.yields if fr is not None and fr.yields else E
        acc, racc = None, E
        for d, r in zip(deltas, results):
            lv = self.live(d, serial, r | ey)
            d = {k: v for k, v in d.items() if k[0] < serial or k[0] in lv}
            if acc is None:
                acc, racc, lacc = d, r, lv
                continue
            mp, shared = self.pair(acc, d, lacc, lv, racc, r, serial)
            if mp:
                rel = self.memo.rel
                d = {(mp.get(k[0], k[0]), k[1]): (v if v is MISSING else rel(v, mp))
                     for k, v in d.items()}
                r = rel(r, mp)
                lv = {mp.get(o, o) for o in lv}
            acc = self.join2([acc, d], serial, shared)
            racc = racc | r
            lacc = lacc | lv
        return self.widen(acc, racc, serial)

    def widen(self, acc, racc, serial):
        for k, v in acc.items():
            if v is not MISSING and len(v) > 3:
                w = self.collapse(v)
                if w is not v:
                    acc[k] = w
        for k, v in list(acc.items()):
            v = acc.get(k, MISSING)
            if v is not MISSING and len(v) > 4:
                acc, racc = self.fuse(acc, racc, v, serial)
        if len(racc) > 4:
            acc, racc = self.fuse(acc, racc, racc, serial)
        return acc, racc

    def fuse(self, acc, racc, v, serial):
        """Widening: more than four fresh objects of one class become one (weakly updated)."""
        groups = {}
        for a in v:
            if a[0] == "o" and a[1] >= serial and a[1] not in self.frozen:
                m = self.meta[a[1]]
                if m.ci is not None:
                    groups.setdefault(m.ci, []).append(a[1])
        mp = {}
        for ci, os in groups.items():
            if len(os) > 4:
                os.sort()
                for o in os[1:]:
                    mp[o] = os[0]
                self.multi.add(os[0])
                self.meta[os[0]].tag = "multi"
        if not mp:
            return acc, racc
        rel = self.memo.rel
        out = {}
        for k, x in acc.items():
            k = (mp.get(k[0], k[0]), k[1])
            x = x if x is MISSING else rel(x, mp)
            y = out.get(k, MISSING)
            out[k] = x if y is MISSING else y if x is MISSING else x | y
        reps = set(mp.values())
        for r in reps:
            members = [o for o in mp if mp[o] == r] + [r]
            for k in [k for k in out if k[0] == r and isinstance(k[1], str)]:
                if any((o, k[1]) not in acc for o in members):
                    out[k] = out[k] | {UNDEF}
        return out, rel(racc, mp)

    def pair(self, A, B, LA, LB, ra, rb, serial):
        taken = LA & LB
        shared = set(taken)
        mp = {}
        meta = self.meta
        fa, fb = {}, {}
        for k in A:
            if k[0] >= serial:
                fa.setdefault(k[0], []).append(k[1])
        for k in B:
            if k[0] >= serial:
                fb.setdefault(k[0], []).append(k[1])
        work = [(ra, rb)]
        for k, v in A.items():
            if k[0] < serial:
                w = B.get(k, MISSING)
                if w is not MISSING and v is not MISSING and v is not w:
                    work.append((v, w))
        for o in taken:
            for f in fa.get(o, ()):
                w = B.get((o, f), MISSING)
                v = A[(o, f)]
                if w is not MISSING and v is not MISSING and v is not w:
                    work.append((v, w))
        site_of = self.site_of
        while work:
            v, w = work.pop()
            ca = {}
            cb = {}
            for av, side, other, c in ((v, LA, LB, ca), (w, LB, LA, cb)):
                for a in av:
                    if a[0] == "o" and a[1] >= serial and a[1] not in other \
                            and a[1] not in site_of and a[1] in side:
                        m = meta[a[1]]
                        if m.cls == "env":
                            continue
                        c.setdefault((m.cls, m.ci, m.tag), []).append(a[1])
            if not ca or not cb:
                continue
            for t, la in ca.items():
                lb = cb.get(t)
                if lb is None:
                    continue
                la = sorted(o for o in la if o not in taken)
                lb = sorted(o for o in lb if o not in mp)
                seq = t[0] in ("list", "tuple", "set")
                for oa, ob in zip(la, lb):
                    if seq and set(fa.get(oa, ())) != set(fb.get(ob, ())):
                        self.inexact(A, oa, fa)
                        self.inexact(B, ob, fb)
                    taken.add(oa)
                    shared.add(oa)
                    mp[ob] = oa
                    for f in fa.get(oa, ()):
                        x = B.get((ob, f), MISSING)
                        y = A[(oa, f)]
                        if x is not MISSING and y is not MISSING and x is not y:
                            work.append((y, x))
        return mp, shared

    def collapse(self, av):
        """Widening: many private containers of plain data in one place become one summary."""
        groups = {}
        for a in av:
            if a[0] == "o":
                k = self.meta[a[1]].cls
                if k in CONTAINERS:
                    groups.setdefault(k, []).append(a)
        for k, atoms in groups.items():
            if len(atoms) < 3:
                continue
            dead = [a for a in atoms if a[1] not in self.frozen and a[1] not in self.site_of
                    and self.plain_container(a[1], 2)]
            if len(dead) < 2:
                continue
            av = (av - frozenset(dead)) | {("o", self.summary(k))}
        return av

    def plain_container(self, oid, depth):
        for f in self.fields[oid]:
            v = self.heap.get((oid, f))
            if not v:
                continue
            for a in v:
                if a[0] in "ctux":
                    continue
                if a[0] == "o":
                    m = self.meta[a[1]]
                    if m.cls == "ext" and a[1] not in self.frozen and a[1] in self.site_of:
                        continue
                    if depth and m.cls in CONTAINERS and a[1] not in self.frozen \
                            and self.plain_container(a[1], depth - 1):
                        continue
                return False
        return True

    def summary(self, kind):
        key = ("sum", kind)
        oid = self.sites.get(key)
        if oid is None or oid in self.frozen:
            oid = self.alloc(kind, None, None)
            self.init_summary(oid, kind)
            self.sites[key] = oid
            self.site_of[oid] = key
        return oid

    def init_summary(self, oid, kind):
        put = {"[]": AV_T}
        if kind == "dict":
            put = {"[]": AV_T, "[k]": AV_T, "#n": AV_FALSE}
        for f, v in put.items():
            self.heap[(oid, f)] = v
            self.fields[oid][f] = True

    def inexact(self, d, o, fields):
        acc = E
        for f in fields.get(o, ()):
            v = d.pop((o, f))
            if f != "#n" and v is not MISSING:
                acc |= v
        d[(o, "[]")] = acc - {UNDEF}
        fields[o] = ["[]"]

    def avrefs(self, av, acc):
        for a in av:
            k = a[0]
            if k in ("o", "vars"):
                acc.append(a[1])
            elif k == "f":
                if a[1].env is not None:
                    acc.append(a[1].env)
                for d in a[1].defaults:
                    self.avrefs(d, acc)
                for d in a[1].kwdefaults.values():
                    self.avrefs(d, acc)
            elif k == "b":
                if a[1].env is not None:
                    acc.append(a[1].env)
                self.avrefs(a[2], acc)
            elif k in ("sup", "xm"):
                self.avrefs(a[2], acc)
            elif k == "part":
                self.avrefs(a[1], acc)
                for x in a[2]:
                    self.avrefs(x, acc)
                for _, x in a[3]:
                    self.avrefs(x, acc)

    def merge_keys(self, deltas, mark, serial, cur):
        """Join of exceptional-exit deltas, evaluated against the state at `mark`."""
        base = {}
        for k, old in reversed(self.trail[mark:]):
            base[k] = old
        keys = {}
        for d in deltas:
            keys.update(d)
        out = {}
        for k in keys:
            acc = E
            b = base[k] if k in base else self.heap.get(k, MISSING)
            miss = False
            for d in deltas:
                v = d[k] if k in d else b
                if v is MISSING:
                    miss = True
                else:
                    acc |= v
            if miss and k[0] < serial:
                acc |= {UNDEF}
            out[k] = acc
        return out

    def alts(self, thunks):
        """Non-deterministic choice over statement thunks (-> falls through?)."""
        if len(thunks) == 1:
            return thunks[0]()
        mark, serial = len(self.trail), len(self.meta)
        fr = self.stack[-1]
        outs = []
        fr.depth += 1
        try:
            for th in thunks:
                try:
                    if th():
                        outs.append(self.delta_since(mark))
                except Dead:
                    pass
                self.undo(mark)
        finally:
            fr.depth -= 1
        if not outs:
            return False
        self.apply(self.join(outs, serial)[0])
        return True

    def choose(self, thunks):
        """Non-deterministic choice over expression thunks (-> AV)."""
        if len(thunks) == 1:
            return thunks[0]()
        mark, serial = len(self.trail), len(self.meta)
        fr = self.stack[-1] if self.stack else None
        outs, res = [], []
        if fr:
            fr.depth += 1
        try:
            for th in thunks:
                try:
                    r = th()
                    res.append(r)
                    outs.append(self.delta_since(mark))
                except Dead:
                    pass
                self.undo(mark)
        finally:
            if fr:
                fr.depth -= 1
        if not outs:
            raise Dead()
        d, r = self.join(outs, serial, res)
        self.apply(d)
        return r

    # ------------------------------------------------------------- locations
    def site(self, node):
        if self.stack:
            fr = self.stack[-1]
            return (fr.module.rel, getattr(node, "lineno", 0), fr.fi.qual if fr.fi else "<module>")
        return ("<driver>", 0, "<driver>")

    def callpath(self):
        return tuple("%s:%s" % (f.module.rel.split("/")[-1], f.fi.qual)
                     for f in self.stack if f.fi is not None)

    def text(self, node):
        try:
            return ast.unparse(node).split("\n")[0][:140]
        except Exception:
            return "?"

    def event(self, kind, label, path, field, node, extra=None):
        if self.suppress:
            return
        file, line, func = self.site(node)
        fr = self.stack[-1] if self.stack else None
        stnode = fr.node if fr is not None and fr.node is not None else node
        ev = Event(kind, label, path, field, file, line, func, self.callpath(),
                   self.text(stnode) if stnode is not None else "", extra)
        k = ev.key()
        old = self.events.get(k)
        if old is None or len(ev.stack) < len(old.stack):
            self.events[k] = ev

    # --------------------------------------------------------------- freeze
    def reach(self, av, path=""):
        seen = {}
        todo = [(a, path) for a in av]
        while todo:
            a, pth = todo.pop(0)
            if a[0] == "b":
                todo.extend((x, pth) for x in a[2])
                continue
            if a[0] == "f" and a[1].env is not None:
                a = ("o", a[1].env)
                pth = pth + "<closure>"
            if a[0] == "vars":
                a = ("o", a[1])
            if a[0] != "o" or a[1] in seen:
                continue
            seen[a[1]] = pth
            if self.meta[a[1]].cls == "modenv":
                continue
            for f in self.fields[a[1]]:
                v = self.heap.get((a[1], f))
                if v:
                    fp = "%s.%s" % (pth, f) if isinstance(f, str) else "%s[%s]" % (pth, f)
                    todo.extend((x, fp) for x in v)
        return seen

    def freeze(self, av, label, only=None, skip=()):
        r = self.reach(av)
        for oid, pth in r.items():
            if self.meta[oid].cls in ("env", "modenv"):
                continue
            if oid in self.frozen and self.frozen[oid][0] != label:
                continue
            if oid in skip:
                continue
            self.frozen[oid] = (label, pth)
        return set(r)

    def freeze_globals(self):
        for name, env in self.modenv.items():
            self.frozen[env] = ("GLOBAL", name)
            for f in list(self.fields[env]):
                v = self.heap.get((env, f), E)
                self.freeze(frozenset(a for a in v if a[0] == "o"), "GLOBAL")
        for ci in self.classes.values():
            for n, v in ci.attrs.items():
                self.freeze(frozenset(a for a in v if a[0] == "o"), "GLOBAL")
        for fv in self.fvs.values():
            for d in list(fv.defaults) + list(fv.kwdefaults.values()):
                self.freeze(d, "GLOBAL")

    def write(self, oid, field, av, node, weak=False):
        """All stores to abstract objects go through here."""
        old = self.heap.get((oid, field), MISSING)
        new = av
        if weak:
            new = (old if old is not MISSING else frozenset([UNDEF])) | av
        if oid in self.frozen:
            if old is MISSING or not (av <= old and len(av) == 1 and len(old) == 1):
                self.mutated(oid, field, node, av)
        m = self.meta[oid]
        if type(m.tag) is tuple and m.tag[0] == "est" and field in m.tag[1]:
            self.event("rebind", m.cls, "", field, node)
        self.hset(oid, field, new)
        if m.tag.__class__ is tuple and not weak and isinstance(field, str) \
                and (oid, "#stale:" + field) in self.heap:
            self.hset(oid, "#stale:" + field, AV_FALSE)

    SLICERS = ("iloc", "loc", "iat", "at", "virtual_columns")

    def mutated(self, oid, field, node, av=None):
        if oid not in self.frozen or self.suppress:
            return
        m = self.meta[oid]
        if field in self.SLICERS and m.ci is not None and av:
            # rebinding of the accessor caches to accessors of the same object
            ok = True
            for a in av:
                if a[0] == "o" and self.meta[a[1]].ci is not None:
                    back = self.heap.get((a[1], "obj")) or self.heap.get((a[1], "triangle"))
                    if back != frozenset([("o", oid)]):
                        ok = False
                else:
                    ok = False
            if ok:
                return
        label, path = self.frozen[oid]
        if label == "GLOBAL" and not self.initdone:
            return
        self.event("mutate", label, path, field, node)

    # ------------------------------------------------------------- modules
    def load_module(self, name):
        st = self.modstate.get(name)
        if st:
            return self.modenv[name]
        if "." in name:
            self.load_module(name.rsplit(".", 1)[0])
        st = self.modstate.get(name)
        if st:
            return self.modenv[name]
        m = self.p.modules[name]
        env = self.alloc("modenv", None, None)
        self.modenv[name] = env
        self.modstate[name] = "running"
        self.heap[(env, "__name__")] = C(name)
        fr = Frame(None, env, m, len(self.trail), len(self.meta))
        self.stack.append(fr)
        saved = self.trys
        self.trys = []
        try:
            self.exec_block(m.tree.body)
        finally:
            self.stack.pop()
            self.trys = saved
        if "." in name:
            par, leaf = name.rsplit(".", 1)
            if par in self.modenv and (self.modenv[par], leaf) not in self.heap:
                self.hset(self.modenv[par], leaf, frozenset([("m", name)]))
        self.modstate[name] = "done"
        return env

    def import_name(self, dotted):
        """AV for `import dotted` target."""
        if dotted in self.p.modules:
            self.load_module(dotted)
            return frozenset([("m", dotted)])
        if dotted.split(".")[0] == PKG:
            raise Dead()
        return frozenset([("x", dotted)])

    def import_from(self, base, name):
        if base in self.p.modules:
            self.load_module(base)
            env = self.modenv[base]
            v = self.heap.get((env, name), MISSING)
            if v is not MISSING:
                return v - {UNDEF}
            sub = base + "." + name
            if sub in self.p.modules:
                self.load_module(sub)
                return frozenset([("m", sub)])
            return AV_T
        if base.split(".")[0] == PKG:
            return AV_T
        return frozenset([("x", ext.canon(base + "." + name))])

    # --------------------------------------------------------------- scopes
    def lookup(self, name, node):
        fr = self.stack[-1]
        env = fr.env
        while env is not None:
            v = self.heap.get((env, name), MISSING)
            if v is not MISSING:
                r = v - {UNDEF}
                if r:
                    return r
                if self.meta[env].cls != "modenv":
                    # definitely unbound local
                    raise Dead()
            p = self.heap.get((env, "#parent"), MISSING)
            if p is MISSING:
                break
            env = next(iter(p))[1]
        # the module env is the end of the chain
        if name in BUILTINS:
            return frozenset([("x", "builtins." + name)])
        if name == "__class__":
            return AV_T
        # comes from `import *` of a partially loaded module, or undefined
        return AV_T

    def env_of_local(self, name):
        """env object in which an assignment to `name` in the current frame lands."""
        fr = self.stack[-1]
        fi = fr.fi
        env = fr.env
        if fi is not None and (name in fi.nonlocals or name in fi.globals_):
            while env is not None:
                p = self.heap.get((env, "#parent"), MISSING)
                if p is MISSING:
                    return env
                env = next(iter(p))[1]
                if name in fi.nonlocals and (env, name) in self.heap:
                    return env
        # comprehension scopes write through for walrus only (rare): use own env
        return env

    def bind(self, name, av, node=None):
        env = self.env_of_local(name)
        if self.meta[env].cls == "modenv" and self.initdone and env in self.frozen:
            self.event("mutate", "GLOBAL", self.frozen[env][1], name, node)
        self.hset(env, name, av)

    # ----------------------------------------------------------- statements
    def exec_block(self, stmts):
        for st in stmts:
            try:
                if not self.exec_stmt(st):
                    return False
            except Dead:
                return False
        return True

    def exec_stmt(self, st):
        self.steps += 1
        if self.steps > self.budget:
            raise Budget()
        fr = self.stack[-1]
        fr.node = st
        self.visited_stmts.add(st)
        return getattr(self, "s_" + type(st).__name__, self.s_other)(st)

    def visited_positions(self):
        files = {}
        for f in self.visited_fns:
            for n in ast.walk(f.node):
                files[n] = f.module.rel
        return {(files.get(n, "?"), n.lineno, n.col_offset) for n in self.visited_stmts}

    def s_other(self, st):
        return True

    def s_Pass(self, st):
        return True

    def s_Global(self, st):
        return True

    s_Nonlocal = s_Global

    def s_Expr(self, st):
        if isinstance(st.value, ast.Constant):
            return True
        self.eval(st.value)
        return True

    def s_Assign(self, st):
        v = self.eval(st.value)
        for t in st.targets:
            self.assign(t, v, st)
        return True

    def s_AnnAssign(self, st):
        if st.value is not None:
            self.assign(st.target, self.eval(st.value), st)
        return True

    def s_AugAssign(self, st):
        t = st.target
        if isinstance(t, ast.Name):
            cur = self.lookup(t.id, t)
        elif isinstance(t, ast.Attribute):
            base = self.eval(t.value)
            cur = self.load_attr(base, t.attr, t)
        else:
            base = self.eval(t.value)
            idx = self.eval(t.slice)
            cur = self.load_item(base, idx, t.slice, t)
        rhs = self.eval(st.value)
        res = E
        mutated = E
        rest = []
        for a in cur:
            if a[0] == "o" and self.meta[a[1]].cls in ("ext", "list", "set", "dict"):
                mutated |= {a}
            else:
                rest.append(a)
        for a in mutated:
            cls = self.meta[a[1]].cls
            if cls == "ext" and self.meta[a[1]].tag in ext.IMMUTABLE_TAGS:
                rest.append(a)
                continue
            self.mutated(a[1], "[]", st)
            if cls == "list":
                self.list_extend(a[1], rhs, st)
            res |= {a}
        if rest:
            res |= self.binop(type(st.op).__name__, frozenset(rest), rhs, st)
        if isinstance(t, ast.Name):
            self.bind(t.id, res, st)
        elif isinstance(t, ast.Attribute):
            self.store_attr(base, t.attr, res, st)
        else:
            # in-place store into the container element
            self.store_item(base, idx, res, st, aug=True)
        return True

    def s_Delete(self, st):
        for t in st.targets:
            if isinstance(t, ast.Attribute):
                base = self.eval(t.value)
                objs = [a for a in base if a[0] == "o"]
                for a in objs:
                    if a[1] in self.frozen:
                        old = self.heap.get((a[1], t.attr), MISSING)
                        if old is not MISSING and old != frozenset([UNDEF]):
                            self.mutated(a[1], t.attr, st)
                    if len(objs) == 1:
                        old = self.heap.get((a[1], t.attr), MISSING)
                        if old is MISSING or old == frozenset([UNDEF]):
                            if self.meta[a[1]].ci is not None:
                                self.event("del-missing", self.meta[a[1]].cls, "", t.attr, st)
                                self.note_raise()
                                raise Dead()
                        self.hset(a[1], t.attr, frozenset([UNDEF]))
                        if (a[1], "#stale:" + t.attr) in self.heap:
                            self.hset(a[1], "#stale:" + t.attr, AV_FALSE)
                    else:
                        old = self.heap.get((a[1], t.attr), MISSING)
                        if old is not MISSING:
                            self.hset(a[1], t.attr, old | {UNDEF})
            elif isinstance(t, ast.Subscript):
                base = self.eval(t.value)
                idx = self.eval(t.slice)
                for a in base:
                    if a[0] == "o":
                        self.mutated(a[1], "[]", st)
                        if self.meta[a[1]].cls == "dict":
                            k = self.single_const(idx)
                            if k is not None:
                                self.hset(a[1], ("k", k), frozenset([UNDEF]))
                        elif self.meta[a[1]].cls == "list":
                            self.list_blur(a[1])
            elif isinstance(t, ast.Name):
                self.bind(t.id, frozenset([UNDEF]), st)
        return True

    def s_Return(self, st):
        v = self.eval(st.value) if st.value is not None else AV_NONE
        fr = self.stack[-1]
        if fr.depth == 0:
            fr.final = True
            fr.final_av = v
        else:
            fr.returns.append((v, self.delta_since(fr.mark)))
        return False

    def s_Raise(self, st):
        if st.exc is not None:
            self.eval(st.exc)
        self.note_raise()
        return False

    def note_raise(self):
        if self.trys:
            tr = self.trys[-1]
            tr["raises"].append(self.delta_since(tr["mark"]))

    def s_Assert(self, st):
        t = self.test(st.test)
        if False in t:
            if True not in t:
                self.note_raise()
                return False
        self.assume(st.test, True)
        return True

    def s_If(self, st):
        t = self.test(st.test)
        thunks = []
        if True in t:
            def th():
                self.assume(st.test, True)
                return self.exec_block(st.body)
            thunks.append(th)
        if False in t:
            def el():
                self.assume(st.test, False)
                return self.exec_block(st.orelse)
            thunks.append(el)
        if not thunks:
            return False
        if len(thunks) == 1:
            return thunks[0]()
        return self.alts(thunks)

    def s_While(self, st):
        return self.loop(st, None)

    def s_For(self, st):
        it = self.eval(st.iter)
        return self.loop(st, it)

    s_AsyncFor = s_For

    def loop(self, st, it):
        fr = self.stack[-1]
        exact = None
        elem = None
        if it is not None:
            exact = self.exact_elems(it)
            if exact is not None and len(exact) > 24:
                exact = None
            if exact is None:
                elem = self.iter_elems(it, st)
        mark, serial = len(self.trail), len(self.meta)
        rec = {"mark": mark, "breaks": [], "conts": None}
        fr.loops.append(rec)
        fr.depth += 1
        alive = True
        try:
            if exact is not None:
                for e in exact:
                    alive = self.iteration(st, rec, e)
                    if not alive:
                        break
            else:
                k = 0
                zero_possible = True
                if it is not None and not elem:
                    k = 2           # nothing to iterate over
                while k < 2:
                    k += 1
                    if it is None:
                        t = self.test(st.test)
                        if True not in t:
                            break
                        zero_possible = False in t
                    m2, s2 = len(self.trail), len(self.meta)
                    outs = []
                    if zero_possible or k > 1:
                        outs.append({})
                    if it is None:
                        self.assume(st.test, True)
                    if self.iteration(st, rec, elem):
                        outs.append(self.delta_since(m2))
                    self.undo(m2)
                    if not outs:
                        alive = False
                        break
                    self.apply(self.join(outs, s2)[0])
                if alive and it is None:
                    t = self.test(st.test)
                    if False not in t and not rec["breaks"]:
                        # `while True` without break: no normal exit
                        alive = True if not isinstance(st.test, ast.Constant) else False
                    elif isinstance(st.test, ast.Constant) and False not in t:
                        alive = False
                    if alive:
                        self.assume(st.test, False)
            if alive and st.orelse:
                alive = self.exec_block(st.orelse)
        finally:
            fr.loops.pop()
            fr.depth -= 1
        outs = list(rec["breaks"])
        if outs:
            if alive:
                outs.append(self.delta_since(mark))
            self.undo(mark)
            self.apply(self.join(outs, serial)[0])
            return True
        return alive

    def iteration(self, st, rec, elem):
        mark, serial = len(self.trail), len(self.meta)
        rec["conts"] = []
        rec["cmark"] = mark
        try:
            if elem is not None:
                self.assign(st.target, elem, st)
            falls = self.exec_block(st.body)
        except Dead:
            falls = False
        conts = rec["conts"]
        if conts:
            outs = list(conts)
            if falls:
                outs.append(self.delta_since(mark))
            self.undo(mark)
            self.apply(self.join(outs, serial)[0])
            return True
        return falls

    def s_Break(self, st):
        rec = self.stack[-1].loops[-1]
        rec["breaks"].append(self.delta_since(rec["mark"]))
        return False

    def s_Continue(self, st):
        rec = self.stack[-1].loops[-1]
        rec["conts"].append(self.delta_since(rec["cmark"]))
        return False

    def s_With(self, st):
        n = len(self.ctx)
        try:
            return self.with_body(st)
        finally:
            del self.ctx[n:]

    def with_body(self, st):
        for item in st.items:
            v = self.eval(item.context_expr)
            ce = item.context_expr
            if isinstance(ce, ast.Call):
                f = ce.func
                nm = f.attr if isinstance(f, ast.Attribute) else getattr(f, "id", "?")
                if nm in ext.RESTORING:
                    self.ctx.append(nm)
            if item.optional_vars is not None:
                res = E
                for a in v:
                    if a[0] == "o" and self.meta[a[1]].ci is not None:
                        res |= frozenset([a])
                    else:
                        res |= frozenset([a])
                self.assign(item.optional_vars, res or AV_T, st)
        return self.exec_block(st.body)

    s_AsyncWith = s_With

    def s_Try(self, st):
        fr = self.stack[-1]
        mark, serial = len(self.trail), len(self.meta)
        rec = {"mark": mark, "raises": []}
        self.trys.append(rec)
        fr.depth += 1
        try:
            falls = self.exec_block(st.body)
            body_delta = self.delta_since(mark)
        finally:
            self.trys.pop()
            fr.depth -= 1
        self.undo(mark)
        outs = []
        entry = [{}] + rec["raises"] + ([body_delta] if falls else [])
        fr.depth += 1
        try:
            if falls:
                self.apply(body_delta)
                ok = self.exec_block(st.orelse) if st.orelse else True
                if ok:
                    outs.append(self.delta_since(mark))
                self.undo(mark)
            can_raise = bool(rec["raises"]) or not falls or ext.may_raise(st.body)
            if can_raise:
                for h in st.handlers:
                    self.apply(self.join(entry, serial)[0])
                    if h.name:
                        self.bind(h.name, AV_T, h)
                    if h.type is not None:
                        self.eval(h.type)
                    if self.exec_block(h.body):
                        outs.append(self.delta_since(mark))
                    self.undo(mark)
            if not st.handlers and st.finalbody:
                pass
        finally:
            fr.depth -= 1
        if not outs:
            if st.finalbody:
                # effects of the finally block on the exceptional path
                self.apply(self.join(entry, serial)[0])
                self.exec_block(st.finalbody)
                self.undo(mark)
            return False
        self.apply(self.join(outs, serial)[0])
        if st.finalbody:
            return self.exec_block(st.finalbody)
        return True

    s_TryStar = s_Try

    def s_Import(self, st):
        for al in st.names:
            av = self.import_name(al.name)
            if al.asname:
                self.bind(al.asname, av, st)
            else:
                root = al.name.split(".")[0]
                self.bind(root, self.import_name(root), st)
        return True

    def s_ImportFrom(self, st):
        base = st.module or ""
        fr = self.stack[-1]
        if st.level:
            pk = fr.module.name if fr.module.is_pkg else fr.module.name.rsplit(".", 1)[0]
            for _ in range(st.level - 1):
                pk = pk.rsplit(".", 1)[0]
            base = pk + ("." + base if base else "")
        for al in st.names:
            if al.name == "*":
                if base in self.p.modules:
                    self.load_module(base)
                    env = self.modenv[base]
                    names = None
                    allv = self.heap.get((env, "__all__"))
                    if allv:
                        ex = self.exact_elems(allv)
                        if ex is not None:
                            names = [self.single_const(x) for x in ex]
                    for f in list(self.fields[env]):
                        if isinstance(f, str) and (f in names if names is not None
                                                   else not f.startswith("_")):
                            v = self.heap.get((env, f), MISSING)
                            if v is not MISSING:
                                self.bind(f, v, st)
                continue
            self.bind(al.asname or al.name, self.import_from(base, al.name), st)
        return True

    def make_func(self, node, name=None):
        fr = self.stack[-1]
        outer = fr.fi
        qual = (outer.qual + ".<locals>." if outer is not None else "") + (
            name or getattr(node, "name", "<lambda>"))
        fi = self.p.function_for(node, fr.module, None, qual, name)
        env = fr.env
        key = (fi.uid, env)
        fv = self.fvs.get(key)
        a = node.args
        defaults = [self.eval(d) for d in a.defaults]
        kwd = {k.arg: self.eval(d) for k, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None}
        if fv is None:
            fv = FuncVal(fi, env, defaults, kwd)
            self.fvs[key] = fv
        else:
            fv.defaults, fv.kwdefaults = defaults, kwd
        return fv

    def s_FunctionDef(self, st):
        fv = self.make_func(st)
        av = frozenset([("f", fv)])
        for d in reversed(st.decorator_list):
            av = self.decorate(d, av, fv)
        self.bind(st.name, av, st)
        return True

    s_AsyncFunctionDef = s_FunctionDef

    def decorate(self, d, av, fv):
        if self.text(d).split("(")[0].split(".")[-1] in ("lru_cache", "cache", "memoize"):
            fv.fi.cached = True
        try:
            dv = self.eval(d)
        except Dead:
            return av
        fs = [a for a in dv if a[0] == "f"]
        if fs:
            try:
                r = self.call(dv, [av], {}, d)
                fr = frozenset(a for a in r if a[0] in ("f", "b"))
                if fr:
                    return fr
            except Dead:
                pass
        return av

    def s_ClassDef(self, st):
        fr = self.stack[-1]
        ci = ClassInfo(st.name, st, fr.module)
        if fr.fi is not None:
            ci.qual = fr.fi.qual + ".<locals>." + st.name
        self.classes[(fr.module.name, ci.qual)] = ci
        self.cls_by_name[ci.name] = ci
        for b in st.bases:
            try:
                bv = self.eval(b)
            except Dead:
                bv = E
            got = False
            for a in bv:
                if a[0] == "k":
                    ci.bases.append(a[1])
                    got = True
                elif a[0] == "x":
                    ci.bases.append(a[1])
                    got = True
            if not got:
                ci.bases.append("unknown." + self.text(b))
        env = self.alloc("env", None, st)
        self.hset(env, "#parent", frozenset([("o", fr.env)]))
        for s in st.body:
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                fi = self.p.function_for(s, fr.module, ci, ci.qual + "." + s.name)
                fi.cls = ci
                key = (fi.uid, fr.env)
                a = s.args
                fv = FuncVal(fi, fr.env, [self.eval(d) for d in a.defaults],
                             {k.arg: self.eval(d) for k, d in
                              zip(a.kwonlyargs, a.kw_defaults) if d is not None}, ci)
                self.fvs[key] = fv
                kind = "method"
                for d in s.decorator_list:
                    if isinstance(d, ast.Name) and d.id in ("property", "staticmethod",
                                                            "classmethod"):
                        kind = d.id
                    elif isinstance(d, ast.Attribute) and d.attr in ("setter", "deleter",
                                                                     "getter"):
                        kind = d.attr
                    elif self.text(d).split("(")[0].split(".")[-1] in ("cached_property",):
                        kind = "cached"
                if kind in ("property", "cached"):
                    ci.props[s.name] = {"get": fv, "set": None, "cached": kind == "cached"}
                elif kind == "setter":
                    ci.props.setdefault(s.name, {"get": None, "set": None})
                    ci.props[s.name] = dict(ci.props[s.name], set=fv)
                elif kind == "deleter":
                    pass
                else:
                    fi.kind = {"staticmethod": "static", "classmethod": "class"}.get(kind, "method")
                    av = frozenset([("f", fv)])
                    for d in reversed(s.decorator_list):
                        if kind == "method":
                            av = self.decorate(d, av, fv)
                    w = [x[1] for x in av if x[0] == "f"]
                    ci.methods[s.name] = w[0] if w else fv
                    if w and w[0] is not fv:
                        ci.methods[s.name] = w[0]
            elif isinstance(s, ast.Assign):
                v = self.eval_safe(s.value)
                for t in s.targets:
                    if isinstance(t, ast.Name):
                        # property(...) assignment and method aliases
                        ci.attrs[t.id] = v
                        if isinstance(s.value, ast.Name) and s.value.id in ci.methods:
                            ci.methods[t.id] = ci.methods[s.value.id]
                            ci.attrs.pop(t.id)
            elif isinstance(s, ast.AnnAssign) and s.value is not None and isinstance(
                    s.target, ast.Name):
                ci.attrs[s.target.id] = self.eval_safe(s.value)
            elif isinstance(s, (ast.If, ast.Try, ast.For)):
                pass
        self.bind(st.name, frozenset([("k", ci)]), st)
        return True

    def eval_safe(self, e):
        try:
            return self.eval(e)
        except Dead:
            return AV_T

    # ----------------------------------------------------------- assignment
    def assign(self, t, v, st):
        if isinstance(t, ast.Name):
            self.bind(t.id, v, st)
        elif isinstance(t, ast.Attribute):
            base = self.eval(t.value)
            self.store_attr(base, t.attr, v, st)
        elif isinstance(t, ast.Subscript):
            base = self.eval(t.value)
            idx = self.eval(t.slice)
            self.store_item(base, idx, v, st)
        elif isinstance(t, (ast.Tuple, ast.List)):
            n = len(t.elts)
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            parts = [E] * n
            for a in v:
                ex = self.exact_elems(frozenset([a]))
                if ex is not None and not star and len(ex) == n:
                    for i in range(n):
                        parts[i] |= ex[i]
                elif ex is not None and star and len(ex) >= n - 1:
                    s = star[0]
                    after = n - 1 - s
                    for i in range(s):
                        parts[i] |= ex[i]
                    mid = ex[s:len(ex) - after]
                    parts[s] |= self.new_seq("list", mid, st)
                    for i in range(after):
                        parts[s + 1 + i] |= ex[len(ex) - after + i]
                else:
                    el = self.iter_elems(frozenset([a]), st) or AV_T
                    if a[0] == "o" and self.meta[a[1]].cls == "ext" and \
                            ext.is_view_tag(self.meta[a[1]].tag):
                        el = el | {a}
                    for i in range(n):
                        if i in star:
                            parts[i] |= self.new_seq("list", None, st, el)
                        else:
                            parts[i] |= el
            for e, pv in zip(t.elts, parts):
                self.assign(e.value if isinstance(e, ast.Starred) else e, pv or AV_T, st)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, st)

    # ---------------------------------------------------------- expressions
    def eval(self, e):
        v = getattr(self, "e_" + type(e).__name__, self.e_other)(e)
        if self.obs is not None and type(e) not in (ast.Constant, ast.Name) and not self.suppress:
            self.observe(e, v)
        return v

    def observe(self, e, v):
        fr = self.stack[-1]
        if fr.fi is None:
            return
        o = self.obs.get(e)
        if o is None:
            o = self.obs[e] = (fr.module.rel, fr.fi.qual, set())
        for a in v:
            o[2].add(a if a[0] == "c" else "?")

    def e_other(self, e):
        for c in ast.iter_child_nodes(e):
            if isinstance(c, ast.expr):
                self.eval(c)
        return AV_T

    def e_Constant(self, e):
        if e.value is Ellipsis:
            return frozenset([("c", "ellipsis", None)])
        if isinstance(e.value, (bytes, complex)):
            return AV_T
        return frozenset([const(e.value)])

    def e_Name(self, e):
        return self.lookup(e.id, e)

    def e_NamedExpr(self, e):
        v = self.eval(e.value)
        self.bind(e.target.id, v, e)
        return v

    def e_Starred(self, e):
        return self.eval(e.value)

    def e_Attribute(self, e):
        return self.load_attr(self.eval(e.value), e.attr, e)

    def e_Subscript(self, e):
        base = self.eval(e.value)
        idx = self.eval(e.slice)
        return self.load_item(base, idx, e.slice, e)

    def e_Slice(self, e):
        parts = []
        for x in (e.lower, e.upper, e.step):
            parts.append(self.eval(x) if x is not None else AV_NONE)
        cs = []
        for pv in parts:
            k = self.single_const(pv, MISSING)
            cs.append(k)
        if all(c is not MISSING and (c is None or isinstance(c, int)) for c in cs):
            return frozenset([("c", "slice", tuple(cs))])
        return frozenset([("t", "slice")])

    def e_Tuple(self, e):
        return self.build_seq("tuple", e)

    def e_List(self, e):
        return self.build_seq("list", e)

    def e_Set(self, e):
        return self.build_seq("set", e)

    def build_seq(self, kind, e):
        items = []
        gen = None
        for x in e.elts:
            if isinstance(x, ast.Starred):
                v = self.eval(x.value)
                ex = self.exact_elems(v)
                if ex is not None:
                    items.extend(ex)
                else:
                    gen = (gen or E) | self.iter_elems(v, e)
            else:
                items.append(self.eval(x))
        if gen is not None:
            for i in items:
                gen |= i
            return self.new_seq(kind, None, e, gen)
        return self.new_seq(kind, items, e)

    def new_seq(self, kind, items, node, elem=E):
        oid = self.alloc(kind, None, node)
        if items is not None and len(items) <= 40:
            self.hset(oid, "#n", C(len(items)))
            for i, v in enumerate(items):
                self.hset(oid, i, v)
        else:
            acc = elem
            for v in items or ():
                acc |= v
            self.hset(oid, "[]", acc)
        return frozenset([("o", oid)])

    def e_Dict(self, e):
        oid = self.alloc("dict", None, e)
        exact = True
        for k, v in zip(e.keys, e.values):
            vv = self.eval(v)
            if k is None:
                for a in vv:
                    if a[0] == "o" and self.meta[a[1]].cls == "dict":
                        if not self.dict_copy(a[1], oid):
                            exact = False
                    else:
                        exact = False
                        self.dict_unknown(oid, AV_T, AV_T)
                continue
            kv = self.eval(k)
            kc = self.single_const(kv, MISSING)
            if kc is MISSING or not exact_key(kc):
                exact = False
                self.dict_unknown(oid, kv, vv)
            else:
                self.hset(oid, ("k", kc), vv)
        if exact:
            self.hset(oid, "#n", AV_TRUE)
        return frozenset([("o", oid)])

    def dict_unknown(self, oid, kv, vv):
        self.hset(oid, "[]", (self.heap.get((oid, "[]")) or E) | vv)
        self.hset(oid, "[k]", (self.heap.get((oid, "[k]")) or E) | kv)
        if (oid, "#n") in self.heap:
            self.hset(oid, "#n", AV_FALSE)

    def dict_copy(self, src, dst):
        exact = True
        for f in list(self.fields[src]):
            v = self.heap.get((src, f), MISSING)
            if v is MISSING:
                continue
            if f == "#n":
                continue
            if isinstance(f, tuple):
                old = self.heap.get((dst, f), MISSING)
                if UNDEF in v and old is not MISSING:
                    v = v | old
                self.hset(dst, f, v)
            elif f in ("[]", "[k]"):
                self.hset(dst, f, (self.heap.get((dst, f)) or E) | v)
                exact = False
        if self.heap.get((src, "#n")) != AV_TRUE:
            exact = False
        return exact

    def dict_exact(self, oid):
        """list of (key const, AV) when the key set is exactly known."""
        if self.heap.get((oid, "#n")) != AV_TRUE:
            return None
        out = []
        for f in self.fields[oid]:
            if isinstance(f, tuple) and f[0] == "k":
                v = self.heap.get((oid, f), MISSING)
                if v is MISSING or v == frozenset([UNDEF]):
                    continue
                if UNDEF in v:
                    return None
                out.append((f[1], v))
        return out

    def dict_values(self, oid):
        acc = E
        for f in self.fields[oid]:
            if isinstance(f, tuple) or f == "[]":
                v = self.heap.get((oid, f), MISSING)
                if v is not MISSING:
                    acc |= v
        return acc - {UNDEF}

    def dict_keys(self, oid):
        acc = E
        for f in self.fields[oid]:
            if isinstance(f, tuple):
                v = self.heap.get((oid, f), MISSING)
                if v is not MISSING and v != frozenset([UNDEF]):
                    acc |= {const(f[1])}
            elif f == "[k]":
                acc |= self.heap.get((oid, f), E)
        return acc - {UNDEF}

    def dict_get(self, oid, idx, node, default=None):
        """AV of d[idx]; default AV when absent, None = KeyError (Dead)."""
        out = E
        miss = False
        ex = self.dict_exact(oid)
        gen = self.heap.get((oid, "[]")) or E
        for a in idx:
            if a[0] == "c" and exact_key(a[2]):
                v = self.heap.get((oid, ("k", a[2])), MISSING)
                if v is MISSING or v == frozenset([UNDEF]):
                    if ex is not None:
                        miss = True
                    else:
                        out |= gen
                        miss = True
                else:
                    if UNDEF in v:
                        miss = True
                    out |= (v - {UNDEF}) | gen
            else:
                out |= self.dict_values(oid)
                miss = True
        if default is not None:
            return out | default if miss else out
        if not out and ex is not None and miss:
            # definite KeyError
            self.note_raise()
            raise Dead()
        return out or AV_T

    # comprehension --------------------------------------------------------
    def e_ListComp(self, e):
        return self.comp("list", e)

    def e_SetComp(self, e):
        return self.comp("set", e)

    def e_GeneratorExp(self, e):
        return self.comp("list", e)

    def e_DictComp(self, e):
        return self.comp("dict", e)

    def comp(self, kind, e):
        fr = self.stack[-1]
        saved_env = fr.env
        env = self.alloc("env", None, e)
        self.heap[(env, "#parent")] = frozenset([("o", saved_env)])
        out = []          # list of AV (or (k, v)) when exact
        acc = {"gen": E, "genk": E, "exact": True}

        def emit():
            if kind == "dict":
                kv = self.eval(e.key)
                vv = self.eval(e.value)
                out.append((kv, vv))
            else:
                out.append(self.eval(e.elt))

        def run(i):
            if i == len(e.generators):
                emit()
                return
            g = e.generators[i]
            it = self.eval(g.iter)
            exact = self.exact_elems(it)
            if exact is not None and len(exact) <= 40:
                for el in exact:
                    try:
                        self.assign(g.target, el, e)
                        self.comp_ifs(g, i, run, acc)
                    except Dead:
                        # the element raises: the whole comprehension raises
                        raise
            else:
                acc["exact"] = False
                el = self.iter_elems(it, e)
                if not el:
                    return
                mark, serial = len(self.trail), len(self.meta)
                outs = [{}]
                fr.depth += 1
                try:
                    self.assign(g.target, el, e)
                    self.comp_ifs(g, i, run, acc)
                    outs.append(self.delta_since(mark))
                except Dead:
                    # an array of option values has one entry per origin or development period
                    if all(a[0] == "o" and (a[1], "#strs") in self.heap for a in it):
                        raise
                finally:
                    fr.depth -= 1
                self.undo(mark)
                self.apply(self.merge(outs, serial))

        fr.env = env
        try:
            run(0)
        finally:
            fr.env = saved_env
        if kind == "dict":
            oid = self.alloc("dict", None, e)
            exact = acc["exact"]
            for kv, vv in out:
                kc = self.single_const(kv, MISSING)
                if kc is MISSING or not exact_key(kc):
                    exact = False
                    self.dict_unknown(oid, kv, vv)
                else:
                    old = self.heap.get((oid, ("k", kc)))
                    self.hset(oid, ("k", kc), vv if exact else (old or E) | vv)
            if not acc["exact"]:
                self.hset(oid, "[]", (self.heap.get((oid, "[]")) or E))
            self.hset(oid, "#n", AV_TRUE if exact else AV_FALSE)
            return frozenset([("o", oid)])
        if acc["exact"]:
            return self.new_seq(kind, out, e)
        g = E
        for v in out:
            g |= v
        return self.new_seq(kind, None, e, g)

    def comp_ifs(self, g, i, run, acc):
        if not g.ifs:
            run(i + 1)
            return
        for c in g.ifs:
            t = self.test(c)
            if True not in t:
                return
            if False in t:
                acc["exact"] = False
        mark, serial = len(self.trail), len(self.meta)
        if acc["exact"]:
            run(i + 1)
        else:
            fr = self.stack[-1]
            outs = [{}]
            fr.depth += 1
            try:
                for c in g.ifs:
                    self.assume(c, True)
                run(i + 1)
                outs.append(self.delta_since(mark))
            except Dead:
                pass
            finally:
                fr.depth -= 1
            self.undo(mark)
            self.apply(self.merge(outs, serial))

    def e_Lambda(self, e):
        return frozenset([("f", self.make_func(e, "<lambda>"))])

    def e_IfExp(self, e):
        t = self.test(e.test)
        thunks = []
        if True in t:
            thunks.append(lambda: (self.assume(e.test, True), self.eval(e.body))[1])
        if False in t:
            thunks.append(lambda: (self.assume(e.test, False), self.eval(e.orelse))[1])
        if not thunks:
            raise Dead()
        return self.choose(thunks)

    def e_BoolOp(self, e):
        # value semantics of and/or
        is_and = isinstance(e.op, ast.And)

        def run(i):
            v = self.eval(e.values[i])
            if i == len(e.values) - 1:
                return v
            t = self.truth(v)
            thunks = []
            stop = (False in t) if is_and else (True in t)
            go = (True in t) if is_and else (False in t)
            if stop:
                def s():
                    self.assume(e.values[i], not is_and)
                    return self.filter_truth(v, not is_and)
                thunks.append(s)
            if go:
                def g():
                    self.assume(e.values[i], is_and)
                    return run(i + 1)
                thunks.append(g)
            if not thunks:
                raise Dead()
            return self.choose(thunks)
        return run(0)

    def filter_truth(self, v, val):
        out = frozenset(a for a in v if val in self.truth(frozenset([a])))
        return out

    def e_UnaryOp(self, e):
        if isinstance(e.op, ast.Not):
            t = self.test(e.operand)
            out = E
            if True in t:
                out |= AV_FALSE
            if False in t:
                out |= AV_TRUE
            return out
        v = self.eval(e.operand)
        out = E
        objs = E
        for a in v:
            if a[0] == "c" and a[1] in ("int", "float", "bool"):
                try:
                    r = {"USub": lambda x: -x, "UAdd": lambda x: +x,
                         "Invert": lambda x: ~x}[type(e.op).__name__](a[2])
                    out |= C(r)
                except Exception:
                    out |= AV_T
            elif a[0] == "o" and self.meta[a[1]].ci is not None:
                objs |= {a}
            elif a[0] == "o":
                out |= self.fresh_ext(e, self.meta[a[1]].tag)
            else:
                out |= {a} if a[0] == "t" else AV_T
        if objs:
            nm = {"USub": "__neg__", "UAdd": "__pos__", "Invert": "__invert__"}[
                type(e.op).__name__]
            out |= self.call_method(objs, nm, [], {}, e)
        return out

    def e_BinOp(self, e):
        a = self.eval(e.left)
        b = self.eval(e.right)
        return self.binop(type(e.op).__name__, a, b, e)

    OPS = {"Add": "add", "Sub": "sub", "Mult": "mul", "Div": "truediv", "Pow": "pow",
           "FloorDiv": "floordiv", "Mod": "mod", "MatMult": "matmul", "BitAnd": "and",
           "BitOr": "or", "BitXor": "xor", "LShift": "lshift", "RShift": "rshift"}

    def binop(self, op, a, b, node):
        out = E
        la = frozenset(x for x in a if x[0] == "o" and self.meta[x[1]].ci is not None)
        lb = frozenset(x for x in b if x[0] == "o" and self.meta[x[1]].ci is not None)
        ra, rb = a - la, b - lb
        thunks = []
        nm = self.OPS[op]
        if la:
            thunks.append(lambda: self.call_method(la, "__%s__" % nm, [b], {}, node))
        if lb and ra:
            thunks.append(lambda: self.call_method(lb, "__r%s__" % nm, [ra], {}, node))
        if ra and rb:
            thunks.append(lambda: self.binop_plain(op, ra, rb, node))
        if not thunks:
            return AV_T
        return self.choose(thunks)

    def binop_plain(self, op, a, b, node):
        out = E
        if len(a) * len(b) <= 16 and all(x[0] == "c" for x in a) and all(x[0] == "c" for x in b):
            for x in a:
                for y in b:
                    out |= fold_binop(op, x, y)
            return out
        scal = True
        tag = None
        for x in list(a) + list(b):
            if x[0] == "o":
                scal = False
        if scal:
            if all(x[0] == "c" and x[1] == "str" or x == TSTR for x in a) and op in ("Add", "Mod"):
                return AV_STR
            ints = ("int", "bool")
            if all((x[0] in "ct" and x[1] in ints) for x in a | b) and op in (
                    "Add", "Sub", "Mult", "FloorDiv", "Mod"):
                return AV_INT
            return AV_T
        # sequences
        sa = [x for x in a if x[0] == "o" and self.meta[x[1]].cls in CONTAINERS]
        sb = [x for x in b if x[0] == "o" and self.meta[x[1]].cls in CONTAINERS]
        res = E
        if sa and sb and op == "Add":
            for x in sa:
                for y in sb:
                    ex, ey = self.exact_elems(frozenset([x])), self.exact_elems(frozenset([y]))
                    k = self.meta[x[1]].cls
                    if ex is not None and ey is not None:
                        res |= self.new_seq(k, ex + ey, node)
                    else:
                        res |= self.new_seq(k, None, node,
                                            self.iter_elems(frozenset([x]), node)
                                            | self.iter_elems(frozenset([y]), node))
        elif sa and op in ("Mult",):
            for x in sa:
                ex = self.exact_elems(frozenset([x]))
                n = self.single_const(b, MISSING)
                if ex is not None and isinstance(n, int) and 0 <= n * len(ex) <= 24:
                    res |= self.new_seq(self.meta[x[1]].cls, ex * n, node)
                else:
                    res |= self.new_seq(self.meta[x[1]].cls, None, node,
                                        self.iter_elems(frozenset([x]), node))
        elif sb and op in ("Mult",) and not sa and not any(x[0] == "o" for x in a):
            return self.binop_plain(op, b, a, node)
        elif sa and op in ("Sub", "BitAnd", "BitOr", "BitXor"):
            acc = E
            for x in sa + sb:
                acc |= self.iter_elems(frozenset([x]), node)
            res |= self.new_seq("set", None, node, acc)
        ea = [x for x in list(a) + list(b) if x[0] == "o" and self.meta[x[1]].cls == "ext"]
        if ea:
            tags = {self.meta[x[1]].tag for x in ea}
            res |= self.fresh_ext(node, ext.binop_tag(tags))
        return res or AV_T

    def e_Compare(self, e):
        left = self.eval(e.left)
        out = None
        for op, c in zip(e.ops, e.comparators):
            right = self.eval(c)
            r = self.compare(type(op).__name__, left, right, e)
            out = r if out is None else self.and_av(out, r)
            left = right
        return out

    def and_av(self, a, b):
        ta, tb = self.truth(a), self.truth(b)
        out = E
        if False in ta or False in tb:
            out |= AV_FALSE
        if True in ta and True in tb:
            out |= AV_TRUE
        return out

    def compare(self, op, a, b, node):
        if op in ("Is", "IsNot"):
            r = self.identical(a, b)
            if op == "IsNot":
                r = {not x for x in r}
            return self.bools(r)
        if op in ("In", "NotIn"):
            r = self.contains(a, b, node)
            if op == "NotIn":
                r = {not x for x in r}
            return self.bools(r)
        la = frozenset(x for x in a if x[0] == "o" and self.meta[x[1]].ci is not None)
        lb = frozenset(x for x in b if x[0] == "o" and self.meta[x[1]].ci is not None)
        nm = {"Eq": "__eq__", "NotEq": "__ne__", "Lt": "__lt__", "LtE": "__le__",
              "Gt": "__gt__", "GtE": "__ge__"}[op]
        out = E
        thunks = []
        for u, v in ((la, b), (lb, a)):
            # an object with identity comparison never equals a constant
            if nm in ("__eq__", "__ne__") and u and v and all(x[0] == "c" for x in v) and \
                    (a, b)[u is lb] == u and not self.has_method(u, "__eq__") and \
                    not self.has_method(u, "__ne__"):
                return AV_TRUE if nm == "__ne__" else AV_FALSE
        if la:
            if nm == "__ne__" and not self.has_method(la, "__ne__"):
                thunks.append(lambda: AV_BOOL if not self.has_method(la, "__eq__") else
                              (self.call_method(la, "__eq__", [b], {}, node), AV_BOOL)[1])
            elif self.has_method(la, nm):
                thunks.append(lambda: self.call_method(la, nm, [b], {}, node))
            else:
                rn = {"__lt__": "__gt__", "__gt__": "__lt__", "__le__": "__ge__",
                      "__ge__": "__le__", "__eq__": "__eq__", "__ne__": "__ne__"}[nm]
                if lb and self.has_method(lb, rn):
                    thunks.append(lambda: self.call_method(lb, rn, [a], {}, node))
                else:
                    thunks.append(lambda: AV_BOOL)
        ra, rb = a - la, b - lb
        if lb and ra:
            rn = {"__lt__": "__gt__", "__gt__": "__lt__", "__le__": "__ge__",
                  "__ge__": "__le__", "__eq__": "__eq__", "__ne__": "__ne__"}[nm]
            if self.has_method(lb, rn):
                thunks.append(lambda: self.call_method(lb, rn, [ra], {}, node))
            else:
                thunks.append(lambda: AV_BOOL)
        if ra and rb:
            thunks.append(lambda: self.compare_plain(op, ra, rb, node))
        if not thunks:
            return AV_BOOL
        return self.choose(thunks)

    def compare_plain(self, op, a, b, node):
        if len(a) * len(b) <= 24:
            res = set()
            for x in a:
                for y in b:
                    res |= self.cmp_atoms(op, x, y)
            ea = [x for x in a | b if x[0] == "o" and self.meta[x[1]].cls == "ext"]
            if ea:
                tags = {self.meta[x[1]].tag for x in ea}
                out = self.fresh_ext(node, ext.cmp_tag(tags))
                if not all(x[0] == "o" and self.meta[x[1]].cls == "ext" for x in a) and \
                        not all(x[0] == "o" and self.meta[x[1]].cls == "ext" for x in b):
                    out |= self.bools(res)
                return out
            return self.bools(res)
        return AV_BOOL

    def cmp_atoms(self, op, x, y):
        if x[0] == "c" and y[0] == "c":
            u, v = x[2], y[2]
            if x[1] in ("slice", "ellipsis") or y[1] in ("slice", "ellipsis"):
                same = x[1] == y[1] and u == v
                if op == "Eq":
                    return {same}
                if op == "NotEq":
                    return {not same}
                return {True, False}
            try:
                return {bool({"Eq": lambda: u == v, "NotEq": lambda: u != v,
                              "Lt": lambda: u < v, "LtE": lambda: u <= v,
                              "Gt": lambda: u > v, "GtE": lambda: u >= v}[op]())}
            except Exception:
                return {True, False}
        kinds = {x[0], y[0]}
        if op in ("Eq", "NotEq") and kinds == {"o"} and self.meta[x[1]].cls in ("list", "tuple") \
                and self.meta[y[1]].cls in ("list", "tuple"):
            r = self.seq_equal(x, y)
            return r if op == "Eq" else {not z for z in r}
        if op in ("Eq", "NotEq"):
            if "k" in kinds or "x" in kinds:
                r = self.identical(frozenset([x]), frozenset([y]))
                return r if op == "Eq" else {not z for z in r}
            if x[0] in ("f", "b") and y[0] in ("f", "b"):
                return {True, False}
            # const vs container / function: never equal
            for p, q in ((x, y), (y, x)):
                if p[0] == "c" and q[0] in ("f", "b", "k"):
                    return {op == "NotEq"}
                if p[0] == "c" and q[0] == "o" and self.meta[q[1]].cls in CONTAINERS:
                    return {op == "NotEq"}
                if p == NONE and q[0] == "t" and q[1] is not None:
                    return {op == "NotEq"}
                if p[0] == "c" and p[1] == "str" and q[0] == "t" and q[1] in ("int", "bool",
                                                                               "slice"):
                    return {op == "NotEq"}
        return {True, False}

    def seq_equal(self, x, y):
        """May two lists/tuples be equal, may they differ?"""
        if self.meta[x[1]].cls != self.meta[y[1]].cls:
            return {False}
        ex, ey = self.exact_elems(frozenset([x])), self.exact_elems(frozenset([y]))
        if ex is None or ey is None:
            return {True, False}
        if len(ex) != len(ey):
            return {False}
        out = {True}
        for u, v in zip(ex, ey):
            r = set()
            for a in u:
                for b in v:
                    if "o" in (a[0], b[0]) and not (
                            a[0] == b[0] and self.meta[a[1]].cls in ("list", "tuple")
                            and self.meta[b[1]].cls in ("list", "tuple")):
                        r |= {True, False}
                    else:
                        r |= self.cmp_atoms("Eq", a, b)
            if r == {False}:
                return {False}
            out |= r
        return out

    def bools(self, r):
        out = E
        if True in r:
            out |= AV_TRUE
        if False in r:
            out |= AV_FALSE
        return out

    def identical(self, a, b):
        if not a or not b:
            return {True, False}
        res = set()
        for x in a:
            for y in b:
                if x[0] == "t" or y[0] == "t":
                    # unknown: type hints may still decide against None
                    if NONE in (x, y):
                        o = x if y == NONE else y
                        if o[1] is not None:
                            res.add(False)
                            continue
                    # a type object unknown vs class
                    res |= {True, False}
                elif x[0] == "c" and y[0] == "c":
                    res.add(x == y)
                elif x[0] != y[0]:
                    if {x[0], y[0]} == {"x", "k"} or "c" in (x[0], y[0]):
                        res.add(False)
                    elif {x[0], y[0]} == {"f", "b"}:
                        res |= {True, False}
                    else:
                        res.add(False)
                elif x == y:
                    res.add(True)
                    if x[0] == "o":
                        pass
                elif x[0] == "x" and ext.same_symbol(x[1], y[1]) is None:
                    res |= {True, False}
                else:
                    res.add(False)
        return res

    def contains(self, a, b, node):
        res = set()
        for y in b:
            if y[0] == "o":
                m = self.meta[y[1]]
                if m.cls in ("list", "tuple", "set"):
                    ex = self.exact_elems(frozenset([y]))
                    if ex is not None:
                        can_t = False
                        all_f = True
                        for x in a:
                            ht = False
                            hf = True
                            for el in ex:
                                r = set()
                                for z in el:
                                    r |= self.eq_atoms(x, z)
                                if r == {True}:
                                    ht = True
                                    hf = False
                                elif True in r:
                                    ht = True
                            if ht:
                                res.add(True)
                            if hf:
                                res.add(False)
                        if not ex:
                            res.add(False)
                    else:
                        res |= {True, False}
                elif m.cls == "dict":
                    ex = self.dict_exact(y[1])
                    if ex is not None and all(x[0] == "c" for x in a):
                        keys = [k for k, _ in ex]
                        for x in a:
                            res.add(any(const(k) == x for k in keys))
                    else:
                        res |= {True, False}
                elif m.ci is not None and self.has_method(frozenset([y]), "__contains__"):
                    # field-presence test (`"ldf_" in X`): decided on the field itself
                    fv = self.find_method(m.ci, "__contains__")
                    if ext.is_dict_presence(fv.fi.node) and all(
                            x[0] == "c" and x[1] == "str" for x in a):
                        for x in a:
                            v = self.heap.get((y[1], x[2]), MISSING)
                            if v is MISSING or v <= frozenset([UNDEF, NONE]):
                                res.add(False)
                            elif v & frozenset([UNDEF, NONE, T]):
                                res |= {True, False}
                            else:
                                res.add(True)
                    else:
                        r = self.call_method(frozenset([y]), "__contains__", [a], {}, node)
                        res |= self.truth(r)
                else:
                    res |= {True, False}
            elif y[0] == "c" and y[1] == "str" and all(x[0] == "c" and x[1] == "str" for x in a):
                for x in a:
                    res.add(x[2] in y[2])
            elif y[0] == "vars":
                if all(x[0] == "c" and x[1] == "str" for x in a):
                    for x in a:
                        v = self.heap.get((y[1], x[2]), MISSING)
                        if v is MISSING or v == frozenset([UNDEF]):
                            res.add(False)
                        elif UNDEF in v:
                            res |= {True, False}
                        else:
                            res.add(True)
                else:
                    res |= {True, False}
            else:
                res |= {True, False}
        return res or {True, False}

    def eq_atoms(self, x, z):
        if x[0] in ("k", "x") or z[0] in ("k", "x"):
            return self.identical(frozenset([x]), frozenset([z]))
        return self.cmp_atoms("Eq", x, z)

    def e_JoinedStr(self, e):
        for v in e.values:
            if isinstance(v, ast.FormattedValue):
                self.eval(v.value)
        return AV_STR

    def e_Await(self, e):
        return self.eval(e.value)

    def e_Yield(self, e):
        v = self.eval(e.value) if e.value is not None else AV_NONE
        fr = self.stack[-1]
        fr.yields = (fr.yields or E) | v
        return AV_T

    def e_YieldFrom(self, e):
        v = self.eval(e.value)
        fr = self.stack[-1]
        fr.yields = (fr.yields or E) | self.iter_elems(v, e)
        return AV_T

    # ---------------------------------------------------------------- tests
    def truth(self, v):
        res = set()
        for a in v:
            k = a[0]
            if k == "c":
                res.add(bool(a[2]) if a[1] not in ("ellipsis", "slice") else True)
            elif k == "o":
                m = self.meta[a[1]]
                if m.cls in ("list", "tuple", "set"):
                    n = self.heap.get((a[1], "#n"))
                    if n and len(n) == 1 and next(iter(n))[0] == "c":
                        res.add(bool(next(iter(n))[2]))
                    else:
                        res |= {True, False}
                elif m.cls == "dict":
                    ex = self.dict_exact(a[1])
                    if ex is not None:
                        res.add(bool(ex))
                    else:
                        res |= {True, False}
                elif m.ci is not None:
                    if self.find_method(m.ci, "__bool__"):
                        res |= {True, False}
                    else:
                        res.add(True)
                else:
                    res |= {True, False}
            elif k in ("f", "b", "k", "x", "m", "sup", "xm", "part"):
                res.add(True)
            elif k == "u":
                pass
            else:
                res |= {True, False}
        return res

    def test(self, e):
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return {not x for x in self.test(e.operand)}
        if isinstance(e, ast.BoolOp):
            is_and = isinstance(e.op, ast.And)
            res = set()

            def run(i):
                t = self.test(e.values[i])
                if i == len(e.values) - 1:
                    res.update(t)
                    return E
                stop = (not is_and) in t
                go = is_and in t
                thunks = []
                if stop:
                    def s():
                        res.add(not is_and)
                        return E
                    thunks.append(s)
                if go:
                    def g():
                        self.assume(e.values[i], is_and)
                        return run(i + 1)
                    thunks.append(g)
                if not thunks:
                    raise Dead()
                return self.choose(thunks)
            run(0)
            return res
        return self.truth(self.eval(e))

    CHEAP_CALLS = {"isinstance", "type", "callable", "hasattr", "len", "issubclass"}

    def cheap(self, e):
        for n in ast.walk(e):
            if isinstance(n, ast.Call):
                if not (isinstance(n.func, ast.Name) and n.func.id in self.CHEAP_CALLS):
                    return False
            elif isinstance(n, (ast.ListComp, ast.GeneratorExp, ast.DictComp, ast.SetComp,
                                ast.Lambda, ast.Subscript, ast.BinOp, ast.Await, ast.Yield,
                                ast.NamedExpr, ast.IfExp)):
                return False
        return True

    def refs(self, e):
        out = []
        for n in ast.walk(e):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
                out.append(("n", n.id))
            elif isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name):
                out.append(("a", n.value.id, n.attr))
        seen = []
        for r in out:
            if r not in seen:
                seen.append(r)
        return seen

    def assume(self, e, val):
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return self.assume(e.operand, not val)
        if isinstance(e, ast.BoolOp):
            is_and = isinstance(e.op, ast.And)
            if is_and == val:
                for v in e.values:
                    self.assume(v, val)
                return
        if isinstance(e, ast.NamedExpr):
            return
        # hasattr(x, "name") / "name" in x : refine the presence of the field
        pres = self.presence(e)
        if pres is not None:
            nm, attr, pol = pres
            want = val == pol
            av = self.peek(("n", nm))
            if av is not None:
                objs = [a for a in av if a[0] == "o"]
                if len(objs) == 1 and len(av) == 1:
                    v = self.heap.get((objs[0][1], attr), MISSING)
                    if v is not MISSING and UNDEF in v:
                        if want:
                            nv = v - {UNDEF}
                            if nv:
                                self.hset(objs[0][1], attr, nv)
                        elif not self.class_has(objs[0][1], attr):
                            self.hset(objs[0][1], attr, frozenset([UNDEF]))
                            if (objs[0][1], "#stale:" + attr) in self.heap:
                                self.hset(objs[0][1], "#stale:" + attr, AV_FALSE)
                    return
        if not self.cheap(e):
            return
        for r in self.refs(e):
            av = self.peek(r)
            if av is None or len(av) < 2 or len(av) > 12:
                continue
            keep = E
            self.suppress += 1
            mark = len(self.trail)
            try:
                for a in av:
                    self.poke(r, frozenset([a]))
                    try:
                        t = self.test(e)
                    except Dead:
                        t = set()
                    self.undo(mark)
                    if val in t:
                        keep |= {a}
            finally:
                self.undo(mark)
                self.suppress -= 1
            if keep and keep != av:
                self.poke(r, keep)

    def presence(self, e):
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == "hasattr" \
                and len(e.args) == 2 and isinstance(e.args[0], ast.Name) \
                and isinstance(e.args[1], ast.Constant):
            return e.args[0].id, e.args[1].value, True
        if isinstance(e, ast.Compare) and len(e.ops) == 1 and isinstance(
                e.ops[0], (ast.In, ast.NotIn)) and isinstance(e.left, ast.Constant) \
                and isinstance(e.left.value, str) and isinstance(e.comparators[0], ast.Name):
            av = self.peek(("n", e.comparators[0].id))
            if av and all(a[0] == "o" and self.meta[a[1]].ci is not None for a in av):
                return e.comparators[0].id, e.left.value, isinstance(e.ops[0], ast.In)
        return None

    def class_has(self, oid, name):
        ci = self.meta[oid].ci
        if ci is None:
            return False
        return self.class_lookup(ci, name) is not None

    def peek(self, r):
        try:
            if r[0] == "n":
                env = self.find_env(r[1])
                if env is None or self.meta[env].cls == "modenv":
                    return None
                return self.heap[(env, r[1])] - {UNDEF}
            env = self.find_env(r[1])
            if env is None:
                return None
            base = self.heap[(env, r[1])] - {UNDEF}
            if len(base) != 1:
                return None
            a = next(iter(base))
            if a[0] != "o" or self.meta[a[1]].ci is None:
                return None
            if self.find_prop(self.meta[a[1]].ci, r[2]):
                return None
            v = self.heap.get((a[1], r[2]), MISSING)
            if v is MISSING or UNDEF in v:
                return None
            return v
        except KeyError:
            return None

    def poke(self, r, av):
        env = self.find_env(r[1])
        if r[0] == "n":
            self.hset(env, r[1], av)
        else:
            a = next(iter(self.heap[(env, r[1])] - {UNDEF}))
            self.hset(a[1], r[2], av)

    def find_env(self, name):
        env = self.stack[-1].env
        while env is not None:
            if (env, name) in self.heap:
                return env
            p = self.heap.get((env, "#parent"), MISSING)
            if p is MISSING:
                return None
            env = next(iter(p))[1]

    # ------------------------------------------------------------ attributes
    def find_method(self, ci, name):
        for c in ci.mro():
            if isinstance(c, ClassInfo):
                if name in c.methods:
                    return c.methods[name]
                if name in c.attrs:
                    fs = [a for a in c.attrs[name] if a[0] == "f"]
                    if fs:
                        return fs[0][1]
        return None

    def find_prop(self, ci, name):
        for c in ci.mro():
            if isinstance(c, ClassInfo):
                if name in c.props:
                    return c.props[name]
                if name in c.methods or name in c.attrs:
                    return None
        return None

    def class_lookup(self, ci, name):
        for c in ci.mro():
            if isinstance(c, ClassInfo):
                if name in c.props:
                    return ("prop", c.props[name])
                if name in c.methods:
                    return ("method", c.methods[name])
                if name in c.attrs:
                    return ("attr", c.attrs[name])
        return None

    def has_method(self, av, name):
        return all(self.find_method(self.meta[a[1]].ci, name) is not None for a in av)

    def single_const(self, av, default=None):
        if len(av) == 1:
            a = next(iter(av))
            if a[0] == "c" and a[1] not in ("slice", "ellipsis"):
                return a[2]
        return default

    def load_attr(self, base, name, node, default=MISSING):
        out = E
        thunks = []
        groups = {}
        for a in base:
            k = a[0]
            if k == "o":
                m = self.meta[a[1]]
                if m.ci is not None:
                    if name == "__dict__":
                        out |= {("vars", a[1])}
                        continue
                    if name == "__class__":
                        out |= {("k", m.ci)}
                        continue
                    prop = self.find_prop(m.ci, name)
                    if prop is not None and self.pinned:
                        v = self.pinned.get((a[1], name), self.pinned.get((None, name)))
                        if v is not None:
                            out |= v
                            continue
                    if prop is not None:
                        if prop.get("cached"):
                            v = self.heap.get((a[1], name), MISSING)
                            if v is not MISSING and UNDEF not in v:
                                out |= v
                                continue
                            if prop["get"] is not None:
                                v = self.call_fv(prop["get"], [frozenset([a])], {}, node)
                                self.write(a[1], name, v, node)
                                out |= v
                            continue
                        if prop["get"] is not None:
                            groups.setdefault(prop["get"], E)
                            groups[prop["get"]] |= {a}
                        continue
                    v = self.heap.get((a[1], name), MISSING)
                    if v is not MISSING:
                        w = v - {UNDEF}
                        out |= w
                        if not self.suppress:
                            self.note_read(a[1], m, name, node)
                        if UNDEF not in v:
                            continue
                        # may be absent as an instance field
                        r = self.class_attr_av(m.ci, name, a)
                        if r is not None:
                            out |= r
                        elif default is not MISSING:
                            out |= default
                        elif not w:
                            ga = self.find_method(m.ci, "__getattr__")
                            if ga:
                                groups.setdefault(("ga", ga), E)
                                groups[("ga", ga)] |= {a}
                            else:
                                self.missing(m, a, name, node)
                        else:
                            self.note_maybe(m, a, name, node)
                        continue
                    r = self.class_attr_av(m.ci, name, a)
                    if r is not None:
                        out |= r
                        continue
                    if default is not MISSING:
                        out |= default
                        continue
                    ga = self.find_method(m.ci, "__getattr__")
                    if ga:
                        groups.setdefault(("ga", ga), E)
                        groups[("ga", ga)] |= {a}
                        continue
                    eb = [b for b in m.ci.ext_bases() if b != "builtins.object"]
                    if name.startswith("__") or ext.base_provides(eb, name):
                        out |= {("xm", name, frozenset([a]))}
                        continue
                    if (a[1], "*") in self.heap:
                        out |= self.heap[(a[1], "*")]
                        continue
                    self.missing(m, a, name, node)
                elif m.cls == "ext":
                    out |= self.ext_attr(a, name, node)
                elif m.cls in CONTAINERS:
                    out |= {("xm", name, frozenset([a]))}
                else:
                    out |= AV_T
            elif k == "k":
                r = self.class_static_av(a[1], name)
                if r is not None:
                    out |= r
                elif name == "__name__":
                    out |= C(a[1].name)
                elif name in ("__mro__", "__bases__", "__dict__", "__init__", "__new__"):
                    out |= frozenset([("xm", name, frozenset([a]))])
                elif default is not MISSING:
                    out |= default
                else:
                    out |= frozenset([("xm", name, frozenset([a]))])
            elif k == "m":
                v = self.heap.get((self.modenv[a[1]], name), MISSING)
                if v is not MISSING:
                    out |= v - {UNDEF}
                elif a[1] + "." + name in self.p.modules:
                    self.load_module(a[1] + "." + name)
                    out |= {("m", a[1] + "." + name)}
                elif name == "__dict__":
                    out |= {("vars", self.modenv[a[1]])}
                elif default is not MISSING:
                    out |= default
                else:
                    out |= AV_T
            elif k == "x":
                o = self.extattrs.get((a[1], name))
                if o is not None:
                    out |= o
                else:
                    out |= ext.symbol_attr(a[1], name)
            elif k == "sup":
                out |= self.super_attr(a, name, node)
            elif k == "t":
                out |= AV_T if a[1] not in ("str",) else AV_T
            elif k == "c":
                out |= {("xm", name, frozenset([a]))} if a[2] is not None else E
                if a == NONE and default is not MISSING:
                    out |= default
            elif k in ("f", "b"):
                fa = self.fattrs.get((a[1].fi.uid, a[1].env, name))
                if fa is not None:
                    out |= fa
                elif name == "__name__":
                    out |= C(a[1].fi.name)
                else:
                    out |= AV_T
            elif k == "xm":
                out |= AV_T
            else:
                out |= AV_T
        for g, objs in groups.items():
            if isinstance(g, tuple):
                thunks.append((g[1], objs, [C(name)]))
            else:
                thunks.append((g, objs, []))
        if thunks:
            acts = [lambda g=g, objs=objs, args=args: self.call_fv(g, [objs] + args, {}, node)
                    for g, objs, args in thunks]
            if out:
                acts.append(lambda: E)
            out |= self.choose(acts)
        if not out:
            self.note_raise()
            raise Dead()
        return out

    def note_read(self, oid, m, name, node, probe=False):
        if self.read_log is not None and m.ci is not None:
            self.read_log.add((m.ci.name, name))
        if self.read_hook is not None and not probe:
            self.read_hook(oid, name, node)
        if oid == self.watch:
            self.watched.setdefault(name, set()).add(self.site(node))
        if not probe and m.tag.__class__ is tuple \
                and AV_TRUE <= self.heap.get((oid, "#stale:" + name), E):
            self.event("stale-read", m.cls, "", name, node)

    def ext_attr(self, a, name, node):
        return ext.ext_attr(self, a, name, node)

    def missing(self, m, a, name, node):
        if any("memo" not in t for t in self.trys):
            return
        self.event("missing", m.cls, "", name, node, a[1])

    def note_maybe(self, m, a, name, node):
        if self.suppress:
            return
        k = (m.cls, name, self.site(node))
        if k not in self.maybe_missing:
            self.maybe_missing[k] = (self.callpath(), self.text(self.stack[-1].node)
                                     if self.stack and self.stack[-1].node else "")

    def class_attr_av(self, ci, name, selfatom):
        r = self.class_lookup(ci, name)
        if r is None:
            return None
        if r[0] == "method":
            fv = r[1]
            if fv.fi.kind == "static":
                return frozenset([("f", fv)])
            if fv.fi.kind == "class":
                return frozenset([("b", fv, frozenset([("k", ci)]))])
            return frozenset([("b", fv, frozenset([selfatom]))])
        if r[0] == "prop":
            return frozenset([T])
        out = E
        for x in r[1]:
            if x[0] == "f":
                fv = x[1]
                out |= {("b", fv, frozenset([selfatom]))}
            else:
                out |= {x}
        return out

    def class_static_av(self, ci, name):
        r = self.class_lookup(ci, name)
        if r is None:
            return None
        if r[0] == "method":
            fv = r[1]
            if fv.fi.kind == "class":
                return frozenset([("b", fv, frozenset([("k", ci)]))])
            return frozenset([("f", fv)])
        if r[0] == "prop":
            return frozenset([T])
        return r[1]

    def super_attr(self, a, name, node):
        _, cls, selfav = a
        out = E
        for s in selfav:
            if s[0] == "o" and self.meta[s[1]].ci is not None:
                mro = self.meta[s[1]].ci.mro()
            elif s[0] == "k":
                mro = s[1].mro()
            else:
                out |= AV_T
                continue
            try:
                i = mro.index(cls)
            except ValueError:
                i = -1
            found = False
            for c in mro[i + 1:]:
                if isinstance(c, ClassInfo):
                    if name in c.methods:
                        fv = c.methods[name]
                        if fv.fi.kind == "static":
                            out |= {("f", fv)}
                        elif fv.fi.kind == "class":
                            out |= {("b", fv, frozenset([s]))}
                        else:
                            out |= {("b", fv, frozenset([s]))}
                        found = True
                        break
                    if name in c.props:
                        out |= self.call_fv(c.props[name]["get"], [frozenset([s])], {}, node)
                        found = True
                        break
                    if name in c.attrs:
                        out |= c.attrs[name]
                        found = True
                        break
                elif ext.base_provides([c], name):
                    out |= {("xm", name, frozenset([s]))}
                    found = True
                    break
            if not found:
                out |= {("xm", name, frozenset([s]))}
        return out

    def store_attr(self, base, name, v, node):
        objs = [a for a in base if a[0] == "o"]
        for a in base:
            if a[0] == "o":
                m = self.meta[a[1]]
                if m.ci is not None:
                    prop = self.find_prop(m.ci, name)
                    if prop is not None:
                        if prop["set"] is not None:
                            self.call_fv(prop["set"], [frozenset([a]), v], {}, node)
                        else:
                            self.event("readonly", m.cls, "", name, node)
                            self.note_raise()
                            if len(base) == 1:
                                raise Dead()
                        continue
                    self.write(a[1], name, v, node, weak=len(objs) > 1)
                elif m.cls == "ext":
                    self.mutated(a[1], name, node)
                    if name not in ext.VIEW_ATTRS and any(
                            x[0] in "fb" or (x[0] == "o" and self.meta[x[1]].ci is not None)
                            for x in v):
                        self.hset(a[1], name, v | self.heap.get((a[1], name), E))
                else:
                    self.write(a[1], name, v, node, weak=len(objs) > 1)
            elif a[0] == "f":
                if self.initdone and a[1].env is not None \
                        and self.meta[a[1].env].cls == "modenv":
                    self.event("mutate", "GLOBAL", a[1].fi.qual, name, node)
                if not self.initdone:
                    self.fattrs[(a[1].fi.uid, a[1].env, name)] = v
            elif a[0] == "k":
                if self.initdone:
                    self.event("mutate", "GLOBAL", a[1].name, name, node)
                a[1].attrs[name] = v
            elif a[0] == "m":
                if self.initdone:
                    self.event("mutate", "GLOBAL", a[1], name, node)
                    continue
                self.hset(self.modenv[a[1]], name, v)
            elif a[0] == "x":
                if self.initdone:
                    self.event("mutate", "EXTERNAL", a[1], name, node)
                elif len(base) == 1:
                    self.extattrs[(a[1], name)] = v
                    self.event("patch", "EXTERNAL", a[1], name, node)
                else:
                    self.event("patch?", "EXTERNAL", a[1], name, node)

    # ------------------------------------------------------------ containers
    def exact_elems(self, av):
        if len(av) != 1:
            return None
        a = next(iter(av))
        if a[0] == "c" and a[1] == "str" and len(a[2]) <= 12:
            return [C(ch) for ch in a[2]]
        if a[0] != "o":
            return None
        m = self.meta[a[1]]
        if m.cls in ("list", "tuple", "set"):
            n = self.heap.get((a[1], "#n"))
            if n is None or len(n) != 1:
                return None
            k = next(iter(n))
            if k[0] != "c" or not isinstance(k[2], int):
                return None
            out = []
            for i in range(k[2]):
                v = self.heap.get((a[1], i), MISSING)
                if v is MISSING:
                    return None
                out.append(v - {UNDEF})
            return out
        if m.cls == "dict":
            ex = self.dict_exact(a[1])
            if ex is None:
                return None
            return [C(k) for k, _ in ex]
        return None

    def all_elems(self, oid):
        acc = E
        for f in self.fields[oid]:
            if isinstance(f, int) or f == "[]":
                v = self.heap.get((oid, f), MISSING)
                if v is not MISSING:
                    acc |= v
        return acc - {UNDEF}

    def list_blur(self, oid):
        acc = self.all_elems(oid)
        self.hset(oid, "[]", acc)
        self.hset(oid, "#n", AV_T)

    def list_extend(self, oid, av, node):
        acc = self.all_elems(oid) | self.iter_elems(av, node)
        self.hset(oid, "[]", acc)
        self.hset(oid, "#n", AV_T)

    def list_append(self, oid, av, node):
        ex = self.exact_elems(frozenset([("o", oid)]))
        if ex is not None and len(ex) < 24 and self.meta[oid].cls == "list":
            self.hset(oid, len(ex), av)
            self.hset(oid, "#n", C(len(ex) + 1))
        else:
            self.hset(oid, "[]", self.all_elems(oid) | av)
            self.hset(oid, "#n", AV_T)

    def iter_elems(self, av, node):
        out = E
        for a in av:
            if a[0] == "o":
                m = self.meta[a[1]]
                if m.cls in ("list", "tuple", "set"):
                    out |= self.all_elems(a[1])
                elif m.cls == "dict":
                    out |= self.dict_keys(a[1])
                elif m.cls == "ext":
                    v = self.heap.get((a[1], "[]"))
                    if v:
                        out |= v
                    else:
                        out |= ext.elem_of(self, a, node)
                elif m.ci is not None:
                    it = self.find_method(m.ci, "__iter__")
                    gi = self.find_method(m.ci, "__getitem__")
                    if it:
                        r = self.call_fv(it, [frozenset([a])], {}, node)
                        out |= self.iter_elems(r, node)
                    elif gi:
                        out |= self.call_fv(gi, [frozenset([a]), AV_INT], {}, node)
                    else:
                        out |= AV_T
                else:
                    out |= AV_T
            elif a[0] == "c":
                if a[1] == "str":
                    out |= AV_STR
                else:
                    out |= AV_T
            elif a[0] == "t" and a[1] == "range":
                out |= AV_INT
            elif a[0] == "t" and a[1] == "str":
                out |= AV_STR
            elif a[0] == "vars":
                out |= AV_STR
            else:
                out |= AV_T
        return out

    def load_item(self, base, idx, idxnode, node):
        if self.on_index and not self.suppress:
            ex = self.exact_elems(idx)
            if ex is not None:
                for cb in self.on_index:
                    cb(self, base, ex, node)
        out = E
        thunks = []
        internal = E
        for a in base:
            k = a[0]
            if k == "o":
                m = self.meta[a[1]]
                if m.cls in ("list", "tuple"):
                    out |= self.seq_item(a, idx, node)
                elif m.cls == "dict":
                    try:
                        out |= self.dict_get(a[1], idx, node)
                    except Dead:
                        if len(base) == 1:
                            raise
                elif m.cls == "ext":
                    out |= ext.subscript(self, a, idx, idxnode, node)
                elif m.ci is not None:
                    internal |= {a}
                else:
                    out |= AV_T
            elif k == "c" and a[1] == "str":
                for i in idx:
                    try:
                        out |= C(a[2][i[2]] if i[1] != "slice" else a[2][slice(*i[2])]) \
                            if i[0] == "c" and i[1] in ("int", "slice") else AV_STR
                    except IndexError:
                        self.note_raise()
            elif k == "vars":
                if all(x[0] == "c" for x in idx):
                    for x in idx:
                        v = self.heap.get((a[1], x[2]), MISSING)
                        if v is not MISSING:
                            out |= v - {UNDEF}
                    if not out:
                        out |= AV_T if self.meta[a[1]].cls == "modenv" else E
                else:
                    if self.meta[a[1]].cls == "modenv":
                        # cl.__dict__[name]: any exported class
                        for f in self.fields[a[1]]:
                            v = self.heap.get((a[1], f), E)
                            out |= frozenset(x for x in v if x[0] == "k")
                    else:
                        for f in self.fields[a[1]]:
                            out |= self.heap.get((a[1], f), E) - {UNDEF}
            elif k == "t" and isinstance(idxnode, ast.Tuple) and any(
                    isinstance(x, ast.Constant) and x.value is Ellipsis for x in idxnode.elts):
                out |= self.fresh_ext(node, "ndarray")     # only arrays take an ellipsis
            else:
                out |= AV_T
        if internal:
            def th():
                r = E
                byfv = {}
                for a in internal:
                    fv = self.find_method(self.meta[a[1]].ci, "__getitem__")
                    if fv is None:
                        r |= AV_T
                    else:
                        byfv[fv] = byfv.get(fv, E) | {a}
                acts = [lambda fv=fv, s=s: self.call_fv(fv, [s, idx], {}, node)
                        for fv, s in byfv.items()]
                if acts:
                    r |= self.choose(acts)
                return r
            if out:
                out |= self.choose([th, lambda: E])
            else:
                out |= th()
        if not out:
            raise Dead()
        return out

    def seq_item(self, a, idx, node):
        ex = self.exact_elems(frozenset([a]))
        out = E
        for i in idx:
            if i[0] == "c" and isinstance(i[2], (int, bool)) and i[1] in ("int", "bool"):
                if ex is not None:
                    if -len(ex) <= i[2] < len(ex):
                        out |= ex[i[2]]
                    else:
                        self.note_raise()
                else:
                    out |= self.all_elems(a[1])
            elif i[0] == "c" and i[1] == "slice":
                if ex is not None:
                    out |= self.new_seq(self.meta[a[1]].cls, ex[slice(*i[2])], node)
                else:
                    out |= self.new_seq(self.meta[a[1]].cls, None, node, self.all_elems(a[1]))
            elif i[0] == "t" and i[1] == "slice":
                out |= self.new_seq(self.meta[a[1]].cls, None, node, self.all_elems(a[1]))
            else:
                out |= self.all_elems(a[1])
                if i[0] == "t" and i[1] is None:
                    pass
        return out

    def store_item(self, base, idx, v, node, aug=False):
        objs = [a for a in base if a[0] == "o"]
        for a in base:
            if a[0] == "o":
                m = self.meta[a[1]]
                if m.cls == "list":
                    self.mutated(a[1], "[]", node)
                    ex = self.exact_elems(frozenset([a]))
                    i = self.single_const(idx, MISSING)
                    if ex is not None and isinstance(i, int) and -len(ex) <= i < len(ex) \
                            and len(objs) == 1:
                        self.hset(a[1], i % len(ex), v)
                    elif ex is not None:
                        for j in range(len(ex)):
                            self.hset(a[1], j, ex[j] | v)
                    else:
                        self.hset(a[1], "[]", self.all_elems(a[1]) | v)
                elif m.cls == "dict":
                    self.mutated(a[1], "[]", node)
                    k = self.single_const(idx, MISSING)
                    if k is not MISSING and exact_key(k) and len(objs) == 1:
                        self.hset(a[1], ("k", k), v)
                    else:
                        self.dict_unknown(a[1], idx, v)
                elif m.cls == "ext":
                    self.mutated(a[1], "[]", node)
                    if (a[1], "#strs") in self.heap:
                        self.hset(a[1], "[]", self.heap[(a[1], "[]")] | v)
                    # a Triangle written into an array is converted through __array__
                    if any(x[0] == "o" and self.meta[x[1]].ci is not None
                           and not self.find_method(self.meta[x[1]].ci, "__array__")
                           for x in v):
                        self.hset(a[1], "[]", (self.heap.get((a[1], "[]")) or E) | v)
                elif m.ci is not None:
                    if aug:
                        fv = self.find_method(m.ci, "__setitem__")
                        if fv:
                            self.call_fv(fv, [frozenset([a]), idx, v], {}, node)
                        continue
                    fv = self.find_method(m.ci, "__setitem__")
                    if fv:
                        self.call_fv(fv, [frozenset([a]), idx, v], {}, node)
                    else:
                        self.mutated(a[1], "[]", node)
            elif a[0] == "vars":
                k = self.single_const(idx, MISSING)
                if k is not MISSING:
                    self.write(a[1], k, v, node)
                else:
                    self.mutated(a[1], "*", node)
            elif a[0] == "x":
                if self.initdone:
                    self.event("mutate", "EXTERNAL", a[1], "[]", node)

    # ----------------------------------------------------------------- calls
    def e_Call(self, e):
        # args
        f = e.func
        if isinstance(f, ast.Name) and f.id == "super" and self.find_env("super") is None:
            return self.do_super(e)
        if isinstance(f, ast.Attribute):
            base = self.eval(f.value)
            args, kwargs = self.eval_args(e)
            return self.call_attr(base, f.attr, args, kwargs, e)
        fn = self.eval(f)
        args, kwargs = self.eval_args(e)
        return self.call(fn, args, kwargs, e)

    def do_super(self, e):
        fr = self.stack[-1]
        if e.args:
            cls = self.eval(e.args[0])
            selfav = self.eval(e.args[1]) if len(e.args) > 1 else AV_T
            out = E
            for c in cls:
                if c[0] == "k":
                    out |= {("sup", c[1], selfav)}
            return out or AV_T
        # find enclosing method frame
        fi = fr.fi
        cls = fi.cls if fi is not None else None
        env = fr.env
        if cls is None and fr.fv is not None and fr.fv.cls is not None:
            cls = fr.fv.cls
        if cls is None:
            # nested function / comprehension: search caller frames by env chain
            for f2 in reversed(self.stack):
                if f2.fi is not None and f2.fi.cls is not None:
                    cls = f2.fi.cls
                    selfname = f2.fi.args[0]
                    return frozenset([("sup", cls, self.heap.get((f2.env, selfname), AV_T))])
            return AV_T
        selfname = fi.args[0]
        return frozenset([("sup", cls, self.lookup(selfname, e))])

    def eval_args(self, e):
        args = []
        star = None
        for x in e.args:
            if isinstance(x, ast.Starred):
                v = self.eval(x.value)
                ex = self.exact_elems(v)
                if ex is not None and star is None:
                    args.extend(ex)
                else:
                    star = (star or E) | (self.iter_elems(v, e) or E)
            else:
                v = self.eval(x)
                if star is not None:
                    star |= v
                else:
                    args.append(v)
        kwargs = {}
        kstar = None
        for k in e.keywords:
            v = self.eval(k.value)
            if k.arg is None:
                for a in v:
                    if a[0] == "o" and self.meta[a[1]].cls == "dict":
                        ex = self.dict_exact(a[1])
                        if ex is not None and len(v) == 1:
                            for kk, vv in ex:
                                kwargs[kk] = vv
                        else:
                            for f in self.fields[a[1]]:
                                if isinstance(f, tuple):
                                    vv = self.heap.get((a[1], f), MISSING)
                                    if vv is not MISSING and vv - {UNDEF}:
                                        kwargs[f[1]] = kwargs.get(f[1], E) | vv
                            kstar = (kstar or E) | (self.heap.get((a[1], "[]")) or E)
                    else:
                        kstar = (kstar or E) | AV_T
            else:
                kwargs[k.arg] = v
        if star is not None:
            kwargs["*"] = star
        if kstar is not None:
            kwargs["**"] = kstar
        return args, kwargs

    def call_attr(self, base, name, args, kwargs, node):
        thunks = []
        fvgroups = {}
        rest = []
        for a in base:
            if a[0] == "o" and self.meta[a[1]].ci is not None:
                ci = self.meta[a[1]].ci
                if self.find_prop(ci, name) is None:
                    v = self.heap.get((a[1], name), MISSING)
                    if v is MISSING:
                        fv = self.find_method(ci, name)
                        if fv is not None:
                            fvgroups[fv] = fvgroups.get(fv, E) | {a}
                            continue
            rest.append(a)
        for fv, s in fvgroups.items():
            def th(fv=fv, s=s):
                if fv.fi.kind == "static":
                    return self.call_fv(fv, args, kwargs, node)
                if fv.fi.kind == "class":
                    k = frozenset(("k", self.meta[x[1]].ci) for x in s)
                    return self.call_fv(fv, [k] + args, kwargs, node)
                return self.call_fv(fv, [s] + args, kwargs, node)
            thunks.append(th)
        if rest:
            exts = [a for a in rest if (a[0] == "o" and self.meta[a[1]].ci is None)
                    or a[0] in ("t", "c", "vars", "xm")]
            oth = frozenset(a for a in rest if a not in exts)
            for a in exts:
                thunks.append(lambda a=a: ext.method_call(self, a, name, args, kwargs, node))
            if oth:
                def th2():
                    fn = self.load_attr(oth, name, node)
                    return self.call(fn, args, kwargs, node)
                thunks.append(th2)
        if not thunks:
            raise Dead()
        return self.choose(thunks)

    def call_method(self, objs, name, args, kwargs, node):
        return self.call_attr(objs, name, args, kwargs, node)

    def call(self, fn, args, kwargs, node):
        thunks = []
        bgroups = {}
        for a in fn:
            k = a[0]
            if k == "f":
                thunks.append(lambda a=a: self.call_fv(a[1], args, kwargs, node))
            elif k == "b":
                bgroups[a[1]] = bgroups.get(a[1], E) | a[2]
            elif k == "k":
                thunks.append(lambda a=a: self.instantiate(a[1], args, kwargs, node))
            elif k == "x":
                o = None
                thunks.append(lambda a=a: ext.call(self, a[1], args, kwargs, node))
            elif k == "xm":
                thunks.append(lambda a=a: self.choose(
                    [lambda r=r: ext.method_call(self, r, a[1], args, kwargs, node)
                     for r in a[2]]))
            elif k == "part":
                # functools.partial
                thunks.append(lambda a=a: self.call(a[1], list(a[2]) + args,
                                                    dict(dict(a[3]), **kwargs), node))
            elif k == "o":
                m = self.meta[a[1]]
                if m.ci is not None and self.find_method(m.ci, "__call__"):
                    thunks.append(lambda a=a: self.call_attr(frozenset([a]), "__call__", args,
                                                             kwargs, node))
                else:
                    thunks.append(lambda: self.call_unknown(args, kwargs, node))
            elif k == "c":
                continue
            else:
                thunks.append(lambda: self.call_unknown(args, kwargs, node))
        for fv, s in bgroups.items():
            thunks.append(lambda fv=fv, s=s: self.call_fv(fv, [s] + args, kwargs, node))
        if not thunks:
            self.note_raise()
            raise Dead()
        return self.choose(thunks)

    def call_unknown(self, args, kwargs, node):
        self.callbacks(args, kwargs, node)
        return AV_T

    def callbacks(self, args, kwargs, node, params=None):
        """Functions handed to unknown/library code may be called: run them on unknowns."""
        res = E
        for v in list(args) + list(kwargs.values()):
            for a in v:
                if a[0] in ("f", "b"):
                    fv = a[1]
                    n = len(fv.fi.args) - (1 if a[0] == "b" else 0)
                    av = [AV_T] * n
                    if params:
                        for i, pv in enumerate(params[:n]):
                            av[i] = pv
                    try:
                        r = self.choose([
                            lambda: self.call_fv(fv, ([a[2]] if a[0] == "b" else []) + av, {},
                                                 node),
                            lambda: E])
                        res |= r
                    except Dead:
                        pass
        return res

    def instantiate(self, ci, args, kwargs, node):
        oid = self.alloc(ci.name, ci, node)
        me = frozenset([("o", oid)])
        init = self.find_method(ci, "__init__")
        if init is not None:
            if self.wires is not None:
                self.note_new(ci, init, args, kwargs, node)
            self.call_fv(init, [me] + args, kwargs, node)
        elif ci.ext_bases():
            ext.internal_method(self, ("o", oid), "__init__", args, kwargs, node)
        return me

    def note_new(self, ci, init, args, kwargs, node):
        kw = dict(zip(init.fi.params[1:], args), **kwargs)
        self.note_wires(ci.name, kw, node)
        if "**" not in kwargs and self.find_method(ci, "fit") is not None:
            self.made.add((ci.name, tuple(sorted(k for k in kw if isinstance(k, str))),
                           tuple(init.fi.params[1:]), self.site(node)))

    def note_wires(self, callee, kwargs, node):
        """Which options of the watched estimator are handed on under which name."""
        for q, av in kwargs.items():
            for a in av or ():
                if a[0] == "o" and a[1] in self.frozen and \
                        self.frozen[a[1]][0].startswith("param "):
                    self.wires.add((callee, q, self.frozen[a[1]][0][6:], self.site(node)))

    def fresh_ext(self, node, tag=None):
        return frozenset([("o", self.ext_obj(node, tag))])

    def ext_obj(self, node, tag=None):
        """Library objects are abstracted by allocation site (per phase between freezes)."""
        key = tag
        oid = self.sites.get(key)
        if oid is None or oid in self.frozen or node is None:
            oid = self.alloc("ext", None, node, tag)
            self.sites[key] = oid
            self.site_of[oid] = key
        return oid

    def site_now(self, key, old):
        oid = self.sites.get(key)
        if oid is None or oid in self.frozen:
            m = self.meta[old]
            oid = len(self.meta)
            self.meta.append(Meta(m.cls, m.ci, m.site, m.tag))
            self.fields.append({})
            self.sites[key] = oid
            self.site_of[oid] = key
            if m.cls in CONTAINERS:
                self.init_summary(oid, m.cls)
        return oid

    def bind_args(self, fv, args, kwargs, node):
        fi = fv.fi
        kw = dict(kwargs)
        star = kw.pop("*", None)
        kstar = kw.pop("**", None)
        vals = {}
        extra = []
        names = fi.args
        for i, v in enumerate(args):
            if i < len(names):
                vals[names[i]] = v
            else:
                extra.append(v)
        if len(args) > len(names) and fi.vararg is None:
            self.event("bad-call", fi.qual, "", "positional", node)
            self.note_raise()
            raise Dead()
        kwextra = {}
        for k, v in kw.items():
            if k in fi.params and k not in fi.posonly:
                if k in vals:
                    vals[k] = vals[k] | v
                else:
                    vals[k] = v
            elif fi.kwarg is not None:
                kwextra[k] = v
            else:
                self.event("bad-call", fi.qual, "", k, node)
                self.note_raise()
                raise Dead()
        nd = len(fv.defaults)
        for i, nme in enumerate(names):
            if nme not in vals:
                j = i - (len(names) - nd)
                dv = fv.defaults[j] if j >= 0 else None
                v = E
                if star is not None:
                    v |= star
                if kstar is not None:
                    v |= kstar
                if dv is not None:
                    v |= dv
                if not v:
                    self.event("bad-call", fi.qual, "", "missing " + nme, node)
                    self.note_raise()
                    raise Dead()
                vals[nme] = v
        for nme in fi.kwonly:
            if nme not in vals:
                v = E
                if kstar is not None:
                    v |= kstar
                if nme in fv.kwdefaults:
                    v |= fv.kwdefaults[nme]
                vals[nme] = v or AV_T
        if fi.vararg:
            if star is not None:
                g = star
                for x in extra:
                    g |= x
                vals[fi.vararg] = self.new_seq("tuple", None, node, g)
            else:
                vals[fi.vararg] = self.new_seq("tuple", extra, node)
        if fi.kwarg:
            oid = self.alloc("dict", None, node)
            for k, v in kwextra.items():
                self.hset(oid, ("k", k), v)
            if kstar is not None:
                self.dict_unknown(oid, AV_STR, kstar)
                self.hset(oid, "#n", AV_FALSE)
            else:
                self.hset(oid, "#n", AV_TRUE)
            vals[fi.kwarg] = frozenset([("o", oid)])
        return vals

    def call_fv(self, fv, args, kwargs, node):
        fi = fv.fi
        hook = self.hooks.get(fi.qual)
        if hook is not None:
            r = hook(self, fv, args, kwargs, node)
            if r is not None:
                return r
        n = 0
        for f in self.stack:
            if f.fi is fi:
                n += 1
        if n >= self.rec_bounds.get(fi.qual, self.rec_bound):
            self.truncated[fi.qual] = self.truncated.get(fi.qual, 0) + 1
            self.trunc_log.append(fi.qual)
            raise Dead()
        vals = self.bind_args(fv, args, kwargs, node)
        return self.split_call(fv, vals, node, 9)

    def split_call(self, fv, vals, node, room):
        """One alternative per receiver/argument object: exactly one of them is meant."""
        meta = self.meta
        for k, v in vals.items():
            if len(v) > 1:
                objs = [a for a in v if a[0] == "o" and meta[a[1]].ci is not None]
                if len(objs) > 1 and len(objs) <= room:
                    parts = [frozenset([a]) for a in sorted(objs)]
                    rest = v - frozenset(objs)
                    if rest:
                        parts.append(rest)
                    left = room // len(parts)

                    def one(p):
                        w = dict(vals)
                        w[k] = p
                        return self.split_call(fv, w, node, left)
                    return self.choose([lambda p=p: one(p) for p in parts])
        return self.call_one(fv, vals, node)

    def call_one(self, fv, vals, node):
        fi = fv.fi
        for cb in self.on_call:
            cb(self, fv, vals, node)
        self.visited_fns.add(fi)
        self.callcount[fi.qual] = self.callcount.get(fi.qual, 0) + 1
        if node is not None and self.stack:
            self.call_sites.add((self.stack[-1].module.rel, getattr(node, "lineno", 0),
                                 getattr(node, "col_offset", 0), fi.qual))
        if self.memo is not None:
            r = self.memo.call(self, fv, vals, node)
        else:
            r = self.run_body(fv, vals, node)
        if getattr(fi, "cached", False) and any(a[0] == "o" for a in r):
            self.event("process", "PROCESS", "result of memoised function", fi.qual, node)
        return r

    def run_body(self, fv, vals, node):
        fi = fv.fi
        env = self.alloc("env", None, node)
        h = self.heap
        if fv.env is not None:
            self.hset(env, "#parent", frozenset([("o", fv.env)]))
        mark, serial = len(self.trail), len(self.meta)
        for k, v in vals.items():
            self.hset(env, k, v)
        # locals assigned somewhere but unbound yet shadow outer names
        for k in fi.locals:
            if k not in vals:
                self.hset(env, k, frozenset([UNDEF]))
        fr = Frame(fi, env, fi.module, mark, serial, fv)
        self.stack.append(fr)
        ntry = len(self.trys)
        try:
            if fi.is_lambda:
                return self.eval(fi.node.body)
            falls = self.exec_block(fi.node.body)
            if falls:
                fr.final = True
                fr.final_av = AV_NONE
            if fi.has_yield:
                res = self.new_seq("list", None, node, fr.yields or E)
                if fr.returns:
                    deltas = [d for _, d in fr.returns]
                    if fr.final:
                        deltas.append(self.delta_since(mark))
                    self.undo(mark)
                    self.apply(self.merge(deltas, serial))
                return res
            if not fr.returns:
                if not fr.final:
                    self.undo(mark)
                    raise Dead()
                return fr.final_av
            res = []
            deltas = []
            for v, d in fr.returns:
                res.append(v)
                deltas.append(d)
            if fr.final:
                res.append(fr.final_av)
                deltas.append(self.delta_since(mark))
            self.undo(mark)
            d, r = self.join(deltas, env, res)
            self.apply(d)
            return r
        finally:
            self.stack.pop()
            del self.trys[ntry:]


def exact_key(k):
    return isinstance(k, (str, int, bool, float, type(None)))


def fold_binop(op, x, y):
    u, v = x[2], y[2]
    if x[1] in ("slice", "ellipsis") or y[1] in ("slice", "ellipsis"):
        return AV_T
    try:
        if op == "Add":
            r = u + v
        elif op == "Sub":
            r = u - v
        elif op == "Mult":
            if isinstance(u, str) or isinstance(v, str):
                return AV_STR
            r = u * v
        elif op == "Div":
            r = u / v
        elif op == "FloorDiv":
            r = u // v
        elif op == "Mod":
            r = u % v
        elif op == "Pow":
            if abs(v) > 64:
                return AV_T
            r = u ** v
        elif op == "BitOr":
            r = u | v
        elif op == "BitAnd":
            r = u & v
        else:
            return AV_T
    except Exception:
        return AV_T
    if isinstance(r, (str, int, float, bool)) and (not isinstance(r, str) or len(r) < 200):
        return C(r)
    return AV_T


import builtins as _b
BUILTINS = set(dir(_b))
