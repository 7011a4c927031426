"""Summaries: the effect of a call is tabulated by the (renamed) abstract heap reachable from its
arguments, so a function is re-analysed only for abstract inputs not seen before."""
import ast


class Entry:
    __slots__ = ("objs", "dead", "result", "delta", "new", "raises", "trunc", "outer", "serial",
                 "sites")


def small(fi):
    if fi.is_lambda:
        return True
    body = fi.node.body
    if body and isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant):
        body = body[1:]
    if len(body) > 1:
        return False
    for n in ast.walk(fi.node):
        if isinstance(n, (ast.For, ast.While, ast.If, ast.Try, ast.ListComp, ast.IfExp,
                          ast.BoolOp)):
            return False
    return sum(isinstance(n, ast.Call) for n in ast.walk(fi.node)) <= 1


class Memo:
    def __init__(self, interp):
        self.I = interp
        self.table = {}
        self.plain = {}
        self.small = {}
        self.hits = self.misses = self.bypass = self.uncacheable = 0
        self.maxobjs = 0
        self.glob = {o for o, (l, p) in interp.frozen.items() if l == "GLOBAL"}
        self.glob |= set(interp.modenv.values())

    # ---------------------------------------------------------- canonical form
    def canon(self, roots):
        I = self.I
        heap, meta, fields, frozen = I.heap, I.meta, I.fields, I.frozen
        ids, order = {}, []
        plain, glob = self.plain, self.glob

        def oidx(o):
            if o in glob:
                return ("g", o)
            i = ids.get(o)
            if i is None:
                i = ids[o] = len(order)
                order.append(o)
            return i

        def skey(a):
            k = a[0]
            if k == "o" or k == "vars":
                m = meta[a[1]]
                i = ids.get(a[1], 1 << 30)
                return (k, i, m.cls or "", str(m.tag), a[1])
            if k == "f":
                return (k, a[1].fi.uid, a[1].env or 0)
            if k == "b":
                return (k, a[1].fi.uid, min((x[1] for x in a[2] if x[0] == "o"), default=0))
            return (k, 0, str(a[1:]))

        def enc_fv(fv):
            e = fv.env
            d = ()
            for v in fv.defaults:
                if v not in plain:
                    d = d + (enc(v),)
            return (fv.fi.uid, oidx(e) if e is not None else None, d)

        def enc(av):
            p = plain.get(av)
            if p is not None:
                return p
            simple = True
            for a in av:
                if a[0] not in "ctkxmu":
                    simple = False
                    break
            if simple:
                p = plain[av] = len(plain) + 1
                return p
            if len(av) > 1:
                av = sorted(av, key=skey)
            out = []
            for a in av:
                k = a[0]
                if k == "o":
                    out.append(oidx(a[1]))
                elif k == "f":
                    out.append(("f", enc_fv(a[1])))
                elif k == "b":
                    out.append(("b", enc_fv(a[1]), enc(a[2])))
                elif k == "vars":
                    out.append(("v", oidx(a[1])))
                elif k == "sup":
                    out.append(("sup", a[1], enc(a[2])))
                elif k == "xm":
                    out.append(("xm", a[1], enc(a[2])))
                elif k == "part":
                    out.append(("part", enc(a[1]), tuple(enc(x) for x in a[2]),
                                tuple((n, enc(x)) for n, x in a[3])))
                else:
                    out.append(a)
            return tuple(out)

        key = [enc(r) for r in roots]
        i = 0
        while i < len(order):
            o = order[i]
            i += 1
            m = meta[o]
            fz = frozen.get(o)
            row = [m.ci if m.ci is not None else m.cls, m.tag, fz[0] if fz else None]
            fs = fields[o]
            if len(fs) > 1:
                try:
                    fl = sorted(fs)
                except TypeError:
                    fl = sorted(fs, key=lambda x: (str(type(x)), str(x)))
            else:
                fl = fs
            for f in fl:
                v = heap.get((o, f))
                if v is not None:
                    row.append(f)
                    row.append(enc(v))
            key.append(tuple(row))
        return tuple(key), order

    # ---------------------------------------------------------- relocation
    def refs(self, av, acc):
        for a in av:
            k = a[0]
            if k in ("o", "vars"):
                acc.append(a[1])
            elif k == "f":
                if a[1].env is not None:
                    acc.append(a[1].env)
                for d in a[1].defaults:
                    self.refs(d, acc)
            elif k == "b":
                if a[1].env is not None:
                    acc.append(a[1].env)
                self.refs(a[2], acc)
            elif k in ("sup", "xm"):
                self.refs(a[2], acc)
            elif k == "part":
                self.refs(a[1], acc)
                for x in a[2]:
                    self.refs(x, acc)
                for _, x in a[3]:
                    self.refs(x, acc)

    def rel(self, av, mp):
        if av in self.plain:
            return av
        return frozenset(self.rel1(a, mp) for a in av)

    def relfv(self, fv, mp):
        e = mp.get(fv.env, fv.env)
        if e == fv.env:
            return fv
        I = self.I
        key = (fv.fi.uid, e)
        n = I.fvs.get(key)
        if n is None:
            n = type(fv)(fv.fi, e, [self.rel(d, mp) for d in fv.defaults],
                         {k: self.rel(d, mp) for k, d in fv.kwdefaults.items()}, fv.cls)
            I.fvs[key] = n
        return n

    def rel1(self, a, mp):
        k = a[0]
        if k in ("o", "vars"):
            return (k, mp.get(a[1], a[1]))
        if k == "f":
            return ("f", self.relfv(a[1], mp))
        if k == "b":
            return ("b", self.relfv(a[1], mp), self.rel(a[2], mp))
        if k in ("sup", "xm"):
            return (k, a[1], self.rel(a[2], mp))
        if k == "part":
            return (k, self.rel(a[1], mp), tuple(self.rel(x, mp) for x in a[2]),
                    tuple((n, self.rel(x, mp)) for n, x in a[3]))
        return a

    # ---------------------------------------------------------- calls
    def call(self, I, fv, vals, node):
        fi = fv.fi
        sm = self.small.get(fi)
        if sm is None:
            sm = self.small[fi] = small(fi)
        if sm:
            self.bypass += 1
            return I.run_body(fv, vals, node)
        roots = [vals[k] for k in vals]
        if fv.env is not None and I.meta[fv.env].cls != "modenv":
            roots.append(frozenset([("o", fv.env)]))
        sig, order = self.canon(roots)
        key = (fi.uid, fv.env if fv.env in self.glob else None, I.suppress > 0, tuple(I.ctx),
               any("memo" not in t for t in I.trys), tuple(vals), sig)
        if len(order) > self.maxobjs:
            self.maxobjs = len(order)
        outer = None
        for e in self.table.get(key, ()):
            if e.outer:
                cnt = self.counts(e.outer)
                if cnt != e.outer:
                    continue
            self.hits += 1
            return self.replay(I, e, order)
        self.misses += 1
        return self.record(I, fv, vals, node, key, order)

    def counts(self, quals):
        out = {}
        for q in quals:
            out[q] = sum(1 for f in self.I.stack if f.fi is not None and f.fi.qual == q)
        return out

    def record(self, I, fv, vals, node, key, order):
        mark, serial = len(I.trail), len(I.meta)
        rec = {"mark": mark, "raises": [], "memo": True}
        has_outer = bool(I.trys)
        I.trys.append(rec)
        tl = len(I.trunc_log)
        dead = False
        result = None
        try:
            result = I.run_body(fv, vals, node)
        except I.Dead:
            dead = True
        finally:
            # run_body truncates trys to its own level; ours is the last one
            while I.trys and I.trys[-1] is not rec:
                I.trys.pop()
            I.trys.pop()
        if dead:
            I.undo(mark)
            delta = {}
        else:
            delta = I.delta_since(mark)
        quals = set(I.trunc_log[tl:])
        e = Entry()
        e.objs = order
        e.dead = dead
        e.result = result
        e.serial = serial
        e.outer = self.counts(quals) if quals else None
        e.trunc = tuple(quals)
        ok = True
        oset = None
        od = []
        raises = {}
        rs = rec["raises"]
        if rs:
            merged = I.merge_keys(rs, mark, serial, delta if not dead else {})
        else:
            merged = None
        e.raises = None
        todo = []
        seen = set()
        final = {}

        def addroots(d):
            nonlocal ok, oset
            out = []
            for (o, f), v in d.items():
                if o >= serial:
                    continue
                if o not in self.glob and o not in I.site_of:
                    if oset is None:
                        oset = set(order)
                    if o not in oset:
                        if I.meta[o].cls in ("env",):
                            # a captured frame outside the reachable heap
                            ok = False
                            continue
                        ok = False
                        continue
                from_none = v
                out.append((o, f, v))
                acc = []
                self.refs(v, acc)
                todo.extend(acc)
            return out
        e.delta = addroots(delta)
        if merged is not None:
            e.raises = addroots(merged)
        if result is not None:
            acc = []
            self.refs(result, acc)
            todo.extend(acc)
        new = []
        sites = []
        while todo:
            o = todo.pop()
            if o in seen:
                continue
            if o in I.site_of:
                if oset is None:
                    oset = set(order)
                if o not in oset:
                    seen.add(o)
                    sites.append((o, I.site_of[o]))
                continue
            if o < serial:
                continue
            seen.add(o)
            fl = []
            for f in I.fields[o]:
                v = I.heap.get((o, f))
                if merged is not None and (o, f) in merged:
                    w = merged[(o, f)]
                    v = w if v is None else v | w
                if v is not None:
                    fl.append((f, v))
                    acc = []
                    self.refs(v, acc)
                    todo.extend(acc)
            new.append((o, fl))
        e.new = new
        e.sites = sites
        if ok:
            self.table.setdefault(key, []).append(e)
        else:
            self.uncacheable += 1
        if merged is not None and has_outer:
            tr = I.trys[-1]
            if dead:
                pre = I.delta_since(tr["mark"])
            else:
                I.undo(mark)
                pre = I.delta_since(tr["mark"])
                I.apply(delta)
            pre.update({k: v for k, v in merged.items()})
            tr["raises"].append(pre)
        if dead:
            raise I.Dead()
        return result

    def replay(self, I, e, order):
        mp = {}
        for a, b in zip(e.objs, order):
            if a != b:
                mp[a] = b
        heap, meta, fields = I.heap, I.meta, I.fields
        for o, k in e.sites:
            n = I.site_now(k, o)
            if n != o:
                mp[o] = n
        multi = []
        for o, fl in e.new:
            m = meta[o]
            n = len(meta)
            meta.append(type(m)(m.cls, m.ci, m.site, m.tag))
            fields.append({})
            mp[o] = n
            if o in I.multi:
                multi.append(n)
        for o, fl in e.new:
            n = mp[o]
            fs = fields[n]
            for f, v in fl:
                I.hset(n, f, self.rel(v, mp))
                fs[f] = True
        I.multi.update(multi)
        if e.trunc:
            I.trunc_log.extend(e.trunc)
        if e.raises is not None and I.trys:
            tr = I.trys[-1]
            pre = I.delta_since(tr["mark"])
            for o, f, v in e.raises:
                pre[(mp.get(o, o), f)] = self.rel(v, mp)
            tr["raises"].append(pre)
        if e.dead:
            raise I.Dead()
        for o, f, v in e.delta:
            I.hset(mp.get(o, o), f, self.rel(v, mp))
        return self.rel(e.result, mp)
