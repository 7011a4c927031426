"""C10: random numbers come from the random_state option and from nowhere else."""
from . import common
from .. import runner
from ..engine import AV_T, C, E
from ..ext import RNG_MAKE, leaf
from ..programs import NEEDS_SW, exported_estimators, properties
from ..scenarios import Scenario

RULE = ("with random_state fixed to an integer, every generator constructed on any path of fit, "
        "transform, predict or reading results is seeded with an integer that follows from that "
        "option (two different options give different seeds, 0 is not lost); no reachable call "
        "draws from or reseeds a process-wide generator, draws from a generator kept from an "
        "earlier call, or reads a clock or process identity")
EXPLANATION = common.ENGINE + (". Seeds are followed as constants: the programs of every estimator "
    "with a random_state option are repeated with the options 11, 4011 and 0 and the seed "
    "arguments of all generator constructions are compared.")
ASSUMPTIONS = common.ASSUME + [
    "a generator seeded with an integer produces the same stream on every run"]
SEEDS = (11, 4011, 0)


def read_all(s, av):
    I = s.I
    for a in sorted(x for x in av or () if x[0] == "o" and I.meta[x[1]].ci is not None):
        for pn in sorted(properties(I, I.meta[a[1]].ci)):
            if pn.endswith("_"):
                s.phase("read", lambda: I.load_attr(frozenset([a]), pn, None))


def generators(I, av):
    """Generator objects reachable from the values (attribute path of the first step)."""
    out, seen, todo = set(), set(), [(a[1], "") for a in av if a[0] == "o"]
    while todo:
        o, path = todo.pop()
        if o in seen:
            continue
        seen.add(o)
        if I.meta[o].tag == "rng":
            out.add(path or "itself")
        for f in I.fields[o]:
            for a in I.heap.get((o, f), E):
                if a[0] == "o":
                    todo.append((a[1], path or str(f)))
                elif a[0] == "b":
                    todo += [(x[1], path or str(f)) for x in a[2] if x[0] == "o"]
    return out


def seeded(cls, seed, then):
    s = Scenario()
    I = s.I
    e = s.new(cls, random_state=seed)
    a, b = s.fit_use(e, cls, sw="given")
    st = (a, b)
    res = getattr(s, "res", None)
    read_all(s, e)
    read_all(s, res)
    if then and res is not None:
        # a method applied to the simulated triangles
        ci = s.D.cls(then)
        kw = {"random_state": C(seed)} if then != "Chainladder" else {}
        m = s.phase("m", lambda: I.instantiate(ci, [], kw, None))
        w = s.S.triangle("sample_weight", enriched=False)
        r = s.phase("mfit", lambda: I.call_attr(m, "fit", [res], {"sample_weight": w}, None))
        st += (s.status("mfit"),)
        p = s.phase("mpred", lambda: I.call_attr(m, "predict", [res], {"sample_weight": w}, None))
        read_all(s, r)
        read_all(s, p)
    made, other = {}, []
    for name, calls in I.rng_calls.items():
        for site, path, args, kw in calls:
            if leaf(name) in RNG_MAKE and not name.startswith("rng."):
                av = args[0] if args else kw.get("seed", kw.get("random_state", C(None)))
                made.setdefault("%s:%s" % (site[0], site[2]), set()).update(
                    (v[2] if v[0] == "c" else "?") for v in av)
            elif not name.startswith("rng."):
                other.append("%s:%s %s" % (site[0], site[2], name))
    kept = sorted(generators(I, frozenset().union(e or E, res or E)))
    draws = sum(len(v) for k, v in I.rng_calls.items() if k.startswith("rng."))
    return s, {"made": {k: sorted(map(str, v)) for k, v in made.items()}, "status": st,
               "draws": draws, "other": other, "kept": kept}


def run(ctx):
    res = common.estimators(ctx) + common.ops(ctx, None, 120)
    for r in res:
        for e in r["events"]:
            if e.kind in ("clock", "rng") or (e.kind == "process" and "random" in e.path):
                common.report(ctx, r, e)
        for name, site, path, args, kw in r["rng"]:
            if name.startswith("rng."):
                ctx.count("draws")
            elif leaf(name) in RNG_MAKE:
                ctx.count("generators")
            else:
                ctx.violation("%s|global draw|%s:%s" % (name, site[0], site[2]),
                              "%s:%s in %s: %s uses the process-wide generator (program %s)" % (
                                  site[0], site[1], site[2], name, common.name_of(r)))
    with_rs = [r["program"] for r in res if r["task"][0] == "est"
               and "random_state" in r.get("params", ())]
    ctx.lists["estimators_with_random_state"] = sorted(with_rs)
    ctx.count("random_state_options", len(with_rs))
    ctx.need("random_state_options", 5)
    ctx.need("draws", 2)
    tasks = [(c, sd, t) for c in with_rs for sd in SEEDS
             for t in (("Chainladder", "BornhuetterFerguson") if c == "BootstrapODPSample"
                       else (None,))]
    by = {}
    for r in runner.run(runner.scen_tasks("c10", "seeded", tasks)):
        if r["error"]:
            ctx.broken.append("%s: %s" % (r["task"][1], r["error"][:300]))
            continue
        c, sd, t = r["task"][1][2]
        f = r["facts"]
        ctx.count("seeded_programs")
        if f["status"][0] != "ok":
            ctx.broken.append("%s %s: fit dead" % (c, sd))
        ctx.count("kept_generator_searches")
        for k in f["kept"]:
            ctx.violation("%s|kept|%s" % (c, k), "%s: after fit and predict the estimator or its "
                          "result still holds a random generator in %s, so the next call "
                          "continues its stream" % (c, k))
        for site, vals in f["made"].items():
            by.setdefault((c, t, site), {})[sd] = vals
    for (c, t, site), d in sorted(by.items(), key=str):
        ctx.count("generator_sites")
        for sd in SEEDS:
            v = d.get(sd)
            if v is None or any(not x.lstrip("-").isdigit() for x in v):
                ctx.violation("%s|%s|seed" % (c, site),
                              "%s(random_state=%d): the generator made in %s is seeded with %s" % (
                                  c, sd, site, v if v is not None else "nothing"))
        vs = [tuple(d.get(sd, ())) for sd in SEEDS]
        if len(set(vs)) != len(vs):
            ctx.violation("%s|%s|same" % (c, site),
                          "%s: the generator made in %s gets seeds %s for random_state=%s" % (
                              c, site, vs, list(SEEDS)))
    ctx.need("generator_sites", 6)
