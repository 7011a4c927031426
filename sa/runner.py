"""Runs abstract programs in parallel worker processes and summarises them for the rules."""
import multiprocessing as mp
import os
import signal
import time
import traceback

from . import programs as P
from .model import AnalysisBroken

TASK_TIMEOUT = 240


class TaskTimeout(BaseException):
    pass


def _alarm(*_):
    raise TaskTimeout


def _run(task):
    kind, arg, opts = task
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(opts.pop("timeout", TASK_TIMEOUT))
    t = time.time()
    out = {"task": (kind, arg), "error": None, "events": [], "status": {}}
    try:
        if kind == "est":
            o = P.run_estimator(arg, **opts)
        elif kind == "op":
            o = P.run_op(arg[0], arg[1], **opts)
        else:
            o = getattr(P, "run_" + kind)(arg, **opts)
        I = o["S"].I
        out.update(program=o["program"], status=dict(o["S"].status), events=list(I.events.values()),
                   fns=sorted("%s:%s" % (f.module.rel, f.qual) for f in I.visited_fns),
                   n_stmts=len(I.visited_stmts), n_calls=len(I.call_sites),
                   truncated=dict(I.truncated), steps=I.steps,
                   ext={k: sorted(v) for k, v in I.ext_calls.items()},
                   rng=summ_rng(I),
                   facts=o.get("facts", {}))
        for k in ("verbatim", "ret", "n_fit", "fitted", "params"):
            if k in o:
                out[k] = o[k]
    except TaskTimeout:
        out["error"] = "timeout"
    except AnalysisBroken as e:
        out["error"] = "broken: %s" % e
    except BaseException as e:
        out["error"] = "internal: " + "".join(traceback.format_exception(e)[-4:])[-1500:]
    finally:
        signal.alarm(0)
    out["wall"] = round(time.time() - t, 2)
    return out


def summ_rng(I):
    res = []
    for name, l in I.rng_calls.items():
        for site, path, args, kwargs in l:
            res.append((name, site, path, [sorted(map(str, a)) for a in args],
                        {k: sorted(map(str, v)) for k, v in kwargs.items() if v is not None}))
    return res


def run(tasks):
    """tasks: list of (kind, arg, opts)."""
    n = min(8, os.cpu_count() or 2, max(1, len(tasks)))
    if n == 1:
        return [_run(t) for t in tasks]
    # long estimator programs first
    heavy = {"CapeCod": 0, "VotingChainladder": 0, "MackChainladder": 1, "BootstrapODPSample": 1,
             "Benktander": 2, "MunichAdjustment": 2, "BerquistSherman": 2}
    tasks = sorted(tasks, key=lambda t: heavy.get(t[1] if isinstance(t[1], str) else "", 9))
    with mp.get_context("fork").Pool(n) as pool:
        return list(pool.imap_unordered(_run, tasks, 1))


def estimator_tasks(names=None, **opts):
    I = P.Interp()
    all_ = sorted(P.exported_estimators(I))
    return [("est", n, dict(opts)) for n in all_ if names is None or n in names]


def op_tasks(pred=None, **opts):
    S = P.Session()
    return [("op", n, dict(opts)) for n in P.op_list(S.I, S.D) if pred is None or pred(*n)]


def scen_tasks(mod, fn, argss, **opts):
    return [("scen", (mod, fn, tuple(a)), dict(opts)) for a in argss]
