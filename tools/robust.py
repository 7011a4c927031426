"""robust.py [-t] [-C C01,C02] [KIND...]: run every check on behaviour-preserving rewrites."""
import json, os, subprocess, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT + "/tools")
import refactor
a = sys.argv[1:]
tests = "-t" in a
cs = None
if "-C" in a:
    i = a.index("-C")
    cs = a[i + 1].split(",")
    del a[i:i + 2]
kinds = [x for x in a if not x.startswith("-")] or list(refactor.KINDS)
cs = cs if cs is not None else [c["property"] for c in json.load(open(ROOT + "/MANIFEST.json"))["checks"]]
for k in kinds:
    d = "/tmp/rf/" + k
    refactor.main(k, d)
    print("==", k, flush=True)
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", MPLBACKEND="Agg", OMP_NUM_THREADS="1",
               OPENBLAS_NUM_THREADS="1", NUMBA_NUM_THREADS="1", PYTHONPATH=d)
    if tests:
        subprocess.run("/opt/venv/bin/python -m pytest -q -p no:cacheprovider -n 8 --timeout=300 "
                       "--continue-on-collection-errors --tb=line -o junit_family=xunit2 --junitxml=/tmp/rf/o.xml "
                       ">/tmp/rf/o.log 2>&1; /opt/venv/bin/python /opt/vp/results.py /tmp/rf/o.json junit:/tmp/rf/o.xml", shell=True, cwd=d, env=env)
        b = json.load(open("/opt/vp/BASELINE.json"))["stable"]
        o = set(json.load(open("/tmp/rf/o.json"))["passed"])
        miss = [t for t in b if t not in o]
        print("   tests missing", len(miss), miss[:5], flush=True)
    for c in cs:
        env = dict(os.environ, SA_REPO=d, SA_EVIDENCE="/tmp/rf/ev")
        r = subprocess.run(["python3", "-m", "sa.check", c, "--tier", "quick"], cwd=ROOT, env=env, capture_output=True, text=True)
        print("   ", c, "rc", r.returncode, "" if not r.returncode else "\n".join((r.stdout + r.stderr)[-12000:].splitlines()[:14])[:2500], flush=True)
