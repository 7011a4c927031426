#!/usr/bin/env python3
"""Validate the planted bugs: plant.py [-t] [-c] ID...
For each seeded/<ID>: copy /repo to /tmp/plant/<ID>, demo must pass; apply patch, demo must fail;
-t also runs the stable tests on the patched copy; -c also runs every check on it (SA_REPO)."""
import json, os, shutil, subprocess, sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", MPLBACKEND="Agg",
           OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", NUMBA_NUM_THREADS="1")


def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, shell=True, capture_output=True, text=True, **kw)


def demo(sid, d):
    env = dict(ENV, PYTHONPATH=d)
    return sh("bash %s/seeded/%s/demo.sh" % (ROOT, sid), d, env=env)


def one(sid, tests, checks):
    d = "/tmp/plant/" + sid
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs("/tmp/plant", exist_ok=True)
    shutil.copytree("/repo", d, ignore=shutil.ignore_patterns(".git", "__pycache__", ".pytest_cache"))
    msg = []
    try:
        r = demo(sid, d)
        msg.append("clean demo %d" % r.returncode + ("" if not r.returncode else r.stdout[-300:] + r.stderr[-600:]))
        r = sh("git init -q . && git apply %s/seeded/%s/patch.diff" % (ROOT, sid), d)
        if r.returncode:
            return ["patch: " + r.stderr]
        r = demo(sid, d)
        msg.append("patched demo %d %s" % (r.returncode, (r.stderr.strip() or r.stdout.strip()).splitlines()[-1:]))
        if tests:
            env = dict(ENV, PYTHONPATH=d)
            x = sh("/opt/venv/bin/python -m pytest -q -p no:cacheprovider -n 8 --timeout=300 "
                   "--continue-on-collection-errors --tb=line -o junit_family=xunit2 "
                   "--junitxml=/tmp/plant/%s.xml 2>&1 | tail -8" % sid, d, env=env)
            sh("/opt/venv/bin/python /opt/vp/results.py /tmp/plant/%s.json junit:/tmp/plant/%s.xml" % (sid, sid), d)
            try:
                b = json.load(open("/opt/vp/BASELINE.json"))["stable"]
                o = set(json.load(open("/tmp/plant/%s.json" % sid))["passed"])
                miss = [t for t in b if t not in o]
                msg.append("tests missing %d %s" % (len(miss), miss[:4]))
            except Exception as e:
                msg.append("tests: %s %s" % (e, x.stdout[-500:]))
        if checks is not None:
            prop = json.load(open("%s/seeded/%s/meta.json" % (ROOT, sid)))["property"]
            cs = checks or [prop]
            if cs == ["all"]:
                cs = [c["property"] for c in json.load(open(ROOT + "/MANIFEST.json"))["checks"]]
            for c in cs:
                env = dict(os.environ, SA_REPO=d, VERIF_TIER="quick", VERIF_SEED="1", SA_EVIDENCE="/tmp/plant/ev")
                r = sh("python3 -m sa.check %s --tier quick" % c, ROOT, env=env)
                v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
                ok = r.returncode == 1 and v
                det = [l for l in r.stdout.splitlines() if l.startswith("  ") or "program" in l][:2]
                msg.append("%s check %s rc=%d %s %s" % ("CAUGHT" if ok else "quiet", c, r.returncode,
                           len(v), " / ".join(x[:260] for x in det) if ok else
                           (r.stdout + r.stderr)[-300:] if r.returncode > 1 else ""))
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return msg


if __name__ == "__main__":
    a = sys.argv[1:]
    tests = "-t" in a
    checks = None
    if "-c" in a:
        checks = []
    if "-a" in a:
        checks = ["all"]
    ids = [x for x in a if not x.startswith("-")] or sorted(os.listdir(ROOT + "/seeded"))
    for sid in ids:
        print("==", sid)
        for m in one(sid, tests, checks):
            print("   ", m)
        sys.stdout.flush()
