"""Entry point: python3 -m sa.check C01 [--tier quick|thorough]

exit 0: property held on everything analysed (known findings are printed)
exit 1: VIOLATION line
exit 2: analysis broken (no verdict)
"""
import argparse
import importlib
import json
import os
import sys
import time
import traceback

from .model import AnalysisBroken

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(ROOT, "known-findings.txt")


class Ctx:
    """What a rule reports."""

    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.violations = {}      # key -> message
        self.counts = {}
        self.lists = {}
        self.notes = []
        self.broken = []
        self.assumptions = []

    def violation(self, key, msg):
        self.violations.setdefault(key, msg)

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def need(self, name, minimum, what=None):
        """Anti-vacuity: the analysis has no verdict when a rule matched too little."""
        if self.counts.get(name, 0) < minimum:
            self.broken.append("%s: %d analysed, at least %d expected%s" % (
                name, self.counts.get(name, 0), minimum, " (%s)" % what if what else ""))


def known_findings(prop):
    out = {}
    if not os.path.exists(KNOWN):
        return out
    for line in open(KNOWN):
        line = line.strip()
        if not line.startswith("known:"):
            continue
        head, _, desc = line[len("known:"):].partition("::")
        p, _, key = head.strip().partition(" ")
        if p == "property=" + prop:
            out[key.strip()] = desc.strip()
    return out


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args(argv)
    tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    t0 = time.time()
    ctx = Ctx(a.prop, tier)
    mod = importlib.import_module("sa.rules." + a.prop.lower())
    try:
        mod.run(ctx)
    except AnalysisBroken as e:
        ctx.broken.append(str(e))
    except Exception:
        traceback.print_exc()
        ctx.broken.append("internal error")
    known = known_findings(a.prop)
    seen_known, viol = [], []
    for key in sorted(ctx.violations):
        (seen_known if key in known else viol).append(key)
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    wall = round(time.time() - t0, 2)
    ev = {"property": a.prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
          "level": getattr(mod, "LEVEL", "other"),
          "coverage": {"explanation": mod.EXPLANATION, "rule": mod.RULE,
                       **ctx.counts, **{k: v for k, v in ctx.lists.items()}},
          "wall_s": wall}
    if ctx.notes:
        ev["coverage"]["notes"] = ctx.notes[:60]
    ev["assumptions"] = list(getattr(mod, "ASSUMPTIONS", [])) + ctx.assumptions
    ev["violations"] = len(viol)
    ev["coverage"]["violation_keys"] = viol[:40]
    ev["coverage"]["known_findings"] = seen_known
    with open(os.path.join(ROOT, "evidence", a.prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    for k in seen_known:
        print("KNOWN-FINDING: property=%s %s" % (a.prop, known[k] or k))
        if a.v:
            print("   ", ctx.violations[k])
    if viol:
        rp = os.path.join(ROOT, "evidence", a.prop + ".violations.txt")
        with open(rp, "w") as f:
            for k in viol:
                f.write("%s\n    %s\n" % (k, ctx.violations[k]))
        for k in viol[:40]:
            print("%s\n    %s" % (k, ctx.violations[k]))
        print("VIOLATION property=%s replay=%s" % (a.prop, rp))
        return 1
    if ctx.broken:
        for b in ctx.broken:
            print("ANALYSIS-BROKEN property=%s %s" % (a.prop, b))
        return 2
    print("property %s: no violation; %s (%.1fs)" % (
        a.prop, ", ".join("%s=%s" % kv for kv in ctx.counts.items()), wall))
    return 0


if __name__ == "__main__":
    sys.exit(main())
