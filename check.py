#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough]: decides one property on /repo's current sources."""
import importlib, json, os, sys, time, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from fv.core import Ctx, Broken
from fv import facts


def known(prop):
    out = []
    p = os.path.join(HERE, "known-findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("known: property=%s " % prop):
                rest = line.split(" ", 2)[2]
                key, _, what = rest.partition(" :: ")
                out.append((key.strip(), what.strip()))
    return out


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t = time.time()
    ctx = Ctx(prop, tier, seed)
    try:
        m = importlib.import_module("fv.rules." + prop.lower())
        m.check(ctx)
    except Broken as e:
        print("ANALYSIS-BROKEN property=%s %s" % (prop, e))
        if not any(f.key() not in [k for k, _ in known(prop)] for f in ctx.findings):
            return 2
    except Exception:
        traceback.print_exc()
        print("ANALYSIS-BROKEN property=%s internal error" % prop)
        return 2
    kn = known(prop)
    new, old = [], []
    for f in ctx.findings:
        hit = [w for k, w in kn if k == f.key()]
        (old if hit else new).append((f, hit))
    cov = ctx.cov
    cov["functions_analysed"] = len(ctx.fnset) or cov["functions_analysed"]
    cov["explanation"] = (m.__doc__ or "").strip()
    cov["known_findings"] = [f.key() for f, _ in old]
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "other", "coverage": cov, "wall_s": round(time.time() - t, 2)}
    json.dump(ev, open(os.path.join(HERE, "evidence", prop + ".json"), "w"), indent=1)
    for f, hit in old:
        print("KNOWN-FINDING: property=%s %s %s" % (prop, f.key(), hit[0]))
    if new:
        rp = os.path.join(HERE, "evidence", prop + ".violations.json")
        json.dump([dict(rule=f.rule, construct=f.construct, message=f.msg, file=f.file, line=f.line) for f, _ in new], open(rp, "w"), indent=1)
        for f, _ in new:
            print("  %s" % f)
        print("VIOLATION property=%s replay=%s" % (prop, rp))
        return 1
    print("OK property=%s obligations=%d functions=%d %.1fs" % (prop, cov["obligations"], cov["functions_analysed"], time.time() - t))
    return 0


sys.exit(main())
