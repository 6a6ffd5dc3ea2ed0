#!/usr/bin/env python3
"""check.py PROPERTY: decide one property of /repo's current tree by static analysis."""
import importlib
import json
import os
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
sys.path.insert(0, os.path.join(VERIF, "analysis"))
import core  # noqa: E402

KNOWN = os.path.join(VERIF, "known_findings.txt")


def known_findings(prop):
    """{key: text} of the findings recorded for a property ('fixed:' lines suppress nothing)"""
    out = {}
    if not os.path.exists(KNOWN):
        return out
    for line in open(KNOWN, encoding="utf-8"):
        line = line.rstrip("\n")
        if not line.startswith("finding: property=%s " % prop):
            continue
        rest = line.split(" ", 2)[2]
        key, _, text = rest.partition(" :: ")
        out[key.strip()] = text.strip()
    return out


def main():
    prop = sys.argv[1]
    facts = None
    tier = os.environ.get("VERIF_TIER", "quick")
    for a in sys.argv[2:]:
        if a.startswith("--facts="):
            facts = a[8:]
        elif a in ("quick", "thorough"):
            tier = a
    t0 = time.time()
    own = facts is None
    if own:
        facts = core.extract()
    try:
        mod = importlib.import_module("checks." + prop.lower())
        ctx = core.Ctx(prop, tier, facts)
        try:
            mod.run(ctx)
        except core.Broken:
            raise
        except Exception as e:
            # what was decided before still counts; the rest is open, and said to be
            traceback.print_exc()
            ctx.undec("the analysis", "%s: %s" % (type(e).__name__, e))
    finally:
        if own:
            try:
                os.unlink(facts)
            except OSError:
                pass
    known = known_findings(prop)
    bad = {}
    for key, ok, detail in ctx.obs:
        if not ok:
            bad.setdefault(key, detail)
    violations = {k: d for k, d in bad.items() if k not in known}
    for k in bad:
        if k in known:
            print("KNOWN-FINDING: property=%s %s: %s" % (prop, k, known[k]))
    n = len(ctx.obs)
    floor = getattr(mod, "FLOOR", 1)
    if n < floor:
        ctx.undec("obligations", "only %d obligations were formed, %d expected" % (n, floor))
    for w, y in ctx.undecided:
        print("UNDECIDED %s: %s" % (w, y))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    samples = []
    seen = set()
    for key, ok, detail in ctx.obs:
        h = key.split("|")[0]
        if h in seen and len(samples) > 10:
            continue
        seen.add(h)
        samples.append({"obligation": key, "holds": ok, "detail": str(detail)[:300]})
        if len(samples) >= 25:
            break
    ev = {
        "property": prop,
        "tier": tier,
        "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
        "level": getattr(mod, "LEVEL", "other"),
        "coverage": {
            "explanation": mod.__doc__.strip(),
            "rule": getattr(mod, "RULE", mod.__doc__.strip().splitlines()[0]),
            "obligations": n,
            "discharged": sum(1 for _, ok, _ in ctx.obs if ok),
            "distinct_obligations": len({k for k, _, _ in ctx.obs}),
            "undecided": len(ctx.undecided),
            "undecided_list": [list(u) for u in ctx.undecided[:20]],
            "functions_analysed": len(set(ctx.analysed)),
            "basic_blocks_interpreted": ctx.blocks,
            "functions": sorted(set(ctx.analysed))[:400],
            "samples": samples,
            "known_findings_seen": sorted(k for k in bad if k in known),
            "violations": sorted(violations),
            "trusted_base": "the rustc front end and MIR builder, the documented behaviour of core/alloc/chrono/nom functions as modelled in analysis/models.py and analysis/nommodel.py",
        },
        "wall_s": round(time.time() - t0, 3),
    }
    ev["coverage"].update(ctx.notes)
    path = os.path.join(VERIF, "evidence", prop + ".json")
    with open(path, "w", encoding="utf-8") as f:
        json.dump(ev, f, indent=1, default=str)
        f.write("\n")
    if violations:
        rep = os.path.join(VERIF, "evidence", prop + ".violation.txt")
        with open(rep, "w", encoding="utf-8") as f:
            for k, d in violations.items():
                f.write("%s\n    %s\n" % (k, d))
        for k, d in list(violations.items())[:20]:
            print("  %s\n    %s" % (k, str(d)[:600]))
        print("VIOLATION property=%s replay=%s" % (prop, rep))
        return 1
    print("OK property=%s obligations=%d functions=%d undecided=%d %.1fs"
          % (prop, n, len(set(ctx.analysed)), len(ctx.undecided), time.time() - t0))
    return 0


if __name__ == "__main__":
    try:
        rc = main()
    except core.Broken as e:
        print("ERROR %s" % e)
        rc = 2
    except Exception:
        traceback.print_exc()
        rc = 3
    sys.exit(rc)
