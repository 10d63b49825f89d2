#!/usr/bin/env python3
"""check.py <property> : decides one property on /repo's current tree."""
import importlib, json, os, sys, time, traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
from sa.common import Report, known_findings, FactsError, VERIF
from sa import registry


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in sys.argv:
        tier = "thorough"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    mod, fn, meta = registry.RULES[pid]
    R = Report(pid, tier)
    try:
        getattr(importlib.import_module("sa.rules." + mod), fn)(R, tier)
    except FactsError as e:
        R.bad("build", "the tree could not be analysed: %s" % e)
    except Exception:
        R.bad("internal", "the analysis failed: " + traceback.format_exc())
    kn = known_findings(pid)
    new = {k: m for k, m in R.viol.items() if k not in kn}
    old = {k: m for k, m in R.viol.items() if k in kn}
    for k in old:
        print("KNOWN-FINDING: property=%s %s" % (pid, kn[k]))
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "other",
        "coverage": {
            "explanation": meta["explain"],
            "rules": R.rules,
            "functions_analysed": len(R.fnset),
            "obligations": R.obl,
            "discharged": R.dis,
            "counts": R.counts,
            "functions": sorted(R.fnset)[:400],
            "samples": R.samples,
            "known_findings": sorted(old.values()),
            "notes": R.notes,
        },
        "violations": len(new),
        "assumptions": meta.get("assume", ["single-threaded reading of each function; standard-library behaviour as modelled in sa/models.py"]),
        "wall_s": round(time.time() - R.t0, 2),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    rep = os.path.join(VERIF, "evidence", pid + ".violations.txt")
    if os.path.exists(rep):
        os.unlink(rep)
    if new:
        with open(rep, "w") as f:
            for k, m in sorted(new.items()):
                f.write("[%s] %s\n" % (k, m))
        for k, m in sorted(new.items()):
            print("  [%s] %s" % (k, m))
        print("VIOLATION property=%s replay=%s" % (pid, rep))
        sys.stdout.flush()
        os._exit(1)
    print("%s: held (%d obligations, %d functions, %.1f s)" % (pid, R.obl, len(R.fnset), time.time() - R.t0))
    sys.stdout.flush()
    os._exit(0)


if __name__ == "__main__":
    main()
