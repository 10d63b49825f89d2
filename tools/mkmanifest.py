"""Writes /verif/MANIFEST.json from the registry and the list of properties (run by hand after editing either)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from sa import registry
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
NA = registry.NOT_APPLICABLE
checks, na = [], []
for p in props:
    i = p["id"]
    if i in registry.RULES:
        m = registry.RULES[i][2]
        checks.append({
            "property": i,
            "quick_cmd": "python3 check.py %s" % i,
            "thorough_cmd": "python3 check.py %s --thorough" % i,
            "evidence_file": "evidence/%s.json" % i,
            "technique": m["technique"],
            "level": "other",
            "level_note": m["note"],
        })
    else:
        na.append({"property": i, "reason": NA.get(i, "no check yet: the rule is designed (DESIGN.md) but not built")})
json.dump({
    "version": 1,
    "setup_cmd": "python3 -m sa.facts native all",
    "checks": checks,
    "not_applicable": na,
    "notes": "No hooks in /repo. Every check rebuilds the compiler facts (MIR, types, impls) of /repo's current tree; they are cached by content hash under .build/.",
}, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
