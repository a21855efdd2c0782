#!/usr/bin/env python3
"""Write MANIFEST.json from properties.jsonl and the existing checks."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(x) for x in open(os.path.join(HERE, "properties.jsonl"))]
checks, na = [], []
for p in props:
    f = os.path.join(HERE, "checks", p["id"].lower() + ".py")
    if os.path.exists(f):
        checks.append({
            "property": p["id"],
            "quick_cmd": f"./check.sh {p['id']} quick",
            "thorough_cmd": f"./check.sh {p['id']} thorough",
            "evidence_file": f"evidence/{p['id']}.json",
            "technique": "property-based testing (Hypothesis generators with shrinking, explicit oracle / reference model)",
            "level": "exploration",
            "level_note": "Held on every generated case of the run (counts and samples in the evidence file); "
                          "cases outside the generated space are not covered. Trusts numpy/scipy/pandas used by the oracle.",
        })
    else:
        na.append({"property": p["id"], "reason": "no check has been built for this property yet"})
m = {
    "version": 1,
    "setup_cmd": "true",
    "hooks": {"guard": "VH_HOOKS", "enable": "no hooks are needed: the checks import /repo's working tree directly",
              "source_commits": []},
    "checks": checks,
    "not_applicable": na,
    "notes": "Every check imports datafold from /repo's working tree (pure Python, nothing to build).",
}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed,", len(na), "not")
