#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the properties and plans."""
import json, os, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(here, "tools"))
import plans
props = [json.loads(l)["id"] for l in open(os.path.join(here, "properties.jsonl"))]
NOTE = ("Held on every execution the workloads produced, in a build with debug assertions and overflow checks and in a release build; "
        "nothing is claimed about executions not produced. Trusts the reference model and rustc.")
TECH = "runtime monitoring: every call of the real code is shadowed by a reference model, over exhaustive small spaces and random histories"
checks = []
for p in props:
    if p not in plans.PLANS:
        continue
    pl = plans.PLANS[p]
    checks.append({"property": p, "quick_cmd": f"python3 check.py {p}", "thorough_cmd": f"VERIF_TIER=thorough python3 check.py {p}",
                   "technique": pl.get("technique") or TECH, "level": "exploration", "level_note": pl.get("note") or NOTE})
m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks,
     "not_applicable": [{"property": p, "reason": "check not built yet"} for p in props if p not in plans.PLANS],
     "notes": "No hooks in /repo: the public API is enough. Repairs of genuine defects are the fix: commits in /repo, listed in known_findings.txt."}
with open(os.path.join(here, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
