"""Writes MANIFEST.json from the check modules: run `python3 tools/manifest.py` from /verif."""
import ast
import json
import os
import sys

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(here, "tools"))
from properties import P  # noqa

TECH = json.load(open(os.path.join(here, "tools", "techniques.json")))
checks, missing = [], []
for p in P:
    f = os.path.join(here, "checks", p["id"].lower() + ".py")
    if not os.path.exists(f):
        missing.append({"property": p["id"], "reason": "no check is built yet"})
        continue
    mod = ast.parse(open(f).read())
    consts = {}
    for n in mod.body:
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name):
            try:
                consts[n.targets[0].id] = ast.literal_eval(n.value)
            except ValueError:
                pass
    t = TECH[p["id"]]
    checks.append({"property": p["id"], "quick_cmd": "./check %s quick" % p["id"],
                   "thorough_cmd": "./check %s thorough" % p["id"],
                   "evidence_file": "evidence/%s.json" % p["id"],
                   "technique": t, "level": "model_checking",
                   "level_note": ("Exhaustive within the stated bounds, on the real code: %s. Says nothing beyond the bounds. Trusts: the "
                                  "reference model in checks/%s.py; %s" % (consts.get("BOUNDS", {}).get("quick", ""), p["id"].lower(),
                                                                         "; ".join(consts.get("ASSUMPTIONS", [])))).strip()})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": missing,
     "notes": "Every check drives the real code imported from /repo's working tree (no hooks are needed, no build is cached). "
              "./check <id> <tier> --replay evidence/replay/<id>.json re-runs just the tasks that failed."}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(missing), "missing")
