"""Writes DESIGN.md: run `python3 tools/design.py` from /verif."""
import ast
import glob
import json
import os
import sys

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(here, "tools"))
from properties import P  # noqa
from design_notes import HOW, INTRO, QUIRKS, MISSED  # noqa

TECH = json.load(open(os.path.join(here, "tools", "techniques.json")))
known = json.load(open(os.path.join(here, "known_findings.json")))
results = json.load(open(os.path.join(here, "tools", "seeded_results.json")))
out = [INTRO]
for p in P:
    i = p["id"]
    f = os.path.join(here, "checks", i.lower() + ".py")
    consts = {}
    for n in ast.parse(open(f).read()).body:
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name):
            try:
                consts[n.targets[0].id] = ast.literal_eval(n.value)
            except ValueError:
                pass
    b = consts["BOUNDS"]
    t = results.get("_walls", {}).get(i)
    out.append("### %s %s\n" % (i, p["title"]))
    out.append("* Deciding method: %s." % TECH[i])
    out.append("* Specified / oracle: %s" % " ".join(HOW[i].split()))
    out.append("* Bounds, quick: %s." % b["quick"].rstrip("."))
    out.append("* Bounds, thorough: %s." % b["thorough"].rstrip("."))
    out.append("* Assumptions: %s." % "; ".join(consts.get("ASSUMPTIONS", ["none"])))
    out.append("* Beyond tests: %s" % p["why_tests_cant"])
    if t:
        out.append("* Cost: about %s s (quick) on 8 cores." % t)
    out.append("")
out.append("## Not applicable\n\nNone of the listed properties: every one of them is decided by enumeration on the real code, within bounds.\n")
out.append("## Defects found\n\nKnown findings (not repaired, `known_findings.json` lists the exact cases):\n")
out += ["* %s: %s (%d cases)%s" % (f["property"], f["what"], len(f["keys"]), ". " + f["why"] if f.get("why") else "") for f in known["findings"]]
out.append("\nRepaired in /repo, one commit each (the check of the property fails without it):\n")
out += ["* " + f.replace("fixed: ", "") if isinstance(f, str) else "* %s" % f for f in known["fixed"]]
out.append("\n" + QUIRKS)
out.append("## Planted bugs\n\nEach of `seeded/<id>` was written from a property's text and the code, confirmed to pass the existing tests, and run against the "
           "check of its property (quick tier).\n\n| bug | property | breaks | needs | first run | now |\n|---|---|---|---|---|---|")
for d in sorted(glob.glob(os.path.join(here, "seeded", "*", "meta.json"))):
    n = os.path.basename(os.path.dirname(d))
    m = json.load(open(d))
    out.append("| %s | %s | %s | %s | %s | %s |" % (n, m["property"], m["what_it_breaks"].replace("|", "/"), m["needs"].replace("|", "/"),
                                              "missed" if n in MISSED else "caught", results.get(n, "caught")))
out.append("")
open(os.path.join(here, "DESIGN.md"), "w").write("\n".join(out))
print(len(out), "lines")
