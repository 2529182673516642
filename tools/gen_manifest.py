#!/usr/bin/python3
"""Writes /verif/MANIFEST.json from the checks present in /verif/checks."""
import json, os
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
TECH = "TLA+ specification model-checked with TLC; its transitions replayed on the real code and recorded histories judged by TLC against the same actions"
notes = json.load(open(os.path.join(V, "tools", "notes.json"))) if os.path.exists(os.path.join(V, "tools", "notes.json")) else {}
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(V, "checks", i.lower() + ".py")):
        checks.append(dict(property=i, quick_cmd="VERIF_TIER=quick ./check " + i, thorough_cmd="VERIF_TIER=thorough ./check " + i,
                           evidence_file="evidence/%s.json" % i, technique=TECH, level="model_checking",
                           level_note=notes.get(i, "Exhaustive for the specification within small constants; the code is bound by "
                                      "per-transition replay and by validating seeded random histories, so it is sampled, not proved. "
                                      "Trusts TLC, Jython and the driver's projection through the public API.")))
    else:
        na.append(dict(property=i, reason="no check has been built for this property (yet)"))
json.dump(dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=na,
               hooks=dict(guard="none", enable="no hooks are needed: every observation uses the public API", source_commits=[]),
               notes="Run from /verif. See DESIGN.md."),
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
