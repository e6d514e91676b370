"""Writes /verif/MANIFEST.json from the checks present in /verif/checks."""
import json, os, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
TECH = {}
exec(open(os.path.join(here, "vlib", "techniques.py")).read())
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(here, "checks", i.lower() + ".py")):
        t, note = TECH.get(i, ("reference-model monitor over the real code", "Exploration: held on the executions produced, with the oracle named in DESIGN.md."))
        checks.append(dict(property=i, quick_cmd=f"./run.sh {i} quick", thorough_cmd=f"./run.sh {i} thorough",
                           technique="runtime monitoring: " + t, level="exploration", level_note=note))
    else:
        na.append(dict(property=i, reason=NA.get(i, "no check built yet; nothing is claimed")))
m = dict(version=1, setup_cmd="bash setup.sh",
         hooks=dict(guard="VERIF_SCRATCH", enable="no source hooks: the monitors wrap the public API from /verif; nothing in /repo is guarded", source_commits=[]),
         checks=checks, not_applicable=na,
         notes="All checks import the code from /repo's working tree (pure Python, no build products) with a private byte-code cache; see DESIGN.md.")
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
