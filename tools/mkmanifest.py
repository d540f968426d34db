"""Writes /verif/MANIFEST.json from the scenarios present."""
import json, os, re
V = "/verif"
NOTES = json.load(open(f"{V}/tools/levels.json"))
NA = {
 "C16": "Pure functions of group elements and fields: no schedule, clock, fault, stored state or interleaving for a simulator to control. (Group integration over interrupted histories is C11.)",
 "C17": "Pure functions of one field configuration; nothing is scheduled, stored or can fail part-way.",
 "C18": "Pure functions of weights and inputs; equivariance is algebra with no schedule, clock or fault in it. (Their use inside flows is exercised by C09/C14/C15 histories.)",
 "C19": "A pure, stateless change of representation with no multi-step history.",
 "C20": "Stateless estimators and shape arithmetic on an array.",
}
props = [json.loads(l) for l in open(f"{V}/properties.jsonl")]
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(f"{V}/dst/p_{i.lower()}.py"):
        t, n = NOTES[i]
        checks.append(dict(property=i, quick_cmd=f"./check.sh {i} quick", thorough_cmd=f"./check.sh {i} thorough",
                           evidence_file=f"evidence/{i}.json", technique=t, level="exploration", level_note=n))
    else:
        na.append(dict(property=i, reason=NA.get(i, "not built yet")))
json.dump(dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=na,
               notes="No hooks in /repo: every seam used already exists (module-level jax.random functions, diffrax.UnsafeBrownianPath, sys.settrace, user callbacks)."),
          open(f"{V}/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks", len(na), "n/a")
