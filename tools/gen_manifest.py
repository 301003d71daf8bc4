"""Writes /verif/MANIFEST.json from the check modules present."""
import json, os
R = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
props = [json.loads(l) for l in open(os.path.join(R, "properties.jsonl"))]
TECH = json.load(open(os.path.join(R, "tools", "technique.json")))
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(R, "lib", "checks", i.lower() + ".py")) and i in TECH:
        checks.append(dict(property=i, quick_cmd=f"./check {i} quick", thorough_cmd=f"./check {i} thorough",
                           technique="property-based testing: " + TECH[i][0], level="exploration",
                           level_note=TECH[i][1], evidence_file=f"evidence/{i}.json"))
    else:
        na.append(dict(property=i, reason="check not built yet"))
json.dump(dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=na,
               notes="Pure-Python checks import qadence from /repo's working tree; nothing to build. See DESIGN.md."),
          open(os.path.join(R, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed;", len(na), "not")
