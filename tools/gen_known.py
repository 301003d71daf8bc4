"""Regenerates the "fixed" list of known_findings.json from /repo's fix commits and tools/fixes.json."""
import json, os, subprocess
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
fx = json.load(open(R + "/tools/fixes.json"))
log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], capture_output=True, text=True).stdout
d = json.load(open(R + "/known_findings.json"))
d["fixed"] = []
for line in log.splitlines():
    h, s = line.split(" ", 1)
    if not s.startswith("fix: "):
        continue
    if s[5:] not in fx:
        print("UNMAPPED", s)
        continue
    for p in fx[s[5:]]:
        d["fixed"].append(f"fixed: property={p} {h} {s[5:]}")
json.dump(d, open(R + "/known_findings.json", "w"), indent=1)
