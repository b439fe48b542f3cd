"""Writes MANIFEST.json from properties.jsonl and the checks that exist in checks/."""
import glob
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {}
exec(open(os.path.join(V, "tools", "techniques.py")).read())
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in NOT_APPLICABLE or not glob.glob(os.path.join(V, "checks", i.lower() + "_*.py")):
        na.append({"property": i, "reason": NOT_APPLICABLE.get(i, "no check has been built for it in the time available")})
        continue
    tech, note = TECH[i]
    checks.append({
        "property": i,
        "quick_cmd": "./run.sh %s --tier quick" % i,
        "thorough_cmd": "./run.sh %s --tier thorough" % i,
        "technique": tech,
        "level": "model_checking",
        "level_note": note,
    })
m = {
    "version": 1,
    "setup_cmd": "./setup.sh",
    "checks": checks,
    "not_applicable": na,
    "notes": "All checks drive the real code of /repo's working tree; pytorch3d._C is rebuilt (git-ignored build "
             "products only) when any C++ source is newer than it. Known findings: known_findings.txt.",
}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
print(len(checks), "checks", len(na), "not claimed")
