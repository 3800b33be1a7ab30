"""Write MANIFEST.json from the checks that exist."""
import json, os, re, sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
from tools.levels import LEVELS, NA

ids = [json.loads(l)["id"] for l in open(os.path.join(ROOT, "properties.jsonl"))]
checks, na = [], []
for i in ids:
    f = os.path.join(ROOT, "rgcheck", "props", i.lower() + ".py")
    if i in NA:
        na.append({"property": i, "reason": NA[i]})
    elif os.path.exists(f):
        lv = re.search(r'^LEVEL = "(\w+)"', open(f).read(), re.M).group(1)
        t, note = LEVELS[i]
        checks.append({
            "property": i, "quick_cmd": f"python3-vt -m rgcheck {i}", "thorough_cmd": f"python3-vt -m rgcheck {i} --tier thorough",
            "technique": t, "level": lv, "level_note": note,
        })
    else:
        na.append({"property": i, "reason": "no check has been built for this property yet"})
m = {"version": 1, "setup_cmd": "python3-vt -m compileall -q rgcheck", "checks": checks, "not_applicable": na,
     "notes": "Static analysis of /repo/src/rigeo (and scripts, docs, pyproject for C17 and C23). Nothing of /repo is imported or executed: checks parse the source and interpret it over abstract domains. No hooks are needed in /repo."}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "n/a")
