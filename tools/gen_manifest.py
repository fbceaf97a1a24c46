"""Writes /verif/MANIFEST.json from the checks that exist."""
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "tools"))
NOT_APPLICABLE = {}
NOTES = {}
exec(open(os.path.join(ROOT, "tools", "manifest_notes.py")).read())
checks, na = [], []
for line in open(os.path.join(ROOT, "properties.jsonl")):
    p = json.loads(line)["id"]
    if os.path.exists(os.path.join(ROOT, "checks", p.lower() + ".py")) and p not in NOT_APPLICABLE:
        level, tech, note = NOTES[p]
        checks.append({"property": p, "quick_cmd": "bash run.sh %s quick" % p,
                       "thorough_cmd": "bash run.sh %s thorough" % p,
                       "evidence_file": "evidence/%s.json" % p,
                       "technique": tech, "level": level, "level_note": note})
    else:
        na.append({"property": p, "reason": NOT_APPLICABLE.get(p, "check not built yet")})
doc = {"version": 1, "setup_cmd": "bash run.sh --build", "checks": checks, "not_applicable": na,
       "notes": "No hooks in /repo: the explorer owns the random draws and clock of the C++ core by "
                "link-level interposition (shim/mcrand.cpp, LD_PRELOAD) on the unchanged sources."}
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(doc, f, indent=1)
    f.write("\n")
print(len(checks), "checks", len(na), "not applicable")
