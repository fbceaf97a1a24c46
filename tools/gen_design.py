"""Rewrites the "## Properties" section and the tables below it in DESIGN.md."""
import ast
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "tools"))
from design_notes import REMARKS, BUGS, CHAPTERS  # noqa: E402

NOTES = {}
exec(open(os.path.join(ROOT, "tools", "manifest_notes.py")).read())
known = json.load(open(os.path.join(ROOT, "known_findings.json")))


def consts(path):
    out = {}
    for n in ast.parse(open(path).read()).body:
        if isinstance(n, ast.Assign) and getattr(n.targets[0], "id", "") in ("RULE", "BOUNDS", "ASSUMPTIONS"):
            try:
                out[n.targets[0].id] = ast.literal_eval(n.value)
            except ValueError:
                out[n.targets[0].id] = ast.unparse(n.value)
    return out


def flat(v):
    if isinstance(v, dict):
        return ", ".join("%s: %s" % (k, w) for k, w in v.items())
    if isinstance(v, list):
        return "; ".join(v)
    return str(v)


text = open(os.path.join(ROOT, "DESIGN.md")).read()
head = text[:text.index("## Properties")]
out = [head + "## Properties\n", "Generated by tools/gen_design.py from the check modules, tools/design_notes.py and "
       "known_findings.json.\n"]
for line in open(os.path.join(ROOT, "properties.jsonl")):
    p = json.loads(line)
    i = p["id"]
    c = consts(os.path.join(ROOT, "checks", i.lower() + ".py"))
    level, tech, note = NOTES[i]
    out.append("### %s – %s\n" % (i, p["title"]))
    out.append("* **Method**: %s." % tech.rstrip("."))
    out.append("* **Enumerated**: %s." % flat(c["RULE"]).rstrip("."))
    b = c["BOUNDS"]
    out.append("* **Bounds**: quick – %s; thorough – %s.  (%s)" % (flat(b["quick"]), flat(b["thorough"]), note))
    if c.get("ASSUMPTIONS"):
        out.append("* **Assumptions**: %s." % flat(c["ASSUMPTIONS"]).rstrip("."))
    if REMARKS.get(i):
        out.append("* **Oracle and judgement**: %s" % " ".join(REMARKS[i].split()))
    fx = [f for f in known["fixed"] if "property=%s " % i in f]
    fd = [f for f in known["findings"] if f["property"] == i]
    if fx:
        out.append("* **Defects found and repaired** (%d): %s." % (len(fx), "; ".join(
            f.split(" ", 2)[2] for f in fx)))
    if fd:
        out.append("* **Known findings** (%d): %s." % (len(fd), "; ".join(f["what"] for f in fd)))
    bugs = [(k, v) for k, v in sorted(BUGS.items()) if i in v]
    if bugs:
        out.append("* **Planted changes**: %s." % "; ".join("`%s` %s" % (k, v[i]) for k, v in bugs))
    out.append("")
out.append(CHAPTERS)
with open(os.path.join(ROOT, "DESIGN.md"), "w") as f:
    f.write("\n".join(out).rstrip() + "\n")
