"""note.py fixed PROP SHA TEXT | note.py finding PROP KEY TEXT: maintains known_findings.json (by hand, never at run time)."""
import json
import os
import sys
p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known_findings.json")
d = json.load(open(p))
kind, prop, key, text = sys.argv[1:5]
if kind == "fixed":
    d["fixed"].append("fixed: property=%s %s %s" % (prop, key, text))
else:
    d["findings"].append({"property": prop, "key": key, "what": text})
json.dump(d, open(p, "w"), indent=1)
open(p, "a").write("\n")
