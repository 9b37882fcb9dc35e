#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and the registered checks."""
import glob, json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
src = "".join(open(f).read() for f in glob.glob(root + "/mc/checks/*.go"))
built = set(re.findall(r'\bID:\s+"(C\d\d)"', src))
notes = {}
exec(open(os.path.join(root, "tools", "notes.py")).read())
checks, na = [], []
for line in open(root + "/properties.jsonl"):
    p = json.loads(line)
    i = p["id"]
    if i in built:
        tech, note = notes[i]
        checks.append({"property": i,
                       "quick_cmd": "./check.sh %s quick" % i,
                       "thorough_cmd": "./check.sh %s thorough" % i,
                       "evidence_file": "evidence/%s.json" % i,
                       "technique": tech, "level": "model_checking", "level_note": note})
    else:
        na.append({"property": i, "reason": "no check has been built for this property yet"})
m = {"version": 1,
     "setup_cmd": "./setup.sh",
     "checks": checks, "not_applicable": na,
     "notes": "All checks run the real code of /repo's working tree through its exported interface; no hooks are needed. See DESIGN.md."}
json.dump(m, open(root + "/MANIFEST.json", "w"), indent=1)
open(root + "/MANIFEST.json", "a").write("\n")
print("claimed", len(checks), "unclaimed", len(na))
