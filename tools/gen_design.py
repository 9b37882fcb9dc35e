#!/usr/bin/env python3
"""Refresh the generated parts of DESIGN.md: the table of planted bugs (from
seeded/*/meta.json and tools/matrix.txt) and the bounds (from evidence/*.json,
so run every quick check first)."""
import glob, json, os, re
os.chdir(os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
s = open("DESIGN.md").read()

def put(mark, text):
    global s
    begin, end = "<!-- %s -->" % mark, "<!-- end %s -->" % mark
    if end in s:
        s = re.sub(re.escape(begin) + ".*?" + re.escape(end), lambda m: begin + "\n" + text + end, s, flags=re.S)
    else:
        s = s.replace(begin, begin + "\n" + text + end)

caught = {}
if os.path.exists("tools/matrix.txt"):
    for line in open("tools/matrix.txt"):
        f = line.split()
        if len(f) >= 2:
            caught[f[0]] = " ".join(f[1:])
rows = ["| bug | property | needs | quick check |", "|---|---|---|---|"]
for p in sorted(glob.glob("seeded/*/meta.json")):
    m = json.load(open(p))
    name = p.split("/")[1]
    rows.append("| %s | %s | %s | %s |" % (name, m["property"], m["needs"].replace("|", "\\|"), caught.get(name, "")))
put("matrix", "\n" + "\n".join(rows) + "\n\n")

rows = ["| check | suite | bounds | cases | calls | s |", "|---|---|---|---|---|---|"]
for p in sorted(glob.glob("evidence/C*.json")):
    e = json.load(open(p))
    if e.get("tier") != "quick":
        continue
    for u in e["coverage"]["suites"]:
        rows.append("| %s | %s | %s | %d | %d | %.1f |" % (e["property"], u["name"], u["bounds"].replace("|", "\\|").replace("\n", " "), u["cases"], u["operations"], u["wall_s"]))
put("bounds", "\n" + "\n".join(rows) + "\n\n")
open("DESIGN.md", "w").write(s)
