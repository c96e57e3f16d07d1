"""Writes DESIGN.md from tools/DESIGN.tmpl, known_findings.json and seeded/."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
t = open(os.path.join(V, "tools", "DESIGN.tmpl")).read()
k = json.load(open(os.path.join(V, "known_findings.json")))
f = ["| property | commit | what failed |", "|---|---|---|"]
for x in k["fixed"]:
    p, c, what = x[len("fixed: property="):].split(" ", 2)
    f.append("| %s | %s | %s |" % (p, c, what))
s = ["| planted bug | property | needs | caught by |", "|---|---|---|---|"]
d = os.path.join(V, "seeded")
notes = {}
p = os.path.join(V, "tools", "caught.json")
if os.path.exists(p):
    notes = json.load(open(p))
for i in sorted(os.listdir(d)):
    m = json.load(open(os.path.join(d, i, "meta.json")))
    s.append("| %s | %s | %s | %s |" % (i, m["property"], m["needs"].replace("|", "/"), notes.get(i, m["property"] + " quick")))
t = t.replace("@FINDINGS@", "\n".join(f)).replace("@SEEDS@", "\n".join(s))
open(os.path.join(V, "DESIGN.md"), "w").write(t)
