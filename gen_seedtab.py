"""append the planted-bug table to DESIGN.md (everything after its header line is regenerated)"""
import glob, json, os
p = os.path.dirname(os.path.abspath(__file__))
s = open(p + "/DESIGN.md").read()
h = "| seeded bug | property | caught by |\n|---|---|---|\n"
s = s[:s.index(h) + len(h)]
res = json.load(open(p + "/seedtab.json")) if os.path.exists(p + "/seedtab.json") else {}
for d in sorted(glob.glob(p + "/seeded/*/meta.json")):
    i = os.path.basename(os.path.dirname(d))
    m = json.load(open(d))
    s += "| %s: %s | %s | %s |\n" % (i, m["what_it_breaks"], m["property"], res.get(i, "check " + m["property"]))
open(p + "/DESIGN.md", "w").write(s)
