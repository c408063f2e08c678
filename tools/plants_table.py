#!/usr/bin/python3
"""prints the table of planted bugs in DESIGN.md; with --update, rewrites it there"""
import glob, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
t = ["| planted bug | caught by | needs | breaks |", "|---|---|---|---|"]
for f in sorted(glob.glob(V + "/seeded/*/meta.json")):
    d = json.load(open(f))
    t.append("| %s | %s | %s | %s |" % (f.split("/")[-2], d.get("caught", d["property"]), d["needs"], d["what_it_breaks"]))
t = "\n".join(t)
if "--update" in sys.argv:
    p = V + "/DESIGN.md"
    s = open(p).read()
    a, b = "<!-- planted -->\n", "\n<!-- /planted -->"
    open(p, "w").write(s[:s.index(a) + len(a)] + t + s[s.index(b):])
else:
    print(t)
