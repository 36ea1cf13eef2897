"""Fills DESIGN.md's table of planted bugs from seeded/*/meta.json."""
import glob
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for f in glob.glob(ROOT + "/seeded/*/meta.json"):
    d = json.load(open(f))
    rows.append((d["property"], f.split("/")[-2], d["what_it_breaks"], d["needs"]))
t = ["| caught by | id | what it breaks | needs |", "|---|---|---|---|"] + ["| %s | `%s` | %s | %s |" % r for r in sorted(rows)]
s = open(ROOT + "/DESIGN.md").read()
a, b = "<!-- seeded-table -->", "<!-- /seeded-table -->"
i, j = s.index(a) + len(a), s.index(b)
open(ROOT + "/DESIGN.md", "w").write(s[:i] + "\n" + "\n".join(t) + "\n" + s[j:])
