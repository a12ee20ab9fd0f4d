"""Rewrites the table of planted bugs in DESIGN.md (documentation only)."""
import glob, json, os, re
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for f in sorted(glob.glob(R + "/seeded/*/meta.json")):
    d = json.load(open(f))
    rows.append("| %s | %s | %s | %s | %s |" % (f.split("/")[-2], d["property"], d["needs"], d["what_it_breaks"], d.get("caught", d["property"])))
t = "<!-- table -->\n| bug | property | needs | breaks | caught by |\n|---|---|---|---|---|\n" + "\n".join(rows) + "\n<!-- end -->"
p = R + "/DESIGN.md"
s = open(p).read()
s = re.sub(r"CATCHTABLE|<!-- table -->.*?<!-- end -->", lambda m: t, s, flags=re.S)
open(p, "w").write(s)
