"""DESIGN.md = tools/design_head.md + the table of planted changes"""
import glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| planted | breaks | what it does | needs | caught by |", "|---|---|---|---|---|"]
missed = json.load(open(os.path.join(V, "tools", "caught.json")))
for d in sorted(glob.glob(os.path.join(V, "seeded", "*", ""))):
    m, i = json.load(open(d + "meta.json")), os.path.basename(d[:-1])
    f = lambda s: s.replace("|", "\\|")
    rows.append("| %s | %s | %s | %s | %s |" % (i, m["property"], f(m["what_it_breaks"]), f(m["needs"]), missed.get(i, m["property"])))
open(os.path.join(V, "DESIGN.md"), "w").write(open(os.path.join(V, "tools", "design_head.md")).read() + "\n".join(rows) + "\n")
