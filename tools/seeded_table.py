"""Rewrites the planted-bug table of DESIGN.md from seeded/*/meta.json (run by hand)."""
import glob, json, os, re
os.chdir(os.path.dirname(os.path.abspath(__file__)) + "/..")
rows = ["| change | property | what it breaks | needs | caught by |", "|---|---|---|---|---|"]
for p in sorted(glob.glob("seeded/*/meta.json"), key=lambda p: (json.load(open(p))["property"], p)):
    m = json.load(open(p))
    c = lambda s: s.replace("|", "/").replace("\n", " ")
    rows.append("| %s | %s | %s | %s | %s |" % (p.split("/")[1], m["property"], c(m["what_it_breaks"]), c(m["needs"]), m.get("caught_by", m["property"])))
s = open("DESIGN.md").read()
s = re.sub(r"(?s)<!-- seeded -->.*<!-- /seeded -->", lambda _: "<!-- seeded -->\n" + "\n".join(rows) + "\n<!-- /seeded -->", s)
open("DESIGN.md", "w").write(s)
