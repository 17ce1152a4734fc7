"""writes the table of planted bugs into DESIGN.md, between its two marks"""
import glob, json, os, re
os.chdir(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
rows = ["<!-- planted -->", "| planted bug | what it breaks | caught by |", "|---|---|---|"]
for m in sorted(glob.glob("seeded/*/meta.json")):
    d = json.load(open(m))
    rows.append("| %s | %s | %s |" % (m.split("/")[1], d["what_it_breaks"].replace("|", "\\|"), d["property"]))
s = open("DESIGN.md").read()
t = "\n".join(rows + ["<!-- /planted -->"])
s = s.replace("@@TABLE@@", t) if "@@TABLE@@" in s else re.sub(r"<!-- planted -->.*?<!-- /planted -->", lambda _: t, s, flags=re.S)
open("DESIGN.md", "w").write(s)
