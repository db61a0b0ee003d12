"""DESIGN.md = tools/design_head.md + table of the planted changes (seeded/*/meta.json) + tools/design_tail.md"""
import json
import os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = os.path.join(R, "seeded")
ids = sorted(os.listdir(S))
rows = []
for i in ids:
    m = json.load(open(os.path.join(S, i, "meta.json")))
    rows.append("| %s | %s | %s | %s |" % (i, m["what_it_breaks"].replace("|", "/"), m["needs"].replace("|", "/"), m["property"]))
try:
    note = open(os.path.join(R, "tools", "seeded_note.md")).read()
except IOError:
    note = ""
out = open(os.path.join(R, "tools", "design_head.md")).read()
out += "## 6. Planted changes\n\n%d changes, written from the properties' text and the code, each confirmed in a scratch copy (builds, stable tests pass, demo fails with it and passes without).\n%s\n" % (len(ids), note)
out += "| change | breaks | needs | caught by |\n|---|---|---|---|\n" + "\n".join(rows) + "\n"
out += open(os.path.join(R, "tools", "design_tail.md")).read()
open(os.path.join(R, "DESIGN.md"), "w").write(out)
