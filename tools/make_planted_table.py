"""Markdown table of seeded/ for DESIGN.md. Catching checks are kept in tools/caught.json."""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
caught = json.load(open(os.path.join(H, "tools/caught.json")))
print("| planted bug | property | needs | caught by |\n|---|---|---|---|")
for d in sorted(os.listdir(os.path.join(H, "seeded"))):
    m = json.load(open(os.path.join(H, "seeded", d, "meta.json")))
    print("| %s | %s | %s | %s |" % (d, m["property"], m["needs"].strip().replace("|", "/"), ", ".join(caught.get(d, ["not run"])) or "MISSED"))
