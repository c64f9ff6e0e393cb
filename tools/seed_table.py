"""Rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json."""
import json, os, glob
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for d in glob.glob(os.path.join(here, "seeded", "*", "meta.json")):
    m = json.load(open(d))
    rows.append((m["property"], os.path.basename(os.path.dirname(d)), m["needs"]))
rows.sort()
caught = os.path.join(here, "tools", "caught.json")
caught = json.load(open(caught)) if os.path.exists(caught) else {}
text = "| planted bug | property | needs | caught by |\n|---|---|---|---|\n"
for p, n, needs in rows:
    text += f"| {n} | {p} | {needs} | {', '.join(caught.get(n, [])) or 'not caught'} |\n"
path = os.path.join(here, "DESIGN.md")
body = open(path).read()
a, b = "<!-- planted -->\n", "<!-- /planted -->\n"
i, j = body.index(a) + len(a), body.index(b)
open(path, "w").write(body[:i] + text + body[j:])
