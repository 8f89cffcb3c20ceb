"""Regenerates the table of planted bugs in DESIGN.md from seeded/*/meta.json (between the markers)."""
import glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOT_CAUGHT: set[str] = set()
rows = ["| planted bug | property | needs | breaks | caught by |", "|---|---|---|---|---|"]
for f in sorted(glob.glob(f"{V}/seeded/*/meta.json")):
    n = f.split("/")[-2]
    m = json.load(open(f))
    by = "not caught" if n in NOT_CAUGHT else f"`bin/check {m['property']}` (quick)"
    rows.append(f"| {n} | {m['property']} | {m['needs']} | {m['what_it_breaks']} | {by} |")
a, z = "<!-- seeds -->", "<!-- /seeds -->"
s = open(f"{V}/DESIGN.md").read()
i, j = s.index(a) + len(a), s.index(z)
open(f"{V}/DESIGN.md", "w").write(s[:i] + "\n\n" + "\n".join(rows) + "\n\n" + s[j:])
