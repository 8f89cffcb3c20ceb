"""Regenerates the per-property table of DESIGN.md from properties and check modules (between the markers)."""
import importlib, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
rows = []
for line in open(f"{V}/properties.jsonl"):
    p = json.loads(line)
    m = importlib.import_module(f"mc.checks.{p['id'].lower()}")
    b = m.BOUNDS
    try:
        ev = json.load(open(f"{V}/evidence/{p['id']}.json"))
        cost = f"{ev['tier']}: {ev['coverage']['states']} states, {ev['coverage']['transitions']} transitions, {ev['coverage']['traces_validated_against_impl']} traces, {ev['wall_s']:.0f} s"
    except FileNotFoundError:
        cost = "-"
    rows.append(f"### {p['id']} {p['title']}\n\n*Explored:* {m.RULE}.\n\n*Bounds:* quick: {b['quick']}. Thorough: {b['thorough']}.\n\n"
                f"*Why tests cannot:* {p['why_tests_cant']}.\n\n*Last run on the unchanged tree:* {cost}.\n"
                + ("\n*Assumptions:* " + "; ".join(m.ASSUMPTIONS) + ".\n" if getattr(m, "ASSUMPTIONS", None) else ""))
a, z = "<!-- properties -->", "<!-- /properties -->"
s = open(f"{V}/DESIGN.md").read()
if a not in s:
    s += f"## The properties\n\n{a}\n{z}\n"
i, j = s.index(a) + len(a), s.index(z)
open(f"{V}/DESIGN.md", "w").write(s[:i] + "\n\n" + "\n".join(rows) + "\n" + s[j:])
