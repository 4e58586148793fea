"""Rewrites the table of planted bugs at the end of DESIGN.md."""
import json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
caught = {}
p = os.path.join(root, "tools", "caught.txt")
if os.path.exists(p):
    for l in open(p):
        if l.strip():
            k, v = l.rstrip("\n").split("\t", 1)
            caught[k] = v
rows = ["| bug | property | needs | found by |", "|---|---|---|---|"]
for d in sorted(os.listdir(os.path.join(root, "seeded"))):
    m = json.load(open(os.path.join(root, "seeded", d, "meta.json")))
    rows.append(f"| {d} | {m['property']} | {m['needs']} | {caught.get(d, m['property'])} |")
f = os.path.join(root, "DESIGN.md")
t = open(f).read()
head = t[: t.index("## Planted bugs")]
intro = re.search(r"## Planted bugs\n\n(.*?)\n\n", t[t.index("## Planted bugs"):] + "\n\n", re.S).group(0)
open(f, "w").write(head + intro.rstrip() + "\n\n" + "\n".join(rows) + "\n")
