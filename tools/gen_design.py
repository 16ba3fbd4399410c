#!/usr/bin/env python3
"""writes DESIGN.md"""
import json, sys
from pathlib import Path
H = Path(__file__).resolve().parent
V = H.parent
sys.path[:0] = [str(H / "design"), str(V)]
from props import HOW
from harness.registry import REGISTRY
props = [json.loads(x) for x in (V / "properties.jsonl").read_text().splitlines()]
out = (H / "design" / "head.md").read_text()
for p in props:
    how, why, left = HOW[p["id"]]
    r = REGISTRY[p["id"]]
    out += f"### {p['id']} {p['title']}\n{how}\n*Bounds:* {r['bounds']}.\n*Beyond the tests:* {why}.\n"
    if left:
        out += f"*Not judged:* {left}.\n"
    if r.get("assumptions"):
        out += f"*Assumed:* {'; '.join(r['assumptions'])}.\n"
    out += "\n"
t = (H / "design" / "tail.md").read_text()
fx = json.loads((V / "known_findings.json").read_text())["fixed"]
t = t.replace("FIXES", "\n".join("* " + f[len("fixed: property="):] for f in fx))
rows = ["| bug | property | needs | breaks |", "|---|---|---|---|"]
for d in sorted((V / "seeded").iterdir()):
    m = json.loads((d / "meta.json").read_text())
    rows.append(f"| {d.name} | {m['property']} | {m['needs']} | {m['what_it_breaks']} |")
t = t.replace("SEEDS", "\n".join(rows))
(V / "DESIGN.md").write_text(out + t)
