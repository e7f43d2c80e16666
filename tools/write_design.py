"""DESIGN.md = tools/design_head.md + table of planted bugs (seeded/*/meta.json, tools/scores.json)."""
import json
import os

root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
scores = json.load(open(os.path.join(root, "tools", "scores.json")))
rows = ["| bug | needs | caught by |", "|---|---|---|"]
for b in sorted(os.listdir(os.path.join(root, "seeded"))):
    m = json.load(open(os.path.join(root, "seeded", b, "meta.json")))
    s = scores.get(b, "not scored")
    rows.append(f"| {b} | {m['needs']} | {m['property'] if s.startswith('caught') else ''} {s} |")
with open(os.path.join(root, "DESIGN.md"), "w") as f:
    f.write(open(os.path.join(root, "tools", "design_head.md")).read() + "\n".join(rows) + "\n")
