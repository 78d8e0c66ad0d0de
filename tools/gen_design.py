#!/usr/bin/env python3
"""Writes DESIGN.md from design_head.md and the planted bugs (not a check; run by hand)."""
import json, pathlib
root = pathlib.Path(__file__).resolve().parent.parent
out = (root / "tools/design_head.md").read_text().rstrip() + "\n\n"
tail = (root / "tools/design_tail.md")
rows = {}
for m in sorted((root / "seeded").glob("*/meta.json")):
    d = json.loads(m.read_text())
    rows.setdefault(d["property"], []).append((m.parent.name, d["needs"].replace("|", "\\|").replace("\n", " ")))
caught = json.loads((root / "tools/caught.json").read_text())
out += "| planted bug | needs | caught by |\n|---|---|---|\n"
for p in sorted(rows):
    for n, needs in rows[p]:
        out += "| %s | %s | %s |\n" % (n, needs, caught.get(n, p))
n = sum(map(len, rows.values()))
out += "\n%d planted bugs, %d caught by the check of their property.\n" % (n, sum(1 for p in rows for i, _ in rows[p] if caught.get(i, p).startswith(p)))
if tail.exists():
    out += "\n" + tail.read_text()
(root / "DESIGN.md").write_text(out)
