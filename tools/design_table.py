#!/usr/bin/env python3
"""Rewrite the planted-bug table at the end of DESIGN.md from seeded/*/meta.json and tools/plant_notes.json."""
import json
from pathlib import Path
H = Path(__file__).resolve().parent.parent
notes = json.loads((H / "tools/plant_notes.json").read_text())
rows = ["| planted change | property | needs | caught by | note |", "|---|---|---|---|---|"]
for d in sorted((H / "seeded").iterdir()):
    m = json.loads((d / "meta.json").read_text())
    n = notes.get(d.name, {})
    rows.append(f"| {d.name} | {m['property']} | {m['needs']} | {n.get('by', m['property'])} | {n.get('note', '')} |")
t = (H / "DESIGN.md").read_text()
head = t.split("<!-- table -->")[0]
(H / "DESIGN.md").write_text(head + "<!-- table -->\n" + "\n".join(rows) + "\n")
