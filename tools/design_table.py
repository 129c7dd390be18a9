#!/usr/bin/env python3
"""Rewrite the planted-bug table of DESIGN.md from seeded/*/meta.json."""
import json, pathlib, re
root = pathlib.Path(__file__).resolve().parent.parent
rows = ["| planted bug | caught by | needs |", "|---|---|---|"]
for d in sorted((root / "seeded").iterdir()):
    m = json.loads((d / "meta.json").read_text())
    rows.append(f"| {d.name} | {m.get('caught_by', m['property'])} | {' '.join(m['needs'].split())} |")
p = root / "DESIGN.md"
s = p.read_text()
s = re.sub(r"<!-- seeded-table -->.*?<!-- /seeded-table -->", lambda _: "<!-- seeded-table -->\n" + "\n".join(rows) + "\n<!-- /seeded-table -->", s, flags=re.S)
p.write_text(s)
