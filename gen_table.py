#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json, pathlib
root = pathlib.Path(__file__).resolve().parent
rows = ["| bug | check | what it needs | what it breaks |", "|---|---|---|---|"]
for m in sorted((root / "seeded").glob("*/meta.json")):
    d = json.loads(m.read_text())
    first = " **first missed:** " + d["first_missed"] if d.get("first_missed") else ""
    rows.append(f"| {m.parent.name} | {d['property']} | {d['needs']} | {d['what_it_breaks']}{first} |")
p = root / "DESIGN.md"
s = p.read_text()
a, b = s.index("<!-- table -->"), s.index("<!-- /table -->")
p.write_text(s[:a] + "<!-- table -->\n" + "\n".join(rows) + "\n" + s[b:])
