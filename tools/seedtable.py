#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json (documentation only, no check reads it)."""
import json, pathlib, re
root = pathlib.Path(__file__).resolve().parent.parent
rows = ["| planted bug | caught by (quick) | needs | breaks |", "|---|---|---|---|"]
for d in sorted((root / "seeded").iterdir()):
    m = json.loads((d / "meta.json").read_text())
    rows.append(f"| {d.name} | {m['property']} | {m['needs']} | {m['what_it_breaks']} |")
p = root / "DESIGN.md"
t = p.read_text()
t = re.sub(r"<!-- seeds -->.*<!-- /seeds -->", lambda _: "<!-- seeds -->\n" + "\n".join(rows) + "\n<!-- /seeds -->", t, flags=re.S)
p.write_text(t)
