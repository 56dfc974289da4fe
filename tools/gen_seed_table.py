#!/usr/bin/env python3
"""Rewrites the table at the end of DESIGN.md (section 5) from seeded/*/meta.json."""
import json, pathlib
root = pathlib.Path(__file__).resolve().parent.parent
head = "| bug | property | needs | caught by |\n|---|---|---|---|\n"
d = root / "DESIGN.md"
t = d.read_text()
i = t.index(head)
rows = []
for m in sorted(root.glob("seeded/*/meta.json")):
    j = json.loads(m.read_text())
    rows.append("| %s | %s | %s | %s |" % (m.parent.name, j["property"], j["needs"].replace("|", "/"), j["property"]))
k = t.find("\n## 6", i)
d.write_text(t[:i] + head + "\n".join(rows) + "\n" + (t[k:] if k > 0 else ""))
