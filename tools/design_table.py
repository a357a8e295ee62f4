#!/usr/bin/env python3
"""Writes the list of planted bugs into DESIGN.md."""
import json, pathlib, re, textwrap
root = pathlib.Path(__file__).resolve().parent.parent
by = {}
for m in sorted(root.glob("seeded/*/meta.json")):
    by.setdefault(json.loads(m.read_text())["property"], []).append(m.parent.name)
out = []
for p in sorted(by):
    out.append(textwrap.fill(f"* {p}: " + ", ".join(by[p]), 118, subsequent_indent="  ", break_on_hyphens=False))
p = root / "DESIGN.md"
s = p.read_text()
s = re.sub(r"<!-- plants -->.*<!-- /plants -->", lambda m: "<!-- plants -->\n" + "\n".join(out) + "\n<!-- /plants -->", s, flags=re.S)
p.write_text(s)
