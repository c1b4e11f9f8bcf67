"""writes the per-property part of DESIGN.md from the harness modules (bounds, assumptions)"""
import ast
import json
import pathlib
import re

ROOT = pathlib.Path(__file__).resolve().parents[1]
out = []
for line in (ROOT / "properties.jsonl").read_text().splitlines():
    p = json.loads(line)
    f = ROOT / "props" / f"{p['id'].lower()}.py"
    if not f.exists():
        continue
    t = ast.parse(f.read_text())
    doc = ast.get_docstring(t)
    v = {"BOUNDS": "", "ASSUMPTIONS": []}
    for n in t.body:
        if isinstance(n, ast.Assign) and getattr(n.targets[0], "id", "") in v:
            v[n.targets[0].id] = ast.literal_eval(n.value)
    out.append(f"### {p['id']} {p['title']}\n\n{doc}\n\n"
               f"Bounds: {v['BOUNDS']}.\n")
    if v["ASSUMPTIONS"]:
        out.append("Assumed: " + "; ".join(v["ASSUMPTIONS"]) + ".\n")
d = ROOT / "DESIGN.md"
s = d.read_text()
a, b = "<!-- per property: tools/design.py -->\n", "<!-- end -->"
s = s[: s.index(a) + len(a)] + "\n" + "\n".join(out) + "\n" + s[s.index(b):]
d.write_text(s)
