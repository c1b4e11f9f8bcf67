"""Fills the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import glob, json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| bug | caught by | what it breaks | needs |", "|---|---|---|---|"]
for f in sorted(glob.glob(root + "/seeded/*/meta.json")):
    d = json.load(open(f))
    i = os.path.basename(os.path.dirname(f))
    c = lambda t: re.sub(r"\s+", " ", t).replace("|", "/")
    rows.append(f"| {i} | {d['property']} | {c(d['what_it_breaks'])} | {c(d['needs'])} |")
p = root + "/DESIGN.md"
s = open(p).read()
h = "## Planted bugs (`seeded/`) and the checks that catch them\n\n"
a = s.index(h) + len(h)
open(p, "w").write(s[:a] + "\n".join(rows) + "\n")
