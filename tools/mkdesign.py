"""Writes /verif/DESIGN.md: design_head.md plus tables from seeded/ and the registered sub-checks."""
import json
import os

here = os.path.dirname(os.path.abspath(__file__))
root = os.path.join(here, "..")
out = open(os.path.join(here, "design_head.md")).read()
missed = {}
p = os.path.join(here, "missed_first.txt")
if os.path.exists(p):
    for line in open(p):
        k, _, v = line.strip().partition(": ")
        missed[k] = v
rows = []
for d in sorted(os.listdir(os.path.join(root, "seeded"))):
    m = json.load(open(os.path.join(root, "seeded", d, "meta.json")))
    rows.append((m["property"], d, m["what_it_breaks"], m["needs"], missed.get(d, "")))
out += "\nAll are caught by the quick check of the property named.\n\n| property | change | breaks | needs | first missed; what was added |\n|---|---|---|---|---|\n"
out += "".join("| " + " | ".join(x.replace("|", "/") for x in r) + " |\n" for r in sorted(rows))
out += "\n## Sub-checks\n\nRule strings as reported in the evidence files.\n\n"
from registry import ALL

for p, x in ALL.items():
    out += "".join(f"* {p} `{n}`: {r}\n" for n, r in x)
open(os.path.join(root, "DESIGN.md"), "w").write(out)
