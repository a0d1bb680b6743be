"""Rewrite the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
# seeded-script: patches to the Sage script, which is not source code in a language vcheck knows
for d, i in sorted((d, i) for d in ("seeded", "seeded-script") for i in os.listdir(f"{V}/{d}")):
    m = json.load(open(f"{V}/{d}/{i}/meta.json"))
    rows.append((m["property"], i, m["needs"]))
rows.sort()
s = open(V + "/DESIGN.md").read()
t = "".join(f"| {p} | {i} | {n} |\n" for p, i, n in rows)
s, n = re.subn(r"(\|-+\|-+\|-+\|\n)((?:\| P\d\d \| [a-z][a-z0-9-]* \|[^\n]*\n)+)", lambda m: m.group(1) + t, s)
assert n == 1, n
open(V + "/DESIGN.md", "w").write(s)
