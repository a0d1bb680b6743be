import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/tools")
import table
NA = {
    "P29": "collision and preimage resistance are computational-hardness statements about the construction; no analysis of the source can establish them (the parameter conditions that are visible in the source are P14 and P15)",
    "P30": "poseidon-paramgen is excluded from the workspace and does not type-check against the current poseidon-parameters, so there is no program to analyse; the tables it shipped are decided by P11 to P16",
    "P31": "machine-level running time is a property of the dependency's field arithmetic and the code generator, not of this source; the part visible in the source (no data-dependent branch or index) is P06",
}
ids = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
checks = []
for i in ids:
    if i in table.PROPS:
        m = table.PROPS[i]
        note = m["note"] + (" Assumes: " + "; ".join(m["assumptions"]) + "." if m["assumptions"] else "")
        checks.append(dict(property=i, quick_cmd=f"python3 check.py {i}", thorough_cmd=f"VERIF_TIER=thorough python3 check.py {i}", evidence_file=f"evidence/{i}.json", technique="static analysis: " + m["technique"], level=m["level"], level_note=note))
m = dict(version=1, setup_cmd="python3 check.py --setup", checks=checks, not_applicable=[dict(property=i, reason=NA[i]) for i in ids if i not in table.PROPS],
         notes="No hooks in /repo: the checks analyse the unmodified sources. Commits in /repo are repairs only (see known-findings.txt).")
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
open(V + "/MANIFEST.json", "a").write("\n")
