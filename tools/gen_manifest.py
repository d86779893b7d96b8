#!/usr/bin/env python3
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l)["id"] for l in open(V + "/properties.jsonl") if l.strip()]
na_f = V + "/tools/not_applicable.json"
na = json.load(open(na_f)) if os.path.exists(na_f) else {}
notes_f = V + "/tools/notes.json"
notes = json.load(open(notes_f)) if os.path.exists(notes_f) else {}
checks, nas = [], []
for p in props:
    if os.path.isdir("%s/contracts/%s" % (V, p)) and p not in na:
        checks.append({
            "property": p,
            "quick_cmd": "python3 tools/check.py " + p,
            "thorough_cmd": "VERIF_TIER=thorough python3 tools/check.py " + p,
            "technique": "contract-based deductive verification: verification conditions generated from the SSA form of /repo's current source, discharged by z3/cvc5",
            "level": "proof",
            "level_note": notes.get(p, "contracts on the real functions, every obligation discharged for all inputs; assumptions in the evidence file"),
        })
    else:
        nas.append({"property": p, "reason": na.get(p, "no contract written yet")})
m = {
    "version": 1,
    "setup_cmd": "python3 tools/setup.py",
    "checks": checks,
    "not_applicable": nas,
}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
open(V + "/MANIFEST.json", "a").write("\n")
