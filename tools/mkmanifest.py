#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.json and properties.jsonl."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
checks = json.load(open(here + "/checks.json"))
props = [json.loads(l) for l in open(here + "/properties.jsonl")]
TECH = "bounded symbolic execution of the repository's Go SSA with an SMT solver (z3, cvc5 fallback); counterexamples replayed natively"
NOTE = ("Holds for every input within the bounds listed in the evidence file (regenerated per run); nothing is claimed outside them. "
        "Trusts the SSA construction of golang.org/x/tools, the interpreter in /verif/gosym (cross-checked against native runs of sampled paths), "
        "the library models in /verif/harness/models and the solver.")
m = {"version": 1, "setup_cmd": "true", "checks": [], "not_applicable": []}
for p in props:
    if p["id"] in checks:
        c = checks[p["id"]]
        m["checks"].append({
            "property": p["id"],
            "quick_cmd": "./check.sh %s quick" % p["id"],
            "thorough_cmd": "./check.sh %s thorough" % p["id"],
            "technique": TECH,
            "level": c["level"],
            "level_note": (c.get("note", "") + " " + NOTE).strip(),
        })
    else:
        m["not_applicable"].append({"property": p["id"], "reason": "check not built yet"})
if os.environ.get("HOOKS"): m["hooks"] = json.loads(os.environ["HOOKS"])
json.dump(m, open(here + "/MANIFEST.json", "w"), indent=1)
open(here + "/MANIFEST.json", "a").write("\n")
