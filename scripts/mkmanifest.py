#!/usr/bin/env python3
"""Writes MANIFEST.json: every property of properties.jsonl is either claimed here or listed as not applicable."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ABS = "abstract interpretation of the SSA form in product with a specification automaton"
NOTE = ("Sound over-approximation of every input of any length: all paths of the current source are covered by the fixpoint, "
        "so a pass means no input breaks the rule. Trusts go/types, go/ssa, the models of standard library functions in checker/calls.go "
        "and the specification automata in checker/spec.go.")
claimed = {}
na = {}
exec(open(os.path.join(here, "scripts/claims.py")).read())
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
checks, notapp = [], []
for p in props:
    i = p["id"]
    if i in claimed:
        tech, note = claimed[i]
        checks.append({"property": i, "quick_cmd": f"bin/urncheck -prop {i}", "thorough_cmd": f"bin/urncheck -prop {i}",
                       "evidence_file": f"evidence/{i}.json", "technique": tech, "level": "other", "level_note": note})
    else:
        notapp.append({"property": i, "reason": na[i]})
m = {"version": 1, "setup_cmd": "bash build.sh", "checks": checks, "not_applicable": notapp,
     "notes": "One analyser (checker/) decides every claimed property from /repo's current source; see DESIGN.md. No hooks are needed in /repo."}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(here, "MANIFEST.json"), "a").write("\n")
