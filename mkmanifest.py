#!/usr/bin/env python3
"""writes MANIFEST.json from the registry"""
import json, sys, os
HERE = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, os.path.join(HERE, "vc"))
import registry, assumptions
props = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "bash /verif/setup.sh", "checks": [], "not_applicable": []}
for p in props:
    if p in registry.PROPS:
        m["checks"].append({"property": p, "quick_cmd": "python3 /verif/check.py " + p, "thorough_cmd": "python3 /verif/check.py " + p,
            "technique": "contract-based deductive verification of the SSA form of the real code (SMT), with a labelled bounded replay search",
            "level": assumptions.LEVEL.get(p, "proof"), "level_note": "Proved: %s Bounded: %s" % (assumptions.PROVED.get(p, ""), assumptions.BOUNDED.get(p, ""))})
    else: m["not_applicable"].append({"property": p, "reason": registry.NOT_YET.get(p, "no contract for this property has been discharged yet")})
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
