#!/usr/bin/env python3
"""Regenerates MANIFEST.json from checks.py (claims) and properties_src.py."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import checks
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
NA = checks.NOT_APPLICABLE
m = {"version": 1, "setup_cmd": "make -s build/awlai", "checks": [], "not_applicable": [],
     "notes": "Static analysis only: an abstract interpreter over the LLVM IR of the current sources (engine/), rules as typestate models (harness/), and compile-time witnesses. See DESIGN.md."}
for p in props:
    i = p["id"]
    c = checks.CHECKS.get(i)
    if c:
        m["checks"].append({"property": i, "quick_cmd": "./check " + i, "thorough_cmd": "./check %s --thorough" % i, "technique": c.get("technique", "abstract interpretation of LLVM IR with typestate rules"),
                            "level": "other", "level_note": c["explain"] + (" Assumes: " + "; ".join(c["assume"]) if c.get("assume") else "")})
    else:
        m["not_applicable"].append({"property": i, "reason": NA.get(i, "no check yet")})
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "claimed,", len(m["not_applicable"]), "not applicable")
