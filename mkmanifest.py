#!/usr/bin/env python3
"""Regenerate MANIFEST.json from checks.py and properties.jsonl (development tool)."""
import json
from checks import CHECKS, NOT_APPLICABLE
props = [json.loads(l) for l in open("properties.jsonl")]
m = {"version": 1, "setup_cmd": "python3 run.py setup", "checks": [], "not_applicable": [],
     "notes": "No hooks: the library is header based and is compiled as is, in its checked (IL_UNIT_TEST: a failed "
              "precondition throws) and unchecked (NDEBUG) configurations. known_findings.txt lists findings and repairs."}
for p in props:
    i = p["id"]
    if i in CHECKS:
        c = CHECKS[i]
        m["checks"].append({
            "property": i,
            "quick_cmd": "python3 run.py check %s --tier quick" % i,
            "thorough_cmd": "python3 run.py check %s --tier thorough" % i,
            "evidence_file": "evidence/%s.json" % i,
            "technique": c["technique"],
            "level": "exploration",
            "level_note": c["note"]})
    else:
        m["not_applicable"].append({"property": i, "reason": NOT_APPLICABLE.get(i, "check not built yet")})
json.dump(m, open("MANIFEST.json", "w"), indent=1)
open("MANIFEST.json", "a").write("\n")
