#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.json (and not_applicable.json when there is one)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
C = json.load(open(V + "/checks.json"))
props = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
na = json.load(open(V + "/tools/not_applicable.json")) if os.path.exists(V + "/tools/not_applicable.json") else {}
m = {"version": 1, "setup_cmd": "./setup", "checks": [], "not_applicable": []}
for p in props:
    if p in C:
        c = C[p]
        m["checks"].append({"property": p, "quick_cmd": "VERIF_TIER=quick ./check " + p, "thorough_cmd": "VERIF_TIER=thorough ./check " + p,
                            "evidence_file": "evidence/%s.json" % p, "technique": c["technique"], "level": c["level"], "level_note": c["note"]})
    else:
        m["not_applicable"].append({"property": p, "reason": na.get(p, "check not built yet")})
m["notes"] = "All checks: ./check <ID>; replay a violation with ./check <ID> --replay <file>. No hooks in /repo: the checks use its public API only."
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
