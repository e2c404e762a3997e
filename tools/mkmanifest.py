#!/usr/bin/env python3
"""Regenerates MANIFEST.json from properties.jsonl and checks.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import checks
NA = {
    "C26": "Concepts and type traits are decided entirely at compile time: there is no execution for a runtime "
           "monitor or sanitizer to observe (a static_assert list would be a different technique).",
}
out = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": [], "not_applicable": []}
for l in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(l)
    if p["id"] in checks.CHECKS:
        s = checks.CHECKS[p["id"]]
        out["checks"].append({
            "property": p["id"], "quick_cmd": "python3 run.py %s quick" % p["id"],
            "thorough_cmd": "python3 run.py %s thorough" % p["id"],
            "evidence_file": "evidence/%s.json" % p["id"],
            "technique": s.technique, "level": "exploration", "level_note": s.note})
    else:
        out["not_applicable"].append({"property": p["id"], "reason": NA.get(p["id"], "no monitor built yet")})
json.dump(out, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
print(len(out["checks"]), "checks,", len(out["not_applicable"]), "not applicable")
