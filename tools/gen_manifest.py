#!/usr/bin/env python3
"""Writes MANIFEST.json from the registered checks."""
import sys, os, json
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/lib"); sys.dont_write_bytecode = True
import checks, registry
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
SPEC = registry.SPECS
m = {"version": 1, "setup_cmd": "python3 lib/setup.py", "checks": [], "not_applicable": []}
for p in props:
    i = p["id"]
    if i in checks.CHECKS:
        sp, note = SPEC[i]
        m["checks"].append({"property": i, "quick_cmd": "bin/check %s quick" % i, "thorough_cmd": "bin/check %s thorough" % i,
            "evidence_file": "evidence/%s.json" % i,
            "technique": "TLA+ specification %s checked with TLC; TLC-generated behaviours replayed in the real code%s" % (sp, ", recorded histories validated by TLC" if i in registry.TRACED else ""),
            "level": checks.LEVEL[i], "level_note": note})
    else:
        m["not_applicable"].append({"property": i, "reason": registry.NA.get(i, "check not built yet")})
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(m["checks"]), "checks", len(m["not_applicable"]), "not applicable")
