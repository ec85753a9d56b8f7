#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of claimed properties."""
import json
claims = json.load(open("/verif/claims.json"))
NA = json.load(open("/verif/na.json"))
T = "deterministic simulation with fault injection: seeded search over simulated runs"
props = [json.loads(l) for l in open("/verif/properties.jsonl")]
ids = [p["id"] for p in props]
checks = []
for p in ids:
    if p in claims:
        checks.append({"property": p, "quick_cmd": f"bash check.sh {p} quick", "thorough_cmd": f"bash check.sh {p} thorough",
                       "technique": T + claims[p]["how"], "level": "exploration", "level_note": claims[p]["note"]})
na = [{"property": p, "reason": NA.get(p, "check not built yet")} for p in ids if p not in claims]
json.dump({"version": 1, "setup_cmd": "bash check.sh build", "checks": checks, "not_applicable": na,
           "notes": "No hooks in /repo: the library is generic over Read/Write/Seek streams, and the binary is driven through its system calls."},
          open("/verif/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks", len(na), "n/a")
