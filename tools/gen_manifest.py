#!/usr/bin/env python3
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(H, "tools"))
from checks import CHECKS, NOT_APPLICABLE
props = [json.loads(l)["id"] for l in open(os.path.join(H, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "python3 check.py --setup",
     "hooks": {"guard": "none", "enable": "no hooks: the checks use the public headers unchanged", "source_commits": []},
     "checks": [], "not_applicable": []}
for p in props:
    if p in CHECKS:
        c = CHECKS[p]
        m["checks"].append({"property": p, "quick_cmd": f"python3 check.py {p}", "thorough_cmd": f"python3 check.py {p} --tier thorough",
                            "technique": c["technique"], "level": "exploration",
                            "level_note": c.get("note", "random search against an explicit oracle; failures are shrunk and replayable; absence of failures is evidence within the generated bounds, not proof")})
    else:
        m["not_applicable"].append({"property": p, "reason": NOT_APPLICABLE.get(p, "check not built yet")})
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
