#!/usr/bin/env python3
import json, os
from checks_table import CHECKS
H = os.path.dirname(os.path.abspath(__file__))
ids = [json.loads(l)["id"] for l in open(H + "/properties.jsonl")]
NA = {}
m = {"version": 1, "setup_cmd": "true",
     "hooks": {"guard": "ASIOEXT_VERIF_HOOKS", "enable": "not needed: no hooks were added to /repo; all harnesses interpose at link level", "source_commits": []},
     "checks": [], "not_applicable": []}
for i in ids:
    if i in CHECKS:
        c = CHECKS[i]
        m["checks"].append({"property": i, "quick_cmd": "python3 run.py %s quick" % i, "thorough_cmd": "python3 run.py %s thorough" % i,
                            "technique": c["technique"], "level": c.get("level", "model_checking"), "level_note": c["level_note"]})
    else:
        m["not_applicable"].append({"property": i, "reason": NA.get(i, "check not built yet (work in progress)")})
json.dump(m, open(H + "/MANIFEST.json", "w"), indent=1)
