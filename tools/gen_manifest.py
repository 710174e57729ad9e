#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from checks_table.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from checks_table import CHECKS, NOT_APPLICABLE
ids = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": [], "not_applicable": [],
     "notes": "Each check builds its explorer from /repo's working tree into /verif/out, runs it and removes the build. No hooks: "
              "the library and tool are compiled as they are, with the environment interposed at link time where a check needs it."}
for i in ids:
    if i in CHECKS:
        c = CHECKS[i]
        m["checks"].append({"property": i, "quick_cmd": "python3 check.py %s quick" % i, "thorough_cmd": "python3 check.py %s thorough" % i,
                            "technique": c["technique"], "level": c.get("level", "model_checking"), "level_note": c["note"]})
    else:
        m["not_applicable"].append({"property": i, "reason": NOT_APPLICABLE.get(i, "no check built yet")})
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
open(V + "/MANIFEST.json", "a").write("\n")
