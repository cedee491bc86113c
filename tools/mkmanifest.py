#!/usr/bin/env python3
"""Writes MANIFEST.json from props.py and checks.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
from props import PROPS
from checks import CHECKS
m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": [], "not_applicable": [],
     "notes": "tools/check.py compiles /repo's current sources with ASan+UBSan together with a harness from harness/, "
              "runs it in parallel workers and merges what the monitors observed into evidence/<id>.json. No hooks in /repo."}
for p in PROPS:
    i = p["id"]
    if i in CHECKS:
        c = CHECKS[i]
        m["checks"].append({"property": i, "quick_cmd": "python3 tools/check.py %s" % i,
                            "thorough_cmd": "python3 tools/check.py %s --tier thorough" % i,
                            "evidence_file": "evidence/%s.json" % i, "technique": c["technique"], "level": c["level"],
                            "level_note": c.get("note", "Everything the seeded workload reached was judged by an oracle written independently of the code, under ASan and UBSan; inputs not generated are not covered. Trusts the compiler, the sanitizers and the reference model in the harness.")})
    else:
        m["not_applicable"].append({"property": i, "reason": "check not built yet"})
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
print(len(m["checks"]), "checks,", len(m["not_applicable"]), "not claimed")
