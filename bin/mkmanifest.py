#!/usr/bin/env python3
"""Writes MANIFEST.json from bin/checks.json and properties.jsonl."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
C = json.load(open(V + "/bin/checks.json"))
P = [json.loads(l) for l in open(V + "/properties.jsonl")]
m = {"version": 1, "setup_cmd": "python3 bin/setup.py", "checks": [], "not_applicable": []}
for p in P:
    i = p["id"]
    if i in C:
        c = C[i]
        m["checks"].append({"property": i, "quick_cmd": "python3 bin/check.py %s --tier quick" % i,
            "thorough_cmd": "python3 bin/check.py %s --tier thorough" % i,
            "evidence_file": "evidence/%s.json" % i,
            "technique": c.get("technique", "runtime monitoring: oracle over executions of the ASan/UBSan-instrumented library under randomised workloads"),
            "level": "exploration",
            "level_note": c.get("note", "Every execution of the workload is judged by an independent oracle; nothing is claimed beyond the executions observed. Trusts pinocchio, hpp-pinocchio, coal, qpOASES and Eigen.")})
    else:
        m["not_applicable"].append({"property": i, "reason": c_na.get(i) if (c_na := json.load(open(V + "/bin/na.json")) if os.path.exists(V + "/bin/na.json") else {}).get(i) else "check not built yet"})
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
