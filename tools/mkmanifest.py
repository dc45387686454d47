#!/usr/bin/env python3
"""checks.json + properties.jsonl -> MANIFEST.json"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
C = json.load(open(V + "/checks.json"))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in C:
        c = C[i]
        checks.append({"property": i, "quick_cmd": "python3 run.py %s" % i, "thorough_cmd": "python3 run.py %s --tier thorough" % i,
            "evidence_file": "evidence/%s.json" % i,
            "technique": c.get("technique", "property-based testing: structured random generation against a reference model, with shrinking; coverage-guided fuzzing (libFuzzer) in the thorough tier"),
            "level": "exploration",
            "level_note": c.get("level_note", "Generated-input search under ASan+UBSan; assurance is statistical over the stated generators. Trusts the independent reference in harness/%s and the toolchain." % i)})
    else:
        na.append({"property": i, "reason": c_reason if (c_reason := json.load(open(V + "/tools/na.json")).get(i)) else "check not built yet"})
json.dump({"version": 1, "setup_cmd": "python3 run.py --selfcheck", "checks": checks, "not_applicable": na,
  "notes": "No hooks in /repo: every check drives public headers. Checks build their harness from /repo's current tree into /verif/build (ignored by git)."},
  open(V + "/MANIFEST.json", "w"), indent=1)
