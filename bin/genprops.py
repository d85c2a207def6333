#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table (bin/table.py)."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import table, props
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(V + "/properties.jsonl", "w") as f:
    for p in table.PROPS:
        f.write(json.dumps({k: p[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")}) + "\n")
checks, na = [], list(table.NOT_APPLICABLE)
for p in table.PROPS:
    i = p["id"]
    if i in props.CHECKS:
        checks.append({"property": i, "quick_cmd": "python3 bin/check.py %s quick" % i,
                       "thorough_cmd": "python3 bin/check.py %s thorough" % i,
                       "evidence_file": "evidence/%s.json" % i,
                       "technique": p["technique"], "level": "model_checking", "level_note": p["note"]})
    elif i not in [x["property"] for x in na]:
        na.append({"property": i, "reason": "check not built yet"})
json.dump({"version": 1, "setup_cmd": "python3 bin/setup.py",
           "hooks": {"guard": "CONDUIT_VERIF", "enable": "no hooks are needed: every check observes the public API", "source_commits": []},
           "checks": checks, "not_applicable": na}, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
