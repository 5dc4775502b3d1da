#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.py, META below and properties.jsonl."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from checks import CHECKS, META, NOT_APPLICABLE
ids = [json.loads(l)["id"] for l in open(HERE + "/properties.jsonl")]
m = dict(version=1, setup_cmd="python3 tools/setup.py", checks=[], not_applicable=[])
for i in ids:
    if i in CHECKS:
        t, note = META[i]
        m["checks"].append(dict(property=i, quick_cmd="python3 run_check.py %s" % i,
            thorough_cmd="python3 run_check.py %s --tier thorough" % i,
            evidence_file="evidence/%s.json" % i, technique=t, level="model_checking", level_note=note))
    else:
        m["not_applicable"].append(dict(property=i, reason=NOT_APPLICABLE.get(i, "check not built yet")))
m["notes"] = "No hooks in /repo: every harness drives the public interface, compiled from /repo's working tree on each run."
json.dump(m, open(HERE + "/MANIFEST.json", "w"), indent=1)
open(HERE + "/MANIFEST.json", "a").write("\n")
print(len(m["checks"]), "checks;", [x["property"] for x in m["not_applicable"]])
