#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from bin/props.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/bin")
from props import CHECKS, NOT_APPLICABLE
ids = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
m = dict(version=1, setup_cmd="bash bin/setup.sh",
  checks=[dict(property=i, quick_cmd="python3 bin/check.py %s --tier quick" % i, thorough_cmd="python3 bin/check.py %s --tier thorough" % i,
               technique=CHECKS[i]["technique"], level=CHECKS[i]["level"], level_note=CHECKS[i]["note"]) for i in ids if i in CHECKS],
  not_applicable=[dict(property=i, reason=NOT_APPLICABLE.get(i, "check under construction")) for i in ids if i not in CHECKS],
  notes="No hooks are needed in /repo: all checks use the public API, compiler instrumentation and link-time interposition.")
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1); open(V + "/MANIFEST.json", "a").write("\n")
print(len(m["checks"]), "checks,", len(m["not_applicable"]), "not claimed")
