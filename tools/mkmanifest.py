#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from tools/plan.py and properties.jsonl."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(H, "tools"))
from plan import PLAN, NOTES, NOT_APPLICABLE
ids = [json.loads(l)["id"] for l in open(os.path.join(H, "properties.jsonl"))]
base = ("TLC-enumerated scenarios run through the real endpoints, every recorded step validated by TLC against the TLA+ "
        "specification. Assurance up to the enumerated dimensions and their value classes; trusts the harness's store, "
        "its recorder and the JWT library's signing side.")
checks = []
for i in ids:
    if i in PLAN:
        checks.append(dict(property=i, quick_cmd="python3 check.py %s --tier quick" % i, thorough_cmd="python3 check.py %s --tier thorough" % i,
                           technique=NOTES.get(i, ("TLA+ specification; scenario generation and trace validation with TLC", ""))[0],
                           level="model_checking", level_note=(base + " " + NOTES.get(i, ("", ""))[1]).strip()))
na = [dict(property=i, reason=NOT_APPLICABLE[i]) for i in ids if i not in PLAN]
json.dump(dict(version=1, setup_cmd="python3 check.py --setup", checks=checks, not_applicable=na,
               notes="No hooks are needed in /repo: everything is observed through the public interfaces. known_findings.txt lists recorded and repaired defects."),
          open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
