#!/usr/bin/env python3
"""Writes MANIFEST.json from props.py and the list of properties not claimed."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from props import PROPS, NOT_APPLICABLE
ids = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
checks = []
for i in ids:
    if i in PROPS:
        checks.append(dict(property=i, quick_cmd=f"python3 check.py {i} --tier quick", thorough_cmd=f"python3 check.py {i} --tier thorough",
                           technique="deterministic simulation with fault injection (seeded schedules and faults over the real code, reference-model oracle)",
                           level=PROPS[i]["level"], level_note=PROPS[i].get("note", PROPS[i]["rule"])[:600]))
na = [dict(property=i, reason=NOT_APPLICABLE.get(i, "check not built yet")) for i in ids if i not in PROPS]
json.dump(dict(version=1, setup_cmd="python3 sim/build.py", hooks=dict(guard="none", enable="no hooks: the simulator replaces C library calls", source_commits=[]),
               checks=checks, not_applicable=na), open(V + "/MANIFEST.json", "w"), indent=1)
