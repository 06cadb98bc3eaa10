#!/usr/bin/env python3
"""Writes MANIFEST.json from vp/registry.py and properties.jsonl."""
import json, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "vp"))
import registry as R
V = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l) for l in open(f"{V}/properties.jsonl")]
checks, na = [], []
for p in props:
    c = R.CHECKS.get(p["id"])
    if not c:
        na.append(dict(property=p["id"], reason="no check built yet in this family; see DESIGN.md"))
        continue
    checks.append(dict(property=p["id"], quick_cmd=f"python3 vp/check.py {p['id']} --tier quick", thorough_cmd=f"python3 vp/check.py {p['id']} --tier thorough",
                       evidence_file=f"evidence/{p['id']}.json", technique=c["technique"], level=c["level"], level_note=c["note"]))
m = dict(version=1, setup_cmd="clang++ --version && ninja --version && python3 vp/check.py --list", checks=checks, not_applicable=na,
         notes="No hooks in /repo: schedule perturbation and fault injection are done by link-time wrapping of pthread_mutex_lock/unlock and zmq_msg_* in the harness binaries.")
json.dump(m, open(f"{V}/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks", len(na), "not claimed")
