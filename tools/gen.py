#!/usr/bin/env python3
"""Regenerate properties.jsonl and MANIFEST.json from props.py and checks.py (committed; run after editing them)."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
from props import P
try:
    from checks_meta import CHECKS
except ImportError:
    CHECKS = {}
root = os.path.dirname(here)
with open(os.path.join(root, "properties.jsonl"), "w") as f:
    for q in P:
        d = {k: v for k, v in q.items() if not k.startswith("_")}
        f.write(json.dumps(d, ensure_ascii=False) + "\n")
man = {"version": 1, "setup_cmd": "bash tools/setup.sh", "checks": [], "not_applicable": []}
for q in P:
    if q["id"] in CHECKS:
        c = CHECKS[q["id"]]
        man["checks"].append({"property": q["id"],
            "quick_cmd": f"python3 check.py {q['id']}",
            "thorough_cmd": f"python3 check.py {q['id']}",
            "technique": c["technique"], "level": "other", "level_note": c["note"]})
    else:
        man["not_applicable"].append({"property": q["id"], "reason": q["_na"] or "check not built yet"})
man["notes"] = "All checks are static: they compile /repo's current sources to LLVM IR (never running them) and analyse the IR, or parse the scripts and data files."
json.dump(man, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
