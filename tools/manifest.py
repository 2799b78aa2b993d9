#!/usr/bin/env python3
"""Regenerates MANIFEST.json from plan.py."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from plan import PLAN
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)["id"] for l in open(os.path.join(root, "properties.jsonl"))]
m = {
    "version": 1,
    "setup_cmd": "bash setup.sh",
    "hooks": {
        "guard": "cfg(kani)",
        "enable": "cargo kani (sets cfg(kani)) with NRBF_VERIF_HOOK=/verif/kani, the directory of the harnesses that src/lib.rs, src/record/mod.rs and src/value/object.rs then include",
        "source_commits": ["436da21"],
    },
    "checks": [], "not_applicable": [],
}
for i in ids:
    if i in PLAN:
        p = PLAN[i]
        m["checks"].append({
            "property": i,
            "quick_cmd": f"python3 check.py {i} quick",
            "thorough_cmd": f"python3 check.py {i} thorough",
            "technique": p["technique"],
            "level": p["level"],
            "level_note": p["level_note"],
        })
    else:
        m["not_applicable"].append({"property": i, "reason": "no check yet"})
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
