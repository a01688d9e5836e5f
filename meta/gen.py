#!/usr/bin/env python3
"""Write properties.jsonl and MANIFEST.json from meta/props.py (run by hand after editing it)."""
import json
import os
import sys
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from props import NA, PROPS

ROOT = os.path.dirname(HERE)
with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in PROPS + NA:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["quant"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"],
                        "mechanism": [{"name": a, "where": b} for a, b in p["mech"]],
                        "observe_at": p.get("observe", []), "hook_needed": None},
        }) + "\n")
man = {
    "version": 1,
    "setup_cmd": "python3 -c \"import ast, sys; assert sys.version_info >= (3, 9)\"",
    "checks": [{
        "property": p["id"],
        "quick_cmd": f"./check {p['id']} --tier quick",
        "thorough_cmd": f"./check {p['id']} --tier thorough",
        "evidence_file": f"evidence/{p['id']}.json",
        "technique": p["technique"],
        "level": "other",
        "level_note": p["note"],
    } for p in PROPS],
    "not_applicable": [{"property": p["id"], "reason": p["reason"]} for p in NA],
    "notes": "All checks are static: they parse /repo's current source with CPython's ast, build inlined control-flow graphs with "
             "exceptional edges and decide dataflow rules. Nothing of /repo is executed.",
}
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1)
    f.write("\n")
