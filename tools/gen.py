#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table in tools/table.py."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
from table import PROPS, NOT_APPLICABLE, NOTES
root = os.path.dirname(here)
with open(os.path.join(root, "properties.jsonl"), "w") as f:
    for p in PROPS:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["quant"]},
            "why_tests_cant": p["tests"],
            "anchors": {"files": p["files"],
                        "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                        **({"observe_at": p["observe"]} if "observe" in p else {})},
        }) + "\n")
checks = []
for p in PROPS:
    if "bin" not in p:
        continue
    cmd = f"bash run.sh {p['bin']} {p['id']}"
    checks.append({"property": p["id"], "quick_cmd": cmd, "thorough_cmd": cmd,
                   "technique": p["technique"], "level": "model_checking", "level_note": p["note"]})
na = list(NOT_APPLICABLE) + [{"property": p["id"], "reason": p["why_not"]} for p in PROPS if "bin" not in p]
m = {"version": 1, "setup_cmd": "bash setup.sh",
     "hooks": {"guard": "none", "enable": "no hook: the checks compile /repo/src as a library through the wrapper crate /verif/hibou (its src is a symbolic link to /repo/src)", "source_commits": []},
     "checks": checks, "not_applicable": na, "notes": NOTES}
with open(os.path.join(root, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
