#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from meta.py."""
import json, os, sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)
from meta import PROPS

with open(os.path.join(VERIF, "properties.jsonl"), "w") as f:
    for pid, p in PROPS.items():
        assert len(p["title"]) <= 80, (pid, len(p["title"]))
        for file in p["files"]:
            assert os.path.exists(os.path.join("/repo", file)) , file
        f.write(json.dumps({
            "id": pid, "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": p["mechanism"],
                        "observe_at": p.get("observe_at", ["public API"]), "hook_needed": None},
        }, ensure_ascii=False) + "\n")
checks = [{
    "property": pid,
    "quick_cmd": f"python3 check.py {pid}",
    "thorough_cmd": f"python3 check.py {pid} --tier thorough",
    "evidence_file": f"evidence/{pid}.json",
    "technique": p["technique"], "level": "exploration", "level_note": p["note"],
} for pid, p in PROPS.items()]
with open(os.path.join(VERIF, "MANIFEST.json"), "w") as f:
    json.dump({"version": 1, "setup_cmd": "python3 check.py --setup", "checks": checks, "not_applicable": [],
               "notes": "No hooks: every property is observable through the public API, the binary or the compiler."}, f, indent=1, ensure_ascii=False)
    f.write("\n")
