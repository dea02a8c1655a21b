#!/usr/bin/env python3
"""Runs the checks on /repo with each planted change applied, and records which caught it.

    try_seeded.py [--all-checks] [--tier T] [ID…]      → tools/caught.json
"""
import json
import os
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)
from meta import PROPS

args = sys.argv[1:]
allc = "--all-checks" in args
args = [a for a in args if a != "--all-checks"]
tier = "quick"
if "--tier" in args:
    i = args.index("--tier")
    tier = args[i + 1]
    del args[i:i + 2]
path = os.path.join(VERIF, "tools/caught.json")
caught = json.load(open(path)) if os.path.exists(path) else {}
ids = args or sorted(os.listdir(os.path.join(VERIF, "seeded")))
assert not subprocess.run("git -C /repo status --porcelain", shell=True, capture_output=True).stdout
for sid in ids:
    d = os.path.join(VERIF, "seeded", sid)
    meta = json.load(open(os.path.join(d, "meta.json")))
    props = [meta["property"]]
    if allc:
        props += [p for p in PROPS if p not in props]
    subprocess.run(["git", "-C", "/repo", "apply", os.path.join(d, "patch.diff")], check=True)
    try:
        for prop in props:
            began = time.time()
            e = dict(os.environ, VERIF_SEED=os.environ.get("VERIF_SEED", "1"), VERIF_TIER=tier)
            p = subprocess.run([sys.executable, "check.py", prop, "--tier", tier], cwd=VERIF, env=e, capture_output=True, text=True)
            hit = p.returncode == 1 and f"VIOLATION property={prop} " in p.stdout
            entry = caught.setdefault(sid, {"by": [], "not_by": []})
            for l in ("by", "not_by"):
                if prop in entry[l]:
                    entry[l].remove(prop)
            entry["by" if hit else "not_by"].append(prop)
            entry["by"].sort(), entry["not_by"].sort()
            if hit or prop == meta["property"] or p.returncode not in (0, 1):
                line = next((l for l in p.stdout.splitlines() if "VIOLATION" in l), "") + " " + " ".join(p.stderr.split())[-150:]
                print(f"{sid} [{meta['property']}] {prop}: rc {p.returncode} {'CAUGHT' if hit else 'MISSED'} {time.time()-began:.0f}s {line[:300]}", flush=True)
            json.dump(caught, open(path, "w"), indent=1, sort_keys=True)
    finally:
        subprocess.run(["git", "-C", "/repo", "checkout", "-q", "--", "."], check=True)
