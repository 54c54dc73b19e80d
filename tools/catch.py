#!/usr/bin/env python3
"""catch.py [--all] [bug ids]: runs the checks against the planted bugs in a scratch copy of /repo (never used by a check)"""
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = sys.argv[1:]
every = "--all" in args
ids = [a for a in args if not a.startswith("--")] or sorted(os.listdir(os.path.join(HERE, "seeded")))
props = [c["property"] for c in json.load(open(os.path.join(HERE, "MANIFEST.json")))["checks"]] if every else None
for bug in ids:
    d = os.path.join(HERE, "seeded", bug)
    meta = json.load(open(os.path.join(d, "meta.json")))
    scratch = tempfile.mkdtemp(prefix="catch_")
    try:
        copy = os.path.join(scratch, "repo")
        shutil.copytree("/repo", copy, symlinks=True, ignore=shutil.ignore_patterns("__pycache__", "node_modules"))
        subprocess.run(["git", "-C", copy, "apply", os.path.join(d, "patch.diff")], check=True)
        caught = []
        for p in props or [meta["property"]]:
            t = time.time()
            r = subprocess.run([os.path.join(HERE, "run_check.py"), p, "quick"], env={**os.environ, "CAUSY_REPO": copy, "VERIF_SEED": os.environ.get("VERIF_SEED", "1"), "VERIF_TIER": "quick"}, capture_output=True, text=True)
            if r.returncode == 1 and f"VIOLATION property={p}" in r.stdout:
                caught.append(p)
            elif r.returncode != 0:
                caught.append(f"{p}:exit{r.returncode}")
            if not every:
                print("   ", r.stdout.strip().splitlines()[-1][:160] if r.stdout.strip() else r.stderr[-300:], f"{time.time() - t:.0f}s")
        print(bug, meta["property"], "CAUGHT" if meta["property"] in caught else "MISSED", caught, flush=True)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
