#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the check modules which exist."""
import ast
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]


def constants(path):
    res = {}
    for node in ast.parse(open(path).read()).body:
        if isinstance(node, ast.Assign) and isinstance(node.targets[0], ast.Name):
            try:
                res[node.targets[0].id] = ast.literal_eval(node.value)
            except ValueError:
                pass
    return res


checks, missing = [], []
for p in props:
    path = os.path.join(ROOT, "checks", p["id"].lower() + ".py")
    if not os.path.exists(path):
        missing.append({"property": p["id"], "reason": "check under construction"})
        continue
    c = constants(path)
    checks.append(
        {
            "property": p["id"],
            "quick_cmd": f"./run_check.py {p['id']} quick",
            "thorough_cmd": f"./run_check.py {p['id']} thorough",
            "evidence_file": f"evidence/{p['id']}.json",
            "technique": c["TECHNIQUE"],
            "level": c["LEVEL"],
            "level_note": "No violation in the executions the monitors observed: " + c["RULE"] + ". Assumes: " + "; ".join(c["ASSUMPTIONS"]) + ".",
        }
    )
json.dump(
    {
        "version": 1,
        "setup_cmd": "true",
        "checks": checks,
        "not_applicable": missing,
        "notes": "Python is not built: every check imports causy from /repo's working tree (CAUSY_REPO overrides the path). No hooks were added to /repo; monitors wrap public functions at run time.",
    },
    open(os.path.join(ROOT, "MANIFEST.json"), "w"),
    indent=1,
)
print(len(checks), "checks,", len(missing), "missing")
