#!/usr/bin/env python3
"""Writes DESIGN.md: hand written frame (tools/design_head.md, tools/design_tail.md), one section per property from the checks."""
import ast
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTES = json.load(open(os.path.join(ROOT, "tools", "design_notes.json")))
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]


def constants(path):
    res = {}
    for node in ast.parse(open(path).read()).body:
        if isinstance(node, ast.Assign) and isinstance(node.targets[0], ast.Name):
            try:
                res[node.targets[0].id] = ast.literal_eval(node.value)
            except ValueError:
                pass
    return res


out = [open(os.path.join(ROOT, "tools", "design_head.md")).read().rstrip(), "", "## Properties", ""]
for p in props:
    c = constants(os.path.join(ROOT, "checks", p["id"].lower() + ".py"))
    n = NOTES.get(p["id"], {})
    out += [
        f"### {p['id']} {p['title']}",
        "",
        f"- **Monitor**: {c['TECHNIQUE']}.",
        f"- **Oracle**: {n.get('oracle', '')}",
        f"- **Workload and bounds**: {c['RULE']}.",
        f"- **What has to be observed** (otherwise the run ends with exit code 3, not with a pass): {', '.join(f'{k} >= {v}' for k, v in c.get('FLOORS', {}).items())}.",
        f"- **Assumptions**: {'; '.join(c['ASSUMPTIONS'])}.",
        f"- **Why not a unit test**: {n.get('why', '')}",
        f"- **Cost**: {n.get('cost', '')}",
        "",
    ]
bugs = os.path.join(ROOT, "seeded")
table = json.load(open(os.path.join(ROOT, "tools", "catches.json")))
out += ["## Planted bugs", "", "| bug | property | needs | caught by |", "|---|---|---|---|"]
for b in sorted(os.listdir(bugs)):
    m = json.load(open(os.path.join(bugs, b, "meta.json")))
    out.append(f"| {b} | {m['property']} | {m['needs']} | {', '.join(table.get(b, ['not run']))} |")
out += ["", open(os.path.join(ROOT, "tools", "design_tail.md")).read().rstrip(), ""]
open(os.path.join(ROOT, "DESIGN.md"), "w").write("\n".join(out))
