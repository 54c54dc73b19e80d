"""C23: running the same discovery twice gives the same result, in every process."""
import json
import os
import random
import subprocess
import sys

from vlib import refs
from vlib.core import Inconclusive, digest
from vlib.graphs import random_names

PROPERTY = "C23"
LEVEL = "exploration"
TECHNIQUE = "replica comparison: complete executions of the same jobs in processes with different hash seeds, random states and histories of earlier models"
RULE = (
    "batches of jobs (bundled and custom single-process algorithms with several thresholds and conflict strategies, on noisy, faithful, tied, short and collinear data given as rows, columns, tensors or file) are executed in several fresh processes, each with its own hash seed, "
    "random state and order of jobs, every job at least twice per process; graph, values, separating sets and the complete history have to agree and the input has to be unchanged; "
    "distinct = distinct (algorithm, graph) results compared"
)
ASSUMPTIONS = ["one thread per process", "floating point values may differ by rounding (1e-9) between processes", "generators which sample or shuffle on request are not used"]
FLOORS = {"process": 100, "compared": 2500, "same_process": 400, "other_process": 2000, "input_unchanged": 2500, "directed_result": 600, "removed_edges": 1500, "noisy": 500, "history_steps": 10000}
CPU_LIMIT = 400


def cases(tier, seed):
    n = 26 if tier == "quick" else 260
    return [{"seed": seed * 1000271 + i, "processes": 4 if tier == "quick" else 6} for i in range(n)]


def dataset(rng):
    n = rng.randint(3, 6)
    names = random_names(rng, n)
    kind = rng.choice(["noisy", "noisy", "noisy", "faithful", "tied", "short", "scaled"])
    rows = {"noisy": rng.choice([20, 40]), "faithful": 300, "tied": 40, "short": 14, "scaled": 60}[kind]
    edges = refs.random_dag(n, rng.choice([0.3, 0.5, 0.8]), rng)
    w = {e: rng.choice([-1, 1]) * rng.uniform(0.3, 1.5) for e in edges}
    order = sorted(range(n), key=lambda v: len(refs.ancestors_of(edges, [v])))
    cols = {i: [] for i in range(n)}
    for _ in range(rows):
        v = {}
        for i in order:
            v[i] = rng.gauss(0, 1) + sum(w[(a, b)] * v[a] for a, b in edges if b == i)
        for i in range(n):
            x = v[i]
            if kind == "tied":
                x = float(round(x))
            if kind == "scaled":
                x = x * 10 ** (i - 2) + i * 7
            cols[i].append(x)
    if kind == "tied" and any(len(set(c)) < 3 for c in cols.values()):
        return dataset(rng)
    ids = list(range(n))
    rng.shuffle(ids)
    return kind, {names[i]: cols[i] for i in ids}


def job(rng, k):
    alg = rng.choice(["PC", "PC", "PCClassic", "PCStable", "custom", "custom"])
    spec = {"alg": alg, "data": rng.randrange(k), "source": rng.choice(["rows", "columns", "tensors", "json"]), "variables": rng.choice([None, {"threshold": rng.choice([0.01, 0.1, 0.3, 0.6])}]) if alg != "custom" else {"threshold": rng.choice([0.01, 0.05, 0.3])}}
    if alg == "custom":
        spec.update(tests=rng.choice(["cpm", "cm", "cl", "cpl", "mc", "p", "c"]), together=rng.random() < 0.4, rules="".join(rng.sample("ntqf", rng.randint(2, 4))), strategy=rng.randrange(4))
    return spec


def close(a, b):
    if isinstance(a, float) and isinstance(b, float):
        return a == b or abs(a - b) <= 1e-9 * max(1.0, abs(a), abs(b)) or (a != a and b != b)
    if type(a) is not type(b):
        return False
    if isinstance(a, dict):
        return a.keys() == b.keys() and all(close(a[k], b[k]) for k in a)
    if isinstance(a, list):
        return len(a) == len(b) and all(close(x, y) for x, y in zip(a, b))
    return a == b


def first_difference(a, b, path=""):
    if isinstance(a, dict) and isinstance(b, dict):
        for k in list(a) + [k for k in b if k not in a]:
            if k not in a or k not in b:
                return f"{path}/{k}: only in one ({a.get(k)} / {b.get(k)})"
            d = first_difference(a[k], b[k], f"{path}/{k}")
            if d:
                return d
        return None
    if isinstance(a, list) and isinstance(b, list) and len(a) == len(b):
        for i, (x, y) in enumerate(zip(a, b)):
            d = first_difference(x, y, f"{path}/{i}")
            if d:
                return d
        return None
    return None if close(a, b) else f"{path}: {str(a)[:300]} != {str(b)[:300]}"


def run_case(case, mon):
    rng = random.Random(case["seed"])
    sets = [dataset(rng) for _ in range(7)]
    data = [d for _, d in sets]
    jobs = [job(rng, len(data)) for _ in range(16)]
    scratch = os.environ["VERIF_SCRATCH"]
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    results = []
    for p in range(case["processes"]):
        order = list(range(len(jobs))) * 2
        rng.shuffle(order)
        if p == 0:
            order = list(range(len(jobs))) + list(range(len(jobs)))
        job_file, out_file = os.path.join(scratch, f"job{p}.json"), os.path.join(scratch, f"out{p}.json")
        with open(job_file, "w") as f:
            json.dump({"jobs": jobs, "data": data, "order": order, "rng": rng.randrange(2**31)}, f)
        hashseed = str(rng.randrange(1, 2**32)) if p else "0"
        env = {**os.environ, "PYTHONHASHSEED": hashseed}
        try:
            r = subprocess.run([sys.executable, os.path.join(here, "vlib", "repro.py"), job_file, out_file], env=env, capture_output=True, text=True, timeout=360)
        except subprocess.TimeoutExpired:
            raise Inconclusive("an execution did not end")
        if r.returncode != 0:
            raise Inconclusive(f"process failed: {r.stderr[-1500:]}")
        mon.event("process")
        results.append((hashseed, order, json.load(open(out_file))))
        os.remove(out_file)
    reference = results[0][2]
    errors = 0
    for p, (hashseed, order, res) in enumerate(results):
        for i in range(len(jobs)):
            for k, (obs, alone) in enumerate(res[str(i)]):
                if p == 0 and k == 0:
                    continue
                spec = jobs[i]
                mon.event("compared")
                mon.event("same_process" if p == 0 else "other_process")
                mon.event("input_unchanged")
                desc = lambda: f"job {spec} on {json.dumps(data[spec['data']])[:1500]}; execution {k + 1} in a process with hash seed {hashseed}, jobs executed before: {[jobs[j]['alg'] for j in order[: [n for n, x in enumerate(order) if x == i][k]]]}"
                if not mon.check(alone, "input-changed", lambda: f"the input data was modified: {desc()}"):
                    return
                want = reference[str(i)][0][0]
                if not close(want, obs):
                    mon.violation("differs" if p else "differs-in-process", f"{first_difference(want, obs)}; {desc()}")
                    return
                if "error" in obs:
                    errors += 1
                    continue
                mon.event("history_steps", len(obs["history"]))
                if any(e[0] == ["type", "DIRECTED"] for e in obs["edges"].values()):
                    mon.event("directed_result")
                if len(obs["edges"]) < len(obs["nodes"]) * (len(obs["nodes"]) - 1):
                    mon.event("removed_edges")
                if sets[spec["data"]][0] == "noisy":
                    mon.event("noisy")
                mon.evaluate(digest([spec["alg"], spec.get("tests"), sorted(obs["edges"])]), True, {"job": {k: v for k, v in spec.items() if k != "data"}, "edges": len(obs["edges"])})
    mon.event("same_error", errors)
