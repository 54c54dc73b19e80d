"""C01: graphs found by the PC variants on data that exactly encodes a faithful DAG vs. the CPDAG of that DAG."""
import itertools
import random

import numpy as np

from vlib import refs
from vlib.core import digest
from vlib.drive import fmt, observed_graph, run_model
from vlib.graphs import all_dags, random_names

PROPERTY = "C01"
LEVEL = "exploration"
TECHNIQUE = "runtime oracle: final graphs of real runs compared with the exact CPDAG of the generating DAG"
RULE = (
    "all labelled DAGs on 3 nodes, DAGs on 4 nodes (all in the thorough tier) and bottlenecks which need separating sets of up to 6 nodes and random DAGs on 5-8 nodes with random weights, filtered for faithfulness of every (in)dependence; data with exactly the implied "
    "sample covariance, random column order, names, units, offsets, distribution, shape and threshold; each variant's graph is compared with the CPDAG (brute-force equivalence class up to 10 edges); "
    "distinct = distinct (DAG, variant) with at least one edge"
)
ASSUMPTIONS = [
    "every implied dependence is visible in the sample (|z| > 5 in Fisher's test) and every implied independence holds up to rounding",
    "threshold between 0.001 and 0.1",
]
FLOORS = {"variant_run": 500, "directed_edge": 300, "undirected_edge": 300, "separating_set_2plus": 20, "separating_set_4plus": 3, "separating_set_5plus": 1, "meek_rule_needed": 15, "rule2_needed": 2, "rule3_needed": 2}
CPU_LIMIT = 120

VARIANTS = ["PC", "PCClassic", "PCStable"]
MOD = "causy.causal_discovery.constraint.algorithms.pc."
# structures that need particular rules or larger separating sets
SPECIAL = [
    (4, [(1, 0), (2, 0), (3, 0), (3, 1), (3, 2)]),  # rule 3
    (5, [(0, 4), (1, 4), (2, 4), (3, 4)]),
    (5, [(0, 2), (1, 2), (2, 3), (3, 4)]),  # rule 1 chain
    (5, [(0, 2), (1, 2), (2, 3), (2, 4), (3, 4)]),
    (5, [(0, 2), (1, 2), (0, 3), (1, 3), (2, 4), (3, 4)]),
    (6, [(0, 1), (0, 2), (0, 3), (1, 4), (2, 4), (3, 4), (4, 5)]),  # separating sets of size 3
    (6, [(0, 4), (1, 4), (2, 4), (3, 4), (0, 5), (1, 5), (2, 5), (3, 5)]),
    (5, [(0, 1), (1, 2), (0, 3), (3, 2), (2, 4), (0, 4)]),
    (6, [(1, 0), (2, 0), (3, 0), (3, 1), (3, 2), (0, 4), (5, 4)]),
    (5, [(0, 2), (1, 2), (2, 3), (0, 4), (4, 3)]),  # rule 2 candidates
    (6, [(0, 1), (1, 2), (2, 3), (3, 4), (4, 5)]),
    (6, [(0, 1), (2, 1), (2, 3), (4, 3), (4, 5)]),
    (7, [(0, 3), (1, 3), (2, 3), (3, 4), (4, 5), (3, 5), (6, 5)]),
]
# x and y are separated by all mediators only
BOTTLENECK = [(k + 2, [(0, i) for i in range(1, k + 1)] + [(i, k + 1) for i in range(1, k + 1)]) for k in (4, 5, 6)]


def model(variant, threshold):
    from causy.graph_model import graph_model_factory
    from causy.serialization import load_algorithm_by_reference

    alg = load_algorithm_by_reference("python_module", MOD + variant)
    if threshold is None:
        return graph_model_factory(alg)()
    return graph_model_factory(alg, {"threshold": threshold})()


def shaped(data, shape, rng):
    import torch

    if shape == "dict":
        return data
    if shape == "tensor":
        return {k: torch.tensor(v, dtype=torch.float64) for k, v in data.items()}
    n = len(next(iter(data.values())))
    keys = list(data)
    return [{k: data[k][i] for k in keys} for i in range(n)]


def judge(graph, names, want_und, want_dire, mon, desc):
    und, dire = observed_graph(graph)
    wu = {frozenset(names[i] for i in e) for e in want_und}
    wd = {(names[a], names[b]) for a, b in want_dire}
    if list(sorted(graph.nodes)) != sorted(names):
        mon.violation("nodes", f"{list(graph.nodes)} instead of {names} ({desc})")
        return False
    if {frozenset(e) for e in dire} | und != {frozenset(e) for e in wd} | wu:
        mon.violation("skeleton", f"found {fmt(und, dire)} expected {fmt(wu, wd)} ({desc})")
        return False
    if und != wu or dire != wd:
        mon.violation("orientation", f"found {fmt(und, dire)} expected {fmt(wu, wd)} ({desc})")
        return False
    listed = sorted((e.u.id, e.v.id, e.edge_type.name) for e in graph.retrieve_edges())
    want = sorted([(a, b, "DIRECTED") for a, b in wd] + [(a, b, "UNDIRECTED") for e in wu for a, b in itertools.permutations(e)])
    if listed != want:
        mon.violation("edge-types", f"edge list {listed} expected {want} ({desc})")
        return False
    return True


def problem(rng, nr, n, edges, rows, bottleneck=False):
    """(names, data) encoding the DAG exactly, or None"""
    for kw in ({"lo": 0.5, "hi": 1.3, "tries": 25}, {"lo": 0.3, "hi": 0.9, "tries": 25}) if not bottleneck else ({"lo": 0.5, "hi": 0.8, "tries": 200},):
        r = refs.faithful_sem(rng, n, 0, rows, edges=edges, **kw)
        if r is not None:
            break
    else:
        return None
    e, w, s = r
    m = refs.exact_data(nr, s, rows, rng.choice(["normal", "uniform", "exp"]))
    unit = [rng.choice([1.0, 10 ** rng.uniform(-2, 2)]) * rng.choice((1, 1, -1)) for _ in range(n)]
    off = [rng.choice([0.0, rng.uniform(-20, 20)]) for _ in range(n)]
    names = random_names(rng, n)
    cols = {names[i]: [float(x) for x in (m[:, i] + off[i]) * unit[i]] for i in range(n)}
    order = list(names)
    rng.shuffle(order)
    return names, {k: cols[k] for k in order}


def max_sep(n, edges):
    """size of the largest minimal separating set needed"""
    best = 0
    sk = refs.skeleton(edges)
    for x, y in itertools.combinations(range(n), 2):
        if frozenset((x, y)) in sk:
            continue
        others = [k for k in range(n) if k not in (x, y)]
        for size in range(len(others) + 1):
            if any(refs.d_separated(edges, x, y, z) for z in itertools.combinations(others, size)):
                best = max(best, size)
                break
    return best


def cases(tier, seed):
    out = []
    for i, e in enumerate(all_dags(3)):
        out.append({"n": 3, "edges": e, "seed": seed * 11 + i})
    quick = tier == "quick"
    for i, e in enumerate(all_dags(4)):
        if not quick or (i + seed) % 6 == 0:
            out.append({"n": 4, "edges": e, "seed": seed * 13 + i})
    for rep in range(2 if quick else 10):
        for i, (n, e) in enumerate(SPECIAL):
            out.append({"n": n, "edges": e, "seed": seed * 17 + i + 1000 * rep})
    for rep in range(4 if quick else 20):
        for i, (n, e) in enumerate(BOTTLENECK):
            out.append({"n": n, "edges": e, "seed": seed * 23 + i + 1000 * rep, "bottleneck": True})
    rng = random.Random(seed * 77)
    for i in range(350 if quick else 4000):
        n = [5, 6, 5, 7, 6, 5, 7, 8][i % 8]
        p = rng.uniform(0.25, 0.7) * {5: 1, 6: 0.8, 7: 0.6, 8: 0.45}[n]
        out.append({"n": n, "p": p, "seed": seed * 19 + i})
    return [dict(c, edges=[list(x) for x in c["edges"]]) if "edges" in c else c for c in out]


def run_case(case, mon):
    rng = random.Random(case["seed"])
    nr = np.random.default_rng(case["seed"])
    n = case["n"]
    rows = rng.choice([300, 1000, 2000]) if n <= 4 else rng.choice([1500, 4000])
    if case.get("bottleneck"):
        rows = rng.choice([20000, 40000])
    prob = None
    for _ in range(6):
        edges = [tuple(e) for e in case["edges"]] if "edges" in case else refs.random_dag(n, case["p"], rng)
        prob = problem(rng, nr, n, edges, rows, case.get("bottleneck", False))
        if prob is not None:
            break
        rows = max(rows, 4000)
    if prob is None:
        mon.event("no_faithful_weights")
        return
    names, data = prob
    und, dire = refs.cpdag(range(n), edges)
    vs = {(a, c) for p, c in refs.v_structures(edges) for a in p}
    if dire - vs:
        mon.event("meek_rule_needed")
        for r in (2, 3):
            if refs.cpdag_meek(range(n), edges, tuple(k for k in (1, 2, 3, 4) if k != r))[1] != dire:
                mon.event(f"rule{r}_needed")
    sep = max_sep(n, edges)
    for k in range(2, 7):
        if sep >= k:
            mon.event(f"separating_set_{k}plus")
    mon.event("directed_edge", len(dire))
    mon.event("undirected_edge", len(und))
    import copy

    for v in VARIANTS:
        thr = rng.choice([None, 0.001, 0.01, 0.05, 0.1])
        shape = rng.choice(["dict", "rows", "tensor"])
        m = model(v, thr)
        run_model(m, shaped(copy.deepcopy(data), shape, rng))
        mon.event("variant_run")
        desc = f"{v} thr={thr} shape={shape} rows={rows} dag={[(names[a], names[b]) for a, b in edges]} columns={list(data)}"
        ok = judge(m.graph, names, und, dire, mon, desc)
        mon.evaluate(digest([sorted(edges), v]), nontrivial=bool(edges), sample={"variant": v, "dag": edges, "cpdag": fmt(und, dire)} if dire and und else None)
        if not ok:
            return
