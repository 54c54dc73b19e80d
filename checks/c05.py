"""C05: direct effects on oriented edges vs. least squares with intercept on all parents."""
import itertools
import random

import numpy as np

from vlib import refs
from vlib.core import digest
from vlib.drive import observed_graph, pc_models, run_model
from vlib.graphs import random_names

PROPERTY = "C05"
LEVEL = "exploration"
TECHNIQUE = "state monitor on direct effects against an independent least-squares reference, metamorphic runs"
RULE = (
    "random DAGs and partially directed graphs on 2-8 variables imposed on data with random units (up to 18 orders of magnitude apart) and offsets and with nearly collinear parents (and graphs found by the bundled PC variants); every edge is compared; "
    "every data set is re-run with shifted and rescaled columns; distinct = distinct (data set, edge)"
)
ASSUMPTIONS = ["parents are not numerically collinear (condition number of the design below 1e7); otherwise the coefficient is not unique"]
FLOORS = {"oriented": 1500, "undirected": 300, "metamorphic": 500, "multi_parent": 400, "far_units": 100, "nearly_collinear": 50, "e2e_oriented": 40}
CPU_LIMIT = 90


def ols(data, y, xs):
    A = np.column_stack([np.ones(len(data[y]))] + [data[k] for k in xs])
    mu, sd = A[:, 1:].mean(0), A[:, 1:].std(0)
    if (sd <= 1e-9 * abs(mu)).any():
        return None
    Z = np.column_stack([np.ones(len(A)), (A[:, 1:] - mu) / sd])
    if len(A) < Z.shape[1] or np.linalg.cond(Z) > 1e7:
        return None
    yc = data[y] - data[y].mean()
    c = np.linalg.lstsq(Z, yc, rcond=None)[0][1:] / sd
    return dict(zip(xs, c)), float(yc.std()), dict(zip(xs, sd)), float(np.linalg.cond(Z))


def judge(graph, data, mon, desc, e2e=False):
    """compare all edges; returns {edge: effect}"""
    names = list(graph.nodes)
    D = {k: np.asarray(v, float) for k, v in data.items()}
    und, dire = observed_graph(graph)
    res = {}
    for a, b in sorted(dire):
        parents = [p for p in names if p != b and graph.directed_edge_exists(p, b)]
        val = graph.edge_value(a, b)
        if "direct_effect" not in val:
            mon.violation("missing", f"oriented edge {a}->{b} has no direct effect: {val} ({desc})")
            return None
        ref = ols(D, b, parents)
        mon.event("e2e_oriented" if e2e else "oriented")
        if len(parents) > 1:
            mon.event("multi_parent")
            sds = [D[p].std() for p in parents]
            if max(sds) > 1e8 * min(sds):
                mon.event("far_units")
        if ref is None:
            mon.event("collinear_skipped")
            continue
        coef, sdy, sdx, cond = ref
        got = val["direct_effect"]
        if cond > 1e4:
            mon.event("nearly_collinear")
        # rounding grows with the square of the condition number
        slack = 1e-6 + 1e-14 * cond**2
        tol = slack * (sdy / sdx[a] + abs(coef[a]))
        mon.evaluate(digest([desc, a, b]), sample={"edge": f"{a}->{b}", "parents": parents, "effect": got, "reference": float(coef[a])} if len(parents) > 1 else None)
        if not np.isfinite(got) or abs(got - coef[a]) > tol:
            mon.violation("coefficient", f"effect of {a} on {b} is {got}, regression on {parents} gives {coef[a]} ({desc})")
            return None
        res[(a, b)] = (got, slack)
    for p in und:
        for a, b in itertools.permutations(p):
            mon.event("undirected")
            if "direct_effect" in (graph.edge_value(a, b) or {}):
                mon.violation("undirected", f"undirected edge {a}-{b} carries a direct effect {graph.edge_value(a,b)} ({desc})")
                return None
    return res


def imposed(data, und, dire, ghosts, rng):
    from causy.causal_effect_estimation.multivariate_regression import ComputeDirectEffectsInDAGsMultivariateRegression
    from causy.edge_types import DirectedEdge, UndirectedEdge
    from causy.generators import PairsWithEdgesInBetweenGenerator
    from causy.graph_model import graph_model_factory
    from causy.models import Algorithm

    kw = {}
    if rng.random() < 0.4:
        kw["generator"] = PairsWithEdgesInBetweenGenerator(chunked=True, chunk_size=rng.choice([1, 2, 5, 100]))
    elif rng.random() < 0.3:
        kw["apply_synchronous"] = True
    m = graph_model_factory(
        Algorithm(
            name="x",
            pipeline_steps=[ComputeDirectEffectsInDAGsMultivariateRegression(**kw)],
            edge_types=[DirectedEdge(), UndirectedEdge()],
        )
    )()
    m.create_graph_from_data(data)
    N = m.graph.nodes
    for a, b in ghosts:
        m.graph.add_directed_edge(N[a], N[b], {})
        m.graph.remove_directed_edge(N[a], N[b], soft_delete=True)
    for a, b in und:
        m.graph.add_edge(N[a], N[b], {"k": 1})
    for a, b in dire:
        m.graph.add_directed_edge(N[a], N[b], {"k": 1})
    m.execute_pipeline_steps()
    for a, b in dire:
        if m.graph.edge_value(a, b).get("k") != 1:
            return m, f"other values of {a}->{b} lost: {m.graph.edge_value(a,b)}"
    return m, None


def cases(tier, seed):
    k = 4 if tier == "quick" else 30
    return [{"kind": "imposed", "seed": seed * 50021 + i} for i in range(500 * k)] + [
        {"kind": "e2e", "seed": seed * 50023 + i} for i in range(150 * k)
    ]


def run_case(case, mon):
    rng = random.Random(case["seed"])
    nr = np.random.default_rng(case["seed"])
    n = rng.randint(2, 8)
    rows = rng.choice([n + 3, 20, 60, 300])
    edges = refs.random_dag(n, rng.uniform(0.2, 0.8), rng)
    w = {e: rng.uniform(-2, 2) for e in edges}
    order = []
    rest = list(range(n))
    while rest:
        for v in rest:
            if refs.parents(edges, v) <= set(order):
                order.append(v)
                rest.remove(v)
                break
    cols = {}
    close = case["kind"] == "imposed" and rng.random() < 0.2
    for v in order:
        near = [a for a, b in edges if b == v] if close else []
        if near and rng.random() < 0.6:
            # this variable nearly repeats one of its causes: as parents of a third one they are hard to tell apart
            cols[v] = cols[rng.choice(near)] + 10 ** rng.uniform(-5, -3) * nr.standard_normal(rows)
            continue
        cols[v] = nr.standard_normal(rows) * rng.uniform(0.3, 2) + sum(w[(a, b)] * cols[a] for a, b in edges if b == v)
    names = random_names(rng, n)
    # every third data set mixes units which are very far apart (concentrations and populations, say)
    span = 2 if close else rng.choice([2, 2, 9])
    unit = {i: 10 ** rng.uniform(-span, span) for i in range(n)}
    off = {i: rng.choice([0, rng.uniform(-100, 100)]) * (1 if span == 2 and not close else unit[i] / 10) for i in range(n)}
    data = {names[i]: [float(x) for x in cols[i] * unit[i] + off[i]] for i in range(n)}
    desc = str(case)
    sc = {a: 10 ** rng.uniform(-1.5, 1.5) * rng.choice((-1, 1)) for a in names}
    of = {a: rng.uniform(-50, 50) * float(np.std(data[a])) for a in names}
    other = {a: [x * sc[a] + of[a] for x in data[a]] for a in names}
    if case["kind"] == "imposed":
        und, dire, ghosts = [], [], []
        for a, b in edges:
            r = rng.random()
            if r < 0.2:
                und.append((names[a], names[b]))
            else:
                dire.append((names[a], names[b]))
                if rng.random() < 0.15:
                    ghosts.append((names[b], names[a]))
        for a, b in itertools.permutations(names, 2):
            if rng.random() < 0.1 and not any({a, b} == set(e) for e in und + dire + ghosts):
                ghosts.append((a, b))
        m, err = imposed(data, und, dire, ghosts, rng)
        if err:
            mon.violation("lost-values", err)
            return
        r1 = judge(m.graph, data, mon, desc)
        if r1 is None:
            return
        m2, _ = imposed(other, und, dire, ghosts, rng)
        r2 = judge(m2.graph, other, mon, desc + " rescaled")
        if r2 is None:
            return
        for (a, b), (v, slack) in r1.items():
            if (a, b) in r2:
                want = v * sc[b] / sc[a]
                mon.event("metamorphic")
                ref = abs(sc[b] / sc[a]) * (np.std(data[b]) / np.std(data[a]) + abs(v))
                if abs(r2[(a, b)][0] - want) > 10 * slack * ref:
                    mon.violation("metamorphic", f"effect {a}->{b}: {v} became {r2[(a,b)]}, expected {want} ({desc})")
                    return
    else:
        name, cls = rng.choice([(k, v) for k, v in pc_models().items() if k != "ParallelPC"])
        m = run_model(cls(), data)
        judge(m.graph, data, mon, desc + name, e2e=True)
