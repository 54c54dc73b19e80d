"""C04: correlations stored on the edges vs. extended precision Pearson correlations, plus metamorphic relations."""
import itertools
import math
import random

import numpy as np

from vlib.core import digest
from vlib.graphs import random_names

PROPERTY = "C04"
LEVEL = "exploration"
TECHNIQUE = "state monitor on edge values against an independent Pearson reference, metamorphic runs"
RULE = (
    "samples of 2-500 rows with 2-8 columns from several distributions, with constant, duplicated and perfectly (anti-)correlated columns and large offsets, in several input shapes; "
    "every edge of the complete graph is compared in both directions, and those of an incomplete graph with directed and removed edges; metamorphic runs: permuted columns, offsets, sign flips, rescaling; distinct = distinct (data set, pair)"
)
ASSUMPTIONS = ["agreement up to the rounding error of double precision (grows with mean/deviation of the columns)"]
FLOORS = {"edge": 5000, "constant": 100, "perfect": 100, "metamorphic": 500, "partial_undirected": 500, "partial_directed": 500}
CPU_LIMIT = 60


def reference(x, y):
    if len(set(x)) == 1 or len(set(y)) == 1:
        return 0.0, 0.0
    X, Y = np.asarray(x, np.longdouble), np.asarray(y, np.longdouble)
    X = X - X.mean()
    Y = Y - Y.mean()
    r = float((X @ Y) / np.sqrt((X @ X) * (Y @ Y)))
    cx = max(abs(float(np.mean(x))) / (float(np.std(x)) + 1e-300), 1)
    cy = max(abs(float(np.mean(y))) / (float(np.std(y)) + 1e-300), 1)
    return r, 1e-10 + 3e-15 * max(cx, cy) ** 1 * 10 + 3e-16 * max(cx, cy) ** 2


def correlations(data, model_kind, shape, mon):
    from causy.common_pipeline_steps.calculation import CalculatePearsonCorrelations
    from causy.graph_model import graph_model_factory
    from causy.models import Algorithm
    from causy.edge_types import DirectedEdge, UndirectedEdge

    m = graph_model_factory(
        Algorithm(name="x", pipeline_steps=[CalculatePearsonCorrelations()], edge_types=[DirectedEdge(), UndirectedEdge()])
    )()
    if shape == "rows":
        n = len(next(iter(data.values())))
        data = [{k: v[i] for k, v in data.items()} for i in range(n)]
    m.create_graph_from_data(data)
    m.create_all_possible_edges()
    m.execute_pipeline_steps()
    g = m.graph
    out = {}
    for a, b in itertools.permutations(g.nodes, 2):
        v = g.edge_value(a, b)
        if not isinstance(v, dict) or "correlation" not in v:
            mon.violation("missing", f"edge {a}->{b} carries {v}")
            return None
        out[(a, b)] = v["correlation"]
    listed = {(e.u.id, e.v.id): e.metadata.get("correlation") for e in g.retrieve_edges()}
    if listed != out:
        mon.violation("listing", f"edge list {listed} differs from edge values {out}")
        return None
    return out


def partial(data, full, tol, rng, mon):
    """on a graph which is not complete, with edges which point in one direction only and with removed ones"""
    from causy.common_pipeline_steps.calculation import CalculatePearsonCorrelations
    from causy.edge_types import DirectedEdge, UndirectedEdge
    from causy.graph_model import graph_model_factory
    from causy.models import Algorithm

    m = graph_model_factory(
        Algorithm(name="x", pipeline_steps=[CalculatePearsonCorrelations()], edge_types=[DirectedEdge(), UndirectedEdge()])
    )()
    m.create_graph_from_data(data)
    g, N, want = m.graph, m.graph.nodes, set()
    for a, b in itertools.combinations(N, 2):
        a, b = rng.choice([(a, b), (b, a)])
        r = rng.random()
        if r < 0.3:
            g.add_edge(N[a], N[b], {"k": 1})
            want |= {(a, b), (b, a)}
        elif r < 0.6:
            g.add_directed_edge(N[a], N[b], {"k": 1})
            want.add((a, b))
        elif r < 0.7:
            g.add_edge(N[a], N[b], {"k": 1})
            g.remove_directed_edge(N[b], N[a], soft_delete=rng.random() < 0.5)
            want.add((a, b))
        elif r < 0.8:
            g.add_edge(N[a], N[b], {"k": 1})
            g.remove_edge(N[a], N[b], soft_delete=rng.random() < 0.5)
    m.execute_pipeline_steps()
    got = {(e.u.id, e.v.id): e.metadata for e in g.retrieve_edges()}
    if set(got) != want:
        mon.violation("edges", f"the correlation step changed the edges {sorted(want)} to {sorted(got)}")
        return False
    for (a, b), v in sorted(got.items()):
        c = v.get("correlation")
        mon.event("partial_undirected" if (b, a) in want else "partial_directed")
        if c is None or v.get("k") != 1:
            mon.violation("missing", f"edge {a}->{b} of {sorted(want)} carries {v}")
            return False
        if not -1 <= c <= 1 or abs(c - full[(a, b)]) > tol[(a, b)][1]:
            mon.violation("value", f"edge {a}->{b} of {sorted(want)} carries {v}, on the complete graph it is {full[(a, b)]}")
            return False
    return True


def cases(tier, seed):
    return [{"seed": seed * 104729 + i, "i": i} for i in range(6000 if tier == "quick" else 20000)]


def scaled(rng, c):
    """other units: moderate ones with or without an offset, or extreme ones"""
    if rng.random() < 0.35:
        d = c * 10 ** rng.uniform(-60, 60)
        # far from the range of doubles, so that squares neither overflow nor vanish
        return d if 1e-100 < np.abs(d).max() < 1e100 else c
    return c * 10 ** rng.uniform(-5, 5) + rng.choice([0, rng.uniform(-1, 1)])


def make(rng, np_rng):
    k = rng.randint(2, 7)
    n = rng.choice([2, 2, 3, 4, 5, 7, 10, 30, 100, 500])
    cols = []
    for i in range(k):
        r = rng.random()
        c = np_rng.standard_normal(n) if r < 0.6 else np_rng.exponential(1, n) if r < 0.8 else np_rng.integers(-3, 4, n).astype(float)
        for p in cols:
            if rng.random() < 0.5:
                c = c + rng.uniform(-1, 1) * p
        r = rng.random()
        if r < 0.1:
            c = np.full(n, rng.choice([0.0, 1.0, 0.1, -3.7, 1 / 3, 1e6 + 0.1]))
        elif r < 0.2 and cols:
            c = rng.choice(cols) * rng.choice([1, -1, 2.5, -0.1]) + rng.choice([0, 1, -7.3])
        elif r < 0.6:
            c = scaled(rng, c)
        elif r < 0.8:
            c = c + rng.choice([1e2, -1e3, 1e4])
        cols.append(c)
    return cols


def run_case(case, mon):
    rng = random.Random(case["seed"])
    np_rng = np.random.default_rng(case["seed"])
    cols = make(rng, np_rng)
    names = random_names(rng, len(cols))
    data = {a: [float(v) for v in c] for a, c in zip(names, cols)}
    shape = rng.choice(["dict", "rows"])
    got = correlations(data, None, shape, mon)
    if got is None:
        return
    tol = {}
    for a, b in itertools.permutations(names, 2):
        r, t = reference(data[a], data[b])
        tol[(a, b)] = (r, t)
        c = got[(a, b)]
        mon.event("edge")
        if r == 0.0 and t == 0.0:
            mon.event("constant")
        if abs(r) > 1 - 1e-12:
            mon.event("perfect")
        mon.evaluate(digest([case["seed"], a, b]), sample={"pair": [a, b], "rows": len(data[a]), "correlation": c, "reference": r})
        if not isinstance(c, (int, float)) or not math.isfinite(c) or not -1 <= c <= 1:
            mon.violation("range", f"correlation of {a},{b} is {c!r}")
            return
        if c != got[(b, a)]:
            mon.violation("symmetry", f"{a},{b}: {c} vs {got[(b,a)]}")
            return
        if abs(c - r) > t:
            mon.violation("value", f"correlation of {a},{b} is {c}, Pearson correlation {r} (tolerance {t}); rows {len(data[a])}; {data[a][:5]} {data[b][:5]}")
            return
    if not partial(data, got, tol, rng, mon):
        return
    # metamorphic: permuted columns, flipped signs, other units and offsets
    perm = names[:]
    rng.shuffle(perm)
    sign = {a: rng.choice((-1, 1)) for a in names}
    unit = {a: 2.0 ** rng.randint(-6, 6) for a in names}
    off = {a: rng.choice([0.0, 0.0, rng.uniform(-3, 3)]) * (max(map(abs, data[a])) or 1.0) for a in names}
    other = {a: [v * sign[a] * unit[a] + off[a] for v in data[a]] for a in perm}
    got2 = correlations(other, None, rng.choice(["dict", "rows"]), mon)
    if got2 is None:
        return
    for a, b in itertools.permutations(names, 2):
        if len(set(data[a])) == 1 or len(set(data[b])) == 1:
            want, t = 0.0, 0.0
            # an offset may not turn a constant column into a varying one
            if len(set(other[a])) > 1 and len(set(other[b])) > 1:
                continue
        else:
            want = got[(a, b)] * sign[a] * sign[b]
            t = tol[(a, b)][1] + reference(other[a], other[b])[1] + 1e-8
        mon.event("metamorphic")
        if abs(got2[(a, b)] - want) > t:
            mon.violation("metamorphic", f"{a},{b}: {got[(a,b)]} became {got2[(a,b)]} after sign {sign[a]},{sign[b]}, units and offsets")
            return
