"""C03: every decision of the independence tests vs. textbook partial correlation tests on the full sample."""
import itertools
import math
import random

import numpy as np
from scipy import stats

from vlib import refs
from vlib.core import digest
from vlib.graphs import random_names

PROPERTY = "C03"
LEVEL = "exploration"
TECHNIQUE = "online monitor of every test decision against textbook test statistics"
RULE = (
    "each test step is called for every pair and conditioning set on complete graphs and run inside a pipeline, on correlated samples of 3-400 rows with "
    "random units, offsets and distributions, on samples built to lie right next to the decision boundary, and on degenerate samples; "
    "distinct = distinct (data set, test, pair, conditioning set) decisions compared"
)
ASSUMPTIONS = [
    "decisions whose p-value is within 1e-6 (relative) of the threshold, or whose correlation matrix has a condition number above 1e7, are rounding dependent and only checked for errors",
    "samples too small for the test (no degrees of freedom) are only checked for errors",
]
FLOORS = {"decision": 5000, "removal": 1000, "keep": 1000, "boundary": 200, "degenerate_run": 200, "pipeline_decision": 1000, "bundled_run": 100}
CPU_LIMIT = 120


def steps(thr):
    from causy.causal_discovery.constraint.independence_tests.common import (
        CorrelationCoefficientTest,
        PartialCorrelationTest,
        ExtendedPartialCorrelationTestMatrix,
        ExtendedPartialCorrelationTestLinearRegression,
    )

    return {
        "corr": CorrelationCoefficientTest(threshold=thr),
        "partial": PartialCorrelationTest(threshold=thr),
        "matrix": ExtendedPartialCorrelationTestMatrix(threshold=thr),
        "regression": ExtendedPartialCorrelationTestLinearRegression(threshold=thr),
    }


class Oracle:
    def __init__(self, data):
        self.d = {k: np.asarray(v, float) for k, v in data.items()}
        self.n = len(next(iter(self.d.values())))
        self.cache = {}

    def r(self, x, y, z):
        """partial correlation or None if it is not well defined numerically"""
        key = (*sorted((x, y)), tuple(sorted(z)))
        if key not in self.cache:
            cols = [self.d[k] for k in (x, y, *z)]
            res = None
            if self.n > len(z) + 2 and all(c.std() > 1e-12 * (1 + abs(c.mean())) for c in cols):
                m = np.corrcoef(np.array(cols))
                if np.isfinite(m).all() and (not z or np.linalg.cond(m) < 1e7):
                    res = refs.partial_corr_residuals(self.d, x, y, list(z))
            self.cache[key] = res
        return self.cache[key]

    def r_origin(self, x, y, z):
        """correlation of the residuals of regressions through the origin"""
        Z = np.array([self.d[k] for k in z]).T
        rx, ry = (self.d[c] - Z @ np.linalg.lstsq(Z, self.d[c], rcond=None)[0] for c in (x, y))
        den = math.sqrt((rx @ rx) * (ry @ ry))
        return float(rx @ ry) / den if den > 0 else None

    def independent(self, test, x, y, z, thr, origin=False):
        """True/False or None (undecidable)"""
        r = self.r_origin(x, y, z) if origin else self.r(x, y, z)
        k = len(z)
        if r is None or abs(r) > 0.9999:
            # (nearly) perfectly correlated variables are dependent at every sensible threshold
            if r is not None and self.n - k - 3 >= 10:
                return False
            return None
        if test == "regression":
            df = self.n - 2 - k
            if df <= 0:
                return None
            t = abs(r) * math.sqrt(df / (1 - r * r))
            p = 2 * stats.t.sf(t, df)
        else:
            if self.n - k - 3 <= 0:
                return None
            p = refs.fisher_p(r, self.n, k)
        if abs(p - thr) <= 1e-6 * max(p, thr):
            return None
        return p > thr


def action_of(res):
    return res.action.value


def judge(mon, orc, test, res, thr, x, y, z, desc, where):
    """compare one decision"""
    want = orc.independent(test, x, y, z, thr)
    if want is None:
        mon.event("undecidable")
        return True
    mon.event("decision")
    mon.event("pipeline_decision" if where == "pipeline" else "direct_decision")
    got = action_of(res) == "REMOVE_EDGE_UNDIRECTED"
    mon.event("removal" if got else "keep")
    mon.evaluate(digest([desc, test, x, y, sorted(z), where]), sample={"test": test, "pair": [x, y], "given": list(z), "partial_correlation": orc.r(x, y, z), "rows": orc.n, "threshold": thr, "removed": got} if z else None)
    if got != want:
        kind = f"decision-{test}"
        if test == "regression" and orc.independent(test, x, y, z, thr, origin=True) in (got, None):
            kind = "regression-through-origin"
        mon.violation(
            kind,
            f"{test}: {x},{y} given {z}: partial correlation {orc.r(x,y,z):.6f}, {orc.n} rows, threshold {thr}: "
            f"{'removed' if got else 'kept'} ({where}; {desc})",
        )
        return kind in mon.known
    return True


def stated(res):
    x, y, z = res.data["triple"]
    return x.id, y.id, [k.id for k in z]


def check_result(mon, orc, test, res, thr, desc, where, expect=None):
    x, y, z = stated(res)
    if {x, y} != {res.u.id, res.v.id} or len(set(z)) != len(z) or set(z) & {x, y}:
        mon.violation("inconsistent-result", f"{test}: result about {res.u.id},{res.v.id} states triple {x},{y},{z}")
        return False
    if expect is not None and (frozenset((x, y)), frozenset(z)) != expect:
        mon.violation("wrong-conditioning", f"{test}: asked for {expect} but the decision states {x},{y} | {z}")
        return False
    if action_of(res) == "REMOVE_EDGE_UNDIRECTED":
        sep = [k.id for k in res.data["separatedBy"]]
        if sorted(sep) != sorted(z):
            mon.violation("separating-set", f"{test}: recorded separating set {sep} but tested {z}")
            return False
    return judge(mon, orc, test, res, thr, x, y, z, desc, where)


def complete_graph(data):
    from causy.common_pipeline_steps.calculation import CalculatePearsonCorrelations
    from causy.graph_model import graph_model_factory
    from causy.models import Algorithm
    from causy.edge_types import DirectedEdge, UndirectedEdge

    m = graph_model_factory(
        Algorithm(name="x", pipeline_steps=[CalculatePearsonCorrelations()], edge_types=[DirectedEdge(), UndirectedEdge()])
    )()
    m.create_graph_from_data(data)
    m.create_all_possible_edges()
    m.execute_pipeline_steps()
    return m.graph


def attempt(mon, orc, test, call, nodes, desc):
    """one call; errors which are known to happen get a kind of their own"""
    try:
        return call()
    except (ZeroDivisionError, ValueError) as e:
        kind = error_kind(orc, test, nodes, e)
        if kind is None:
            raise
        mon.violation(kind, f"{test} {nodes}: {e!r} {desc}")
        if kind not in mon.known:
            raise
        return "error"


def error_kind(orc, test, nodes, e):
    if test == "regression" or not (isinstance(e, ZeroDivisionError) or "math domain" in str(e)):
        return None
    k = len(nodes) - 2
    if orc.n - k - 3 < 0:
        return "fisher-error-small-sample"
    for x, y in itertools.combinations(nodes, 2):
        r = orc.r(x, y, [c for c in nodes if c not in (x, y)])
        if r is None or abs(r) > 0.9999:
            return "fisher-error-perfect-correlation"
    return None


def direct(mon, data, thr, desc, degenerate=False, only=None):
    orc = Oracle(data)
    g = complete_graph(data).graph
    names = list(data)
    S = steps(thr)
    for x, y in itertools.combinations(names, 2):
        res = attempt(mon, orc, "corr", lambda: S["corr"]((x, y), g), (x, y), desc)
        if res == "error":
            continue
        if res is None:
            mon.violation("no-decision", f"corr {x},{y} {desc}")
            return
        if not check_result(mon, orc, "corr", res, thr, desc, "direct", (frozenset((x, y)), frozenset())):
            return
    for tri in itertools.combinations(names, 3):
        res = attempt(mon, orc, "partial", lambda: S["partial"](tri, g), tri, desc)
        if res == "error":
            continue
        res = res or []
        seen = set()
        for r in res:
            x, y, z = stated(r)
            seen.add(frozenset((x, y)))
            if set((x, y, *z)) != set(tri):
                mon.violation("wrong-conditioning", f"partial: asked about {tri}, decision about {x},{y}|{z}")
                return
            if not check_result(mon, orc, "partial", r, thr, desc, "direct"):
                return
        for x, y in itertools.combinations(tri, 2):
            z = [k for k in tri if k not in (x, y)]
            if frozenset((x, y)) not in seen and orc.independent("partial", x, y, z, thr) is not None:
                mon.violation("no-decision", f"partial {x},{y} given {z} {desc}")
                return
    for size in range(1, len(names) - 1):
        for z in itertools.combinations(names, size):
            for x, y in itertools.combinations([k for k in names if k not in z], 2):
                for test in ("matrix", "regression"):
                    tup = [x, y, *z]
                    res = attempt(mon, orc, test, lambda: S[test](tup, g), tup, desc)
                    if res == "error":
                        continue
                    if res is None:
                        if test == "matrix" and orc.independent(test, x, y, z, thr) is not None:
                            mon.violation("no-decision", f"{test} {x},{y} given {z} {desc}")
                            return
                        continue
                    if not check_result(mon, orc, test, res, thr, desc, "direct", (frozenset((x, y)), frozenset(z))):
                        return
    if degenerate:
        mon.event("degenerate_run")


def pipeline(mon, data, thr, desc, rng):
    from causy.common_pipeline_steps.calculation import CalculatePearsonCorrelations
    from causy.common_pipeline_steps.logic import ApplyActionsTogether
    from causy.generators import PairsWithNeighboursGenerator
    from causy.graph_model import graph_model_factory
    from causy.models import Algorithm, ComparisonSettings
    from causy.edge_types import DirectedEdge, UndirectedEdge
    from vlib.drive import run_model, flatten_history

    orc = Oracle(data)
    S = steps(thr)
    ext = S[rng.choice(["matrix", "regression"])]
    chunked = rng.random() < 0.5
    ext.generator = PairsWithNeighboursGenerator(
        comparison_settings=ComparisonSettings(min=rng.choice([3, 4]), max=0), chunked=chunked, shuffle_combinations=rng.random() < 0.5
    )
    if rng.random() < 0.4 and not chunked:
        ext.apply_synchronous = True
    tests = [S["corr"], S["partial"], ext]
    if rng.random() < 0.3:
        tests = [ApplyActionsTogether(pipeline_steps=tests)]
    m = graph_model_factory(
        Algorithm(name="x", pipeline_steps=[CalculatePearsonCorrelations()] + tests, edge_types=[DirectedEdge(), UndirectedEdge()])
    )()
    try:
        run_model(m, data)
    except (ZeroDivisionError, ValueError) as e:
        kind = None
        names = list(data)
        for size in range(2, len(names) + 1):
            for sub in itertools.combinations(names, size):
                kind = kind or error_kind(orc, "corr", sub, e)
        if kind is None:
            raise
        mon.violation(kind, f"pipeline: {e!r} {desc}")
        return
    if not decisions(mon, orc, m, data, thr, desc):
        return


def decisions(mon, orc, m, data, thr, desc):
    """every decision which the history of an executed model contains"""
    from vlib.drive import flatten_history

    short = {s.name: k for k, s in steps(thr).items()}
    n_corr = 0
    for h in flatten_history(m.graph.action_history):
        test = short.get(h.name)
        if test is None:
            continue
        for res in h.all_proposed_actions:
            if test == "corr":
                n_corr += 1
            if not check_result(mon, orc, test, res, thr, desc, "pipeline"):
                return False
        for res in h.actions:
            if action_of(res) != "REMOVE_EDGE_UNDIRECTED":
                mon.violation("unexpected-action", f"{test} took {res.action}")
                return False
    k = len(data)
    if n_corr != k * (k - 1) // 2:
        mon.violation("no-decision", f"{n_corr} decisions of the correlation test for {k} variables")
        return False
    # what was recorded for each removed edge
    for a, b in itertools.combinations(data, 2):
        hist = m.graph.retrieve_edge_history(a, b)
        rem = [h for h in hist if action_of(h) == "REMOVE_EDGE_UNDIRECTED"]
        if m.graph.edge_exists(a, b) == bool(rem):
            mon.violation("removal-record", f"edge {a},{b} exists={m.graph.edge_exists(a,b)} but {len(rem)} removals recorded")
            return False
    return True


def bundled(mon, data, thr, desc, rng):
    """the bundled algorithms decide at the threshold which is configured through their variable"""
    from causy.graph_model import graph_model_factory
    from causy.serialization import load_algorithm_by_reference
    from vlib import pool
    from vlib.drive import run_model

    name = rng.choice(["PC", "PCClassic", "PCStable", "ParallelPC", "ParallelPC"])
    given = {} if rng.random() < 0.1 else {"threshold": thr}
    if name == "ParallelPC" and rng.random() < 0.7:
        given["every_nth_sample"] = rng.choice([1, 2, 10])
    orc = Oracle(data)
    with pool.patched(random.Random(rng.random()), rng.choice([(1, 1, 1), (4, 2, 1)])):
        # (naming an algorithm creates a model and with it a pool)
        alg = load_algorithm_by_reference("python_module", "causy.causal_discovery.constraint.algorithms.pc." + name)
        m = graph_model_factory(alg, given or None)()
        run_model(m, data)
    mon.event("bundled_run")
    decisions(mon, orc, m, data, given.get("threshold", 0.05), f"{name} {given} {desc}")


def scale(rng, cols):
    return [c * 10 ** rng.uniform(-2, 2) * rng.choice((-1, 1)) + rng.choice([0, 0, rng.uniform(-50, 50)]) for c in cols]


def random_data(rng, np_rng, k, n):
    cols = []
    for i in range(k):
        c = np_rng.standard_normal(n) if rng.random() < 0.7 else np_rng.exponential(1, n)
        for p in cols:
            if rng.random() < 0.5:
                c = c + rng.uniform(-1, 1) * p / (p.std() + 1e-9)
        cols.append(c)
    return cols


def boundary_data(rng, np_rng, k, n, thr, test):
    """columns x, y, z1..zk with a partial correlation of x,y given all z right next to the decision boundary"""
    factor = 1 + rng.choice((-1, 1)) * rng.choice([1e-3, 1e-2, 0.05])
    p = min(max(thr * factor, 1e-5), 0.999)
    if test == "regression":
        df = n - 2 - k
        t = stats.t.isf(p / 2, df)
        r = t / math.sqrt(df + t * t)
    else:
        r = math.tanh(stats.norm.isf(p / 2) / math.sqrt(n - k - 3))
    r *= rng.choice((-1, 1))
    s = np.eye(k + 2)
    s[0, 1] = s[1, 0] = r
    m = refs.exact_data(np_rng, s, n, rng.choice(["normal", "uniform", "exp"]))
    x, y, z = m[:, 0], m[:, 1], [m[:, 2 + i] for i in range(k)]
    x = x + sum(rng.uniform(-1, 1) * c for c in z)
    y = y + sum(rng.uniform(-1, 1) * c for c in z)
    return [x, y, *z]


def degenerate_data(rng, np_rng, k, n):
    cols = random_data(rng, np_rng, k, n)
    for _ in range(rng.randint(1, 2)):
        i, j = rng.sample(range(k), 2)
        r = rng.random()
        if r < 0.25:
            cols[i] = np.full(n, rng.choice([0.0, 1.0, -3.7]))
        elif r < 0.5:
            cols[i] = cols[j].copy()
        elif r < 0.7:
            cols[i] = -2 * cols[j] + 3
        elif r < 0.85:
            cols[i] = sum(c for q, c in enumerate(cols) if q != i)
        else:
            cols[i] = np.round(cols[i])
    return cols


def cases(tier, seed):
    out = []
    m = 2 if tier == "quick" else 12
    for i in range(220 * m):
        out.append({"kind": "random", "seed": seed * 31 + i * 7919, "k": [3, 4, 5, 4, 3, 6][i % 6]})
    for i in range(260 * m):
        out.append({"kind": "boundary", "seed": seed * 37 + i * 7907, "k": [0, 1, 2, 3, 1, 2][i % 6]})
    for i in range(220 * m):
        out.append({"kind": "degenerate", "seed": seed * 41 + i * 7901, "k": [3, 4, 3, 5][i % 4]})
    for i in range(150 * m):
        out.append({"kind": "bundled", "seed": seed * 47 + i * 7877, "k": [4, 5, 6, 7][i % 4]})
        out.append({"kind": "pipeline", "seed": seed * 43 + i * 7883, "k": [3, 4, 5, 6][i % 4]})
    return out


THR = [0.05, 0.01, 0.001, 0.1, 0.3, 0.5, 0.005]


def run_case(case, mon):
    rng = random.Random(case["seed"])
    np_rng = np.random.default_rng(case["seed"])
    thr = rng.choice(THR)
    kind = case["kind"]
    if kind == "boundary":
        n = rng.choice([8, 12, 20, 35, 60, 150, 400]) + case["k"]
        test = rng.choice(["matrix", "regression"])
        cols = boundary_data(rng, np_rng, case["k"], n, thr, test)
        mon.event("boundary")
    elif kind == "degenerate":
        n = rng.choice([2, 3, 4, 5, 6, 10, 40])
        cols = degenerate_data(rng, np_rng, case["k"], n)
    elif kind == "bundled":
        n = rng.choice([20, 40, 80, 150])
        cols = random_data(rng, np_rng, case["k"], n)
    else:
        n = rng.choice([3, 4, 5, 6, 8, 10, 15, 30, 60, 200])
        cols = random_data(rng, np_rng, case["k"], n)
    if kind != "degenerate" or rng.random() < 0.5:
        cols = scale(rng, cols)
    names = random_names(rng, len(cols))
    data = {a: [float(v) for v in c] for a, c in zip(names, cols)}
    desc = f"case {case} thr={thr} n={n}"
    if kind == "bundled":
        bundled(mon, data, thr, desc, rng)
    elif kind == "pipeline":
        pipeline(mon, data, thr, desc, rng)
    else:
        direct(mon, data, thr, desc, degenerate=kind == "degenerate")
        if kind == "degenerate":
            pipeline(mon, data, thr, desc, rng)
