"""C20: generated sample data obeys the declared structural equations."""
import random
import string

from vlib.core import digest

PROPERTY = "C20"
LEVEL = "exploration"
TECHNIQUE = "trace monitor: every noise value handed out is recorded and has to reappear exactly once as the residual of a declared equation; stationary spread against a Lyapunov solver"
RULE = (
    "random acyclic and cyclic declarations (sizes, weights including zero and negative ones, name and edge orders) and random stable lagged declarations (lags 1 to 3, self dependence) are generated with a recorded noise source of distinct values; "
    "residuals are matched with the recorded values (each exactly once), the graph with the declared edges, the initial spread with an independent solution of the discrete Lyapunov equation; cyclic declarations have to be rejected; "
    "distinct = distinct declarations checked"
)
ASSUMPTIONS = ["time series edges are declared once", "time series edges have a lag of at least one and the declared process is stable (the generator computes its spread in single precision)", "the values of time series before the longest lag has passed are not specified"]
FLOORS = {"iid": 800, "iid_residual": 50000, "iid_edge": 3000, "cycle_rejected": 300, "self_loop_rejected": 50, "series": 350, "series_residual": 15000, "series_edge": 10000, "spread": 800, "multi_lag": 100, "default_noise": 20, "default_spread": 8, "shaped": 200}
CPU_LIMIT = 90


def cases(tier, seed):
    n = 9 if tier == "quick" else 60
    out = [{"kind": "iid", "seed": seed * 1000211 + i} for i in range(900 * n)]
    out += [{"kind": "cycle", "seed": seed * 1000213 + i} for i in range(400 * n)]
    out += [{"kind": "series", "seed": seed * 1000231 + i} for i in range(400 * n)]
    out += [{"kind": "default_iid", "seed": seed * 1000249 + i} for i in range(24 * n)]
    out += [{"kind": "default_series", "seed": seed * 1000253 + i} for i in range(10 * n)]
    return out


def names(rng, n):
    style = rng.random()
    if style < 0.5:
        pool = list(string.ascii_uppercase)
    elif style < 0.75:
        pool = ["x1", "x10", "x2", "é", "a b", "日本", "", " ", "0", "1", "-1", "None", "t", "a-b", "a.b", "A", "a", "Z", "zz", "é é"]
    else:
        pool = [f"v{rng.randrange(10**6)}" for _ in range(40)]
    return rng.sample(list(dict.fromkeys(pool)), n)


class Noise:
    """hands out distinct whole numbers"""

    def __init__(self, rng, limit=2**18):
        self.rng, self.limit = rng, limit
        self.given = []
        self.used = set()

    def __call__(self):
        while True:
            x = self.rng.randint(-self.limit, self.limit)
            if x not in self.used:
                self.used.add(x)
                self.given.append(x)
                return float(x)


def declaration(rng):
    n = rng.randint(2, 9)
    vs = names(rng, n)
    p = rng.choice([0.2, 0.4, 0.8, 1.0])
    edges = [(vs[i], vs[j], rng.choice([1, -1, 2, -2, 3, 0.5, -0.25, 0, 1.5, rng.choice([1, 2, 4]) / 8])) for i in range(n) for j in range(i + 1, n) if rng.random() < p]
    if not edges:
        edges = [(vs[0], vs[1], 2)]
    if rng.random() < 0.25:  # contributions of an edge which is declared more than once add up
        for _ in range(rng.randint(1, 2)):
            a, b, w = rng.choice(edges)
            edges.append((a, b, rng.choice([1, -1, 2, 0.5, w])))
    rng.shuffle(edges)
    return edges


def run_case(case, mon):
    rng = random.Random(case["seed"])
    {"iid": iid, "cycle": cycle, "series": series, "default_iid": default_iid, "default_series": default_series}[case["kind"]](rng, mon)


def sample_edges(edges):
    from causy.sample_generator import NodeReference, SampleEdge

    return [SampleEdge(NodeReference(a), NodeReference(b), w) for a, b, w in edges]


def iid(rng, mon):
    from causy.sample_generator import IIDSampleGenerator

    edges = declaration(rng)
    vs = sorted({x for e in edges for x in e[:2]})
    size = rng.choice([1, 2, 7, 20, 60])
    noise = Noise(rng)
    declared = sample_edges(edges)
    sg = IIDSampleGenerator(edges=declared, random=noise)
    for round_ in range(2 if rng.random() < 0.3 else 1):
        noise.given.clear()
        noise.used.clear()
        data, graph = sg.generate(size)
        desc = lambda: f"edges {edges} size {size} (generation {round_ + 1})"
        mon.event("iid")
        if not mon.check(sorted(data) == vs and all(tuple(data[v].shape) == (size,) for v in vs), "shape", lambda: f"data {({k: tuple(x.shape) for k, x in data.items()})}; {desc()}"):
            return
        left = set(noise.given)
        if not residuals(mon, "iid_residual", left, {v: data[v].double().tolist() for v in vs}, {v: [(a, 0, w) for a, b, w in edges if b == v] for v in vs}, 0, size, desc, exact=True):
            return
        if not mon.check(not left, "noise-lost", lambda: f"noise values {sorted(left)[:5]} appear in no equation; {desc()}"):
            return
        if not static_graph(mon, graph, vs, edges, data, desc):
            return
    if rng.random() < 0.4 and hasattr(sg, "_generate_shaped_data"):
        noise.given.clear()
        noise.used.clear()
        rows = sg._generate_shaped_data(size)
        mon.event("shaped")
        if not mon.check(len(rows) == size and all(sorted(r) == vs for r in rows), "shape", lambda: f"rows {rows[:2]}; {desc()}"):
            return
        left = set(noise.given)
        if not residuals(mon, "iid_residual", left, {v: [float(r[v]) for r in rows] for v in vs}, {v: [(a, 0, w) for a, b, w in edges if b == v] for v in vs}, 0, size, desc, exact=True):
            return
    same = [(e.from_node.node, e.to_node.node, e.value) for e in declared] == edges
    if not mon.check(same, "declaration-changed", lambda: f"the declared edges were changed; {desc()}"):
        return
    mon.evaluate(digest([[vs.index(a), vs.index(b), w] for a, b, w in edges] + [size]), True, {"edges": edges[:5], "size": size})


def residuals(mon, kind, left, data, parents, start, size, desc, exact):
    """every residual is a noise value which no other equation used"""
    for v in data:
        for t in range(start, size):
            r = data[v][t] - sum(w * data[a][t - lag] for a, lag, w in parents[v])
            mon.event(kind)
            k = round(r) if abs(r) < 1e15 else None
            scale = 1.0 if exact else max(1.0, abs(data[v][t]))
            ok = k in left and (r == k if exact else abs(r - k) < 1e-5 * scale)
            if not mon.check(ok, "equation", lambda: f"{v!r} at {t} is {data[v][t]}, its residual {r} is not an unused noise value; parents {[(a, lag, w, data[a][t - lag]) for a, lag, w in parents[v]]}; {desc()}"):
                return False
            left.discard(k)
    return True


def static_graph(mon, graph, vs, edges, data, desc):
    byname = {n.name: n for n in graph.nodes.values()}
    if not mon.check(sorted(byname) == vs and len(graph.nodes) == len(vs), "nodes", lambda: f"nodes {sorted(byname)}; {desc()}"):
        return False
    for v in vs:
        if not mon.check(byname[v].values.tolist() == data[v].tolist(), "node-values", lambda: f"values of node {v!r}; {desc()}"):
            return False
    want = {(a, b) for a, b, _ in edges}
    for a in vs:
        for b in vs:
            if a != b:
                mon.event("iid_edge")
                e = graph.directed_edge_exists(byname[a], byname[b])
                if not mon.check(e == ((a, b) in want), "edges", lambda: f"edge {a!r} -> {b!r} {'exists' if e else 'is missing'}; {desc()}"):
                    return False
                if e and not mon.check(graph.edge_of_type_exists(byname[a], byname[b], DIRECTED()), "edges", lambda: f"edge {a!r} -> {b!r} is not directed; {desc()}"):
                    return False
    return True


def DIRECTED():
    from causy.edge_types import DirectedEdge

    return DirectedEdge()


def cycle(rng, mon):
    from causy.sample_generator import IIDSampleGenerator

    edges = declaration(rng)
    vs = sorted({x for e in edges for x in e[:2]})
    k = rng.choice([1, 2, 2, 3, 3, 4, 6])
    k = min(k, len(vs))
    ring = rng.sample(vs, k)
    have = {(a, b) for a, b, _ in edges}
    for a, b in zip(ring, ring[1:] + ring[:1]):
        if (a, b) not in have:
            edges.append((a, b, rng.choice([1, -0.5, 0])))
    rng.shuffle(edges)
    try:
        sg = IIDSampleGenerator(edges=sample_edges(edges), random=lambda: 1.0)
        sg.generate(3)
    except Exception as e:
        mon.event("self_loop_rejected" if k == 1 else "cycle_rejected")
        mon.evaluate(digest(["cycle", [[vs.index(a), vs.index(b)] for a, b, _ in edges]]), True)
        return
    mon.violation("cycle-accepted", f"cyclic edges {edges} were accepted")


def lagged(rng):
    import numpy as np

    while True:
        n = rng.randint(1, 4)
        vs = names(rng, n)
        L = rng.choice([1, 1, 2, 3])
        edges = []
        for a in vs:
            for b in vs:
                for lag in range(1, L + 1):
                    if rng.random() < (0.6 if a == b else 0.4):
                        edges.append((a, b, lag, rng.choice([0.5, -0.5, 0.25, 0.8, -0.3, 0.1, 0, 0.7, rng.uniform(-0.9, 0.9)])))
        used = {x for e in edges for x in e[:2]}
        if not edges or used != set(vs):
            continue
        rng.shuffle(edges)
        L = max(e[2] for e in edges)
        A = np.zeros((n * L, n * L))
        for a, b, lag, w in edges:
            A[vs.index(b), (lag - 1) * n + vs.index(a)] = w
        for i in range(1, L):
            A[i * n : (i + 1) * n, (i - 1) * n : i * n] = np.eye(n)
        if max(abs(np.linalg.eigvals(A))) > 0.9:
            continue
        cond = np.linalg.cond(np.eye((n * L) ** 2) - np.kron(A, A))
        if cond > 2000:
            continue
        Q = np.zeros_like(A)
        Q[:n, :n] = np.eye(n)
        # independent of the vectorised solution: sum of the series
        V, M = np.zeros_like(A), np.eye(n * L)
        for _ in range(600):
            V += M @ Q @ M.T
            M = A @ M
        return vs, edges, L, {v: float(np.sqrt(V[i, i])) for i, v in enumerate(vs)}, cond


def series_edges(edges):
    from causy.sample_generator import SampleEdge, TimeAwareNodeReference

    return [SampleEdge(TimeAwareNodeReference(a, -lag), TimeAwareNodeReference(b), w) for a, b, lag, w in edges]


def series(rng, mon):
    from causy.sample_generator import TimeseriesSampleGenerator

    import torch

    vs, edges, L, spread, cond = lagged(rng)
    size = rng.choice([1, 2, 3, 5, 12, 30])
    noise = Noise(rng, 1000)
    sg = TimeseriesSampleGenerator(edges=series_edges(edges), random=noise)
    calls = []

    def start(std):
        value = 2000.0 + 10 * len(calls)
        calls.append((float(std), value))
        return torch.tensor(value, dtype=torch.float64)

    sg._initial_distribution_fn = start
    data, graph = sg.generate(size)
    desc = lambda: f"edges (from, to, lag, weight) {edges} size {size}"
    mon.event("series")
    if L > 1:
        mon.event("multi_lag")
    if not mon.check(sorted(data) == sorted(vs) and all(tuple(data[v].shape) == (size,) for v in vs), "shape", lambda: f"data {({k: tuple(x.shape) for k, x in data.items()})}; {desc()}"):
        return
    values = {v: data[v].double().tolist() for v in vs}
    tol = 1e-3 + 3e-6 * cond
    handed = {value: std for std, value in calls}
    for v in vs:
        mon.event("spread")
        std = handed.pop(values[v][0], None)
        ok = std is not None and abs(std - spread[v]) <= tol * spread[v]
        if not mon.check(ok, "spread", lambda: f"{v!r} starts at {values[v][0]} drawn with spread {std} instead of {spread[v]} (draws {calls}); {desc()}"):
            return
    left = set(noise.given)
    if not residuals(mon, "series_residual", left, values, {v: [(a, lag, w) for a, b, lag, w in edges if b == v] for v in vs}, L, size, desc, exact=False):
        return
    ids = {(v, t): f"{v}-t{t}" for v in vs for t in range(size)}
    if not mon.check(len(set(ids.values())) != len(ids) or set(graph.nodes) == set(ids.values()), "nodes", lambda: f"nodes {sorted(graph.nodes)[:10]}; {desc()}"):
        return
    want = {(ids[a, t - lag], ids[b, t]) for a, b, lag, w in edges for t in range(lag, size)}
    for (v, t), i in ids.items():
        if not mon.check(abs(float(graph.nodes[i].values[0]) - values[v][t]) < 1e-6 * max(1, abs(values[v][t])), "node-values", lambda: f"value of {i}; {desc()}"):
            return
    for i in ids.values():
        for j in ids.values():
            if i != j:
                mon.event("series_edge")
                e = graph.directed_edge_exists(graph.nodes[i], graph.nodes[j])
                if not mon.check(e == ((i, j) in want), "edges", lambda: f"edge {i} -> {j} {'exists' if e else 'is missing'}; {desc()}"):
                    return
    mon.evaluate(digest(["series", [[vs.index(a), vs.index(b), lag, round(w, 3)] for a, b, lag, w in edges], size]), True, {"lagged edges": edges[:4], "size": size})


def default_iid(rng, mon):
    """the default noise is a standard normal distribution, independent per variable and row"""
    from causy.sample_generator import IIDSampleGenerator

    import numpy as np

    edges = declaration(rng)
    vs = sorted({x for e in edges for x in e[:2]})
    n = 4000
    data, _ = IIDSampleGenerator(edges=sample_edges(edges)).generate(n)
    R = []
    for v in vs:
        r = data[v].double().numpy().copy()
        for a, b, w in edges:
            if b == v:
                r -= w * data[a].double().numpy()
        R.append(r)
    R = np.array(R)
    mon.event("default_noise")
    C = R @ R.T / n
    # seven standard errors
    ok = np.all(abs(R.mean(axis=1)) < 7 / np.sqrt(n)) and np.all(abs(np.diag(C) - 1) < 7 * np.sqrt(2 / n)) and np.all(abs(C - np.diag(np.diag(C))) < 7 / np.sqrt(n))
    mon.check(ok, "default-noise", lambda: f"default noise has mean {R.mean(axis=1)} covariance {C}; edges {edges}")
    mon.evaluate(digest(["default", edges]), True)


def default_series(rng, mon):
    """drawn starting values have the stationary spread"""
    from causy.sample_generator import TimeseriesSampleGenerator

    import numpy as np

    vs, edges, L, spread, cond = lagged(rng)
    n = 700
    sg = TimeseriesSampleGenerator(edges=series_edges(edges))
    first = {v: [] for v in vs}
    for _ in range(n):
        data, _ = sg.generate(1)
        for v in vs:
            first[v].append(float(data[v][0]))
    for v in vs:
        x = np.array(first[v]) / spread[v]
        mon.event("default_spread")
        mon.check(abs(x.mean()) < 7 / np.sqrt(n) and abs((x**2).mean() - 1) < 7 * np.sqrt(2 / n), "default-spread", lambda: f"{v!r} starts with mean {x.mean()} and variance {(x**2).mean()} relative to the stationary one; edges {edges}")
    mon.evaluate(digest(["default", edges]), True)
