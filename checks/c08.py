"""C08: reachability and path listings vs. independent searches."""
import itertools
import random

from vlib import refs
from vlib.core import digest
from vlib.graphs import build, morph, random_ghosts, random_names

PROPERTY = "C08"
LEVEL = "exploration"
TECHNIQUE = "reference-oracle monitor on every path query over generated graphs"
RULE = (
    "all graphs on 3 nodes where each ordered pair is connected, removed or absent, all graphs on 4 nodes, plus random mixed/cyclic "
    "graphs on 5-7 nodes with removed edges; long thin graphs on 10-40 nodes (some of the pairs); every ordered pair of nodes is queried, random graphs again after further edits (mostly with as many edges as before); distinct = distinct graphs with at least one edge"
)
ASSUMPTIONS = ["queries from a node to itself are not specified and not driven"]
FLOORS = {"query": 20000, "cyclic_graph": 100, "soft_removed": 100, "path": 5000, "long_graph": 30, "edited": 500}
CPU_LIMIT = 120


def oracle(names, arcs):
    """arcs: set of ordered pairs"""
    out = {a: [b for b in names if (a, b) in arcs] for a in names}
    nb = {a: [b for b in names if (a, b) in arcs or (b, a) in arcs] for a in names}
    strict = {a: [b for b in out[a] if (b, a) not in arcs] for a in names}

    def reach(adj, a):
        seen, st = set(), [a]
        while st:
            x = st.pop()
            for y in adj[x]:
                if y not in seen:
                    seen.add(y)
                    st.append(y)
        return seen

    def simple(adj, a, b):
        res = []

        def rec(path):
            for y in adj[path[-1]]:
                if y in path:
                    continue
                if y == b:
                    res.append(tuple(path + [y]))
                else:
                    rec(path + [y])

        rec([a])
        return sorted(res)

    return out, nb, strict, reach, simple


def check_graph(g, names, arcs, mon, label, pick=None):
    out, nb, strict, reach, simple = oracle(names, arcs)
    N = g.nodes
    for view, G in (("manager", g), ("graph", g.graph)):
        for u in pick or names:
            for a in (u, N[u]):
                got = sorted(x.id for x in G.descendants_of_node(a))
                want = sorted(reach(strict, u) | {u})
                mon.event("query")
                if got != want:
                    mon.violation("descendants", f"{label}: descendants_of_node({u}) = {got}, expected {want}")
                    return
            for v in pick or names:
                if u == v:
                    continue
                want = v in reach(out, u)
                for a, b in ((u, v), (N[u], N[v])):
                    mon.event("query")
                    got = G.directed_path_exists(a, b)
                    if got != want:
                        mon.violation("path-exists", f"{label}: directed_path_exists({u},{v}) = {got}, expected {want}")
                        return
                    got = sorted(tuple(x.id for x in p) for p in G.all_paths_on_underlying_undirected_graph(a, b))
                    wantp = simple(nb, u, v)
                    mon.event("query")
                    mon.event("path", len(wantp))
                    if got != wantp:
                        mon.violation("all-paths", f"{label}: paths {u}..{v} = {got}, expected {wantp}")
                        return
                    if view == "graph":
                        got = []
                        for p in G.directed_paths(a, b):
                            ids = [p[0][0].id] + [e[1].id for e in p]
                            if [e[0].id for e in p] != ids[:-1]:
                                mon.violation("directed-paths", f"{label}: broken path {p}")
                                return
                            got.append(tuple(ids))
                        wantp = simple(out, u, v)
                        mon.event("query")
                        mon.event("path", len(wantp))
                        if sorted(got) != wantp:
                            mon.violation("directed-paths", f"{label}: directed_paths({u},{v}) = {sorted(got)}, expected {wantp}")
                            return
    cyc = any(u in reach(out, u) for u in names)
    if cyc:
        mon.event("cyclic_graph")
    mon.evaluate(digest(sorted(arcs) + [list(names)]), nontrivial=bool(arcs), sample={"arcs": sorted(arcs)} if len(arcs) > 5 else None)


def cases(tier, seed):
    out = [{"kind": "enum3", "part": i} for i in range(27)]
    out += [{"kind": "enum4", "part": i} for i in range(64)]
    for k in range(1000 if tier == "quick" else 8000):
        out.append({"kind": "random", "seed": seed * 7919 + k, "n": 5 + k % 3, "p": [0.1, 0.2, 0.3, 0.45][k % 4]})
    for k in range(200 if tier == "quick" else 1500):
        out.append({"kind": "long", "seed": seed * 7919 + k, "n": [10, 14, 18, 24, 40][k % 5], "extra": k % 4})
    return out


def run_long(case, mon):
    rng = random.Random(case["seed"])
    n = case["n"]
    names = [f"n{i}" for i in range(n)]
    rng.shuffle(names)
    und, dire, arcs = [], [], set()
    for a, b in refs.sparse_dag(n, case["extra"], rng):
        a, b = names[a], names[b]
        r = rng.random()
        if r < 0.12:
            und.append((a, b))
            arcs |= {(a, b), (b, a)}
        else:
            if r < 0.2:
                a, b = b, a
            dire.append((a, b))
            arcs.add((a, b))
    ghosts = random_ghosts(rng, names, {frozenset(p) for p in arcs}, rng.randint(0, 4))
    g = build(names, und, dire, ghosts, rng.choice(["soft", "hard", "mixed"]))
    mon.event("long_graph")
    check_graph(g, names, arcs, mon, f"und={und} dire={dire} ghosts={ghosts}", pick=rng.sample(names, 7))


def run_case(case, mon):
    if case["kind"] == "long":
        return run_long(case, mon)
    if case["kind"] == "enum3":
        names = ["b", "a", "c"]
        pairs = list(itertools.permutations(names, 2))
        first = [case["part"] // 9, case["part"] // 3 % 3, case["part"] % 3]
        for rest in itertools.product(range(3), repeat=3):
            st = first + list(rest)
            arcs = {p for p, s in zip(pairs, st) if s == 1}
            ghosts = [("d", *p) for p, s in zip(pairs, st) if s == 2]
            if ghosts:
                mon.event("soft_removed")
            check_graph(build(names, (), sorted(arcs), ghosts), names, arcs, mon, str(sorted(arcs)) + str(ghosts))
    elif case["kind"] == "enum4":
        names = ["a", "b", "c", "d"]
        pairs = list(itertools.permutations(names, 2))
        for rest in range(64):
            bits = case["part"] * 64 + rest
            arcs = {p for i, p in enumerate(pairs) if bits >> i & 1}
            check_graph(build(names, (), sorted(arcs)), names, arcs, mon, str(sorted(arcs)))
            if mon.violations:
                return
    else:
        rng = random.Random(case["seed"])
        names = random_names(rng, case["n"])
        und, dire, arcs, live = [], [], set(), set()
        for a, b in itertools.combinations(names, 2):
            if rng.random() < case["p"] * 1.6:
                live.add(frozenset((a, b)))
                r = rng.random()
                if r < 0.3:
                    und.append((a, b))
                    arcs |= {(a, b), (b, a)}
                else:
                    a, b = rng.choice([(a, b), (b, a)])
                    dire.append((a, b))
                    arcs.add((a, b))
        ghosts = random_ghosts(rng, names, live, rng.randint(0, 4))
        # removed direction of an edge whose other direction is still there
        ghosts += [("d", b, a) for a, b in dire if rng.random() < 0.25]
        if ghosts:
            mon.event("soft_removed")
        g = build(names, und, dire, ghosts, rng.choice(["soft", "hard", "mixed"]))
        check_graph(g, names, arcs, mon, f"und={und} dire={dire} ghosts={ghosts}")
        # the same graph after further edits: reversed and moved edges, mostly as many as before
        for _ in range(2):
            u2, d2 = list(und), [rng.choice([e, e, e[::-1]]) for e in dire]
            taken = {frozenset(e) for e in u2 + d2}
            free = [p for p in itertools.permutations(names, 2) if frozenset(p) not in taken]
            for _ in range(rng.randint(0, 2)):
                if not free or not d2:
                    break
                d2.pop(rng.randrange(len(d2)))
                e = rng.choice(free)
                d2.append(e)
                free = [p for p in free if set(p) != set(e)]
            if u2 and rng.random() < 0.3:
                d2.append(u2.pop())
            morph(g, (und, dire), (u2, d2), rng)
            und, dire = u2, d2
            arcs = {p for e in und for p in (e, e[::-1])} | set(dire)
            mon.event("edited")
            check_graph(g, names, arcs, mon, f"after edits und={und} dire={dire}")
            if mon.violations:
                return
