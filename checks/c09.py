"""C09: d-separation in DAGs vs. the moralised ancestral graph criterion."""
import itertools
import random

from vlib import refs
from vlib.core import digest
from vlib.graphs import all_dags, build, morph, random_ghosts, random_names

PROPERTY = "C09"
LEVEL = "exploration"
TECHNIQUE = "reference-oracle monitor (path enumeration and moralisation) on d-separation queries"
RULE = (
    "all labelled DAGs on 2-4 nodes with every pair and every conditioning set, plus random DAGs on 5-7 nodes (some with removed edges "
    "left behind) with every pair and every/most conditioning sets, half of them asked again after further edits, plus thin DAGs on 10-26 nodes with random pairs and sets; distinct = distinct (DAG, pair, set) queries with at least one path between the nodes"
)
ASSUMPTIONS = ["the two queried nodes are different"]
FLOORS = {"query": 20000, "separated": 2000, "connected": 2000, "rejected": 500, "opened_collider": 200, "large_query": 1000, "edited": 200}
CPU_LIMIT = 240


def ask_all(g, names, edges, mon, rng, method="are_nodes_d_separated_dag", zlimit=None):
    idx = {i: names[i] for i in range(len(names))}
    for view, G in (("manager", g), ("graph", g.graph)):
        for x, y in itertools.combinations(range(len(names)), 2):
            others = [k for k in range(len(names)) if k not in (x, y)]
            zs = [z for s in range(len(others) + 1) for z in itertools.combinations(others, s)]
            if zlimit and len(zs) > zlimit:
                zs = rng.sample(zs, zlimit)
            marg = refs.d_separated(edges, x, y, ())
            for z in zs:
                want = refs.d_separated(edges, x, y, z)
                zz = list(z)
                rng.shuffle(zz)
                u, v = (x, y) if rng.random() < 0.5 else (y, x)
                mode = rng.randrange(3)
                cond = [
                    idx[k] if mode == 0 or (mode == 2 and rng.random() < 0.5) else g.nodes[idx[k]] for k in zz
                ]
                a, b = (idx[u], idx[v]) if rng.random() < 0.5 else (g.nodes[idx[u]], g.nodes[idx[v]])
                orders = [(a, b)] if view == "graph" else [(a, b), (b, a)]
                for s, t in orders:
                    got = getattr(G, method)(s, t, list(cond))
                    mon.event("query")
                    mon.event("separated" if want else "connected")
                    if marg and not want:
                        mon.event("opened_collider")
                    if got is not want and bool(got) != want:
                        mon.violation(
                            "wrong-answer",
                            f"{method}({s if isinstance(s,str) else s.id},{t if isinstance(t,str) else t.id} | {[idx[k] for k in zz]}) = {got}, expected {want} in {[(idx[i],idx[j]) for i,j in edges]}",
                        )
                        return
                if view == "manager":
                    mon.evaluate(digest([sorted(edges), x, y, list(z)]), nontrivial=bool(edges))
            # conditioning on an end point is rejected
            for bad in ([idx[x]], [g.nodes[idx[y]]], [idx[k] for k in others] + [idx[y]]):
                try:
                    r = getattr(G, method)(idx[x], idx[y], bad)
                except ValueError:
                    mon.event("rejected")
                else:
                    mon.violation("accepted-endpoint", f"conditioning set {bad} with end point accepted (answer {r})")
                    return


def ask_some(g, names, edges, mon, rng, method, pairs):
    """random pairs and conditioning sets on a large graph"""
    for _ in range(pairs):
        x, y = rng.sample(range(len(names)), 2)
        others = [k for k in range(len(names)) if k not in (x, y)]
        z = rng.sample(others, rng.choice([0, 0, 1, 1, 2, 3, 5]))
        want = refs.d_separated(edges, x, y, z)
        got = getattr(rng.choice([g, g.graph]), method)(names[x], g.nodes[names[y]], [rng.choice([names[k], g.nodes[names[k]]]) for k in z])
        mon.event("query")
        mon.event("large_query")
        mon.event("separated" if want else "connected")
        mon.evaluate(digest([edges, x, y, z]))
        if bool(got) != want:
            mon.violation(
                "wrong-answer",
                f"{method}({names[x]},{names[y]} | {[names[k] for k in z]}) = {got}, expected {want} in {[(names[i], names[j]) for i, j in edges]}",
            )
            return


def other_dag(n, e, rng):
    """a DAG which differs in some edges and mostly has as many of them"""
    if rng.random() < 0.5:
        # the same skeleton under another order of the nodes
        pos = rng.sample(range(n), n)
        return [(a, b) if pos[a] < pos[b] else (b, a) for a, b in e]
    order = sorted(range(n), key=lambda v: sum(1 for a, b in refs_closure(e) if b == v))
    pairs = [(a, b) for i, a in enumerate(order) for b in order[i + 1 :] if (a, b) not in e]
    out = list(e)
    for _ in range(min(2, len(pairs), len(out))):
        out.pop(rng.randrange(len(out)))
        out.append(pairs.pop(rng.randrange(len(pairs))))
    return out


def refs_closure(e):
    """ancestor pairs"""
    c = set(e)
    while True:
        new = {(a, d) for a, b in c for x, d in c if b == x} - c
        if not new:
            return c
        c |= new


def cases(tier, seed):
    out = [{"kind": "enum", "n": 2}, {"kind": "enum", "n": 3}]
    out += [{"kind": "enum", "n": 4, "part": i, "parts": 16} for i in range(16)]
    for k in range(1600 if tier == "quick" else 12000):
        n = [5, 5, 6, 5, 7, 8][k % 6]
        p = [0.3, 0.45, 0.6, 0.75][k // 6 % 4] * (1 if n < 7 else 0.55)
        out.append({"kind": "random", "seed": seed * 6007 + k, "n": n, "p": p})
    for k in range(160 if tier == "quick" else 1500):
        out.append({"kind": "large", "seed": seed * 6029 + k, "n": [10, 13, 16, 20, 26][k % 5], "extra": k % 3})
    return out


def run_case(case, mon):
    if case["kind"] == "enum":
        rng = random.Random(case["n"])
        names = ["b", "a", "d", "c"][: case["n"]]
        for i, e in enumerate(all_dags(case["n"])):
            if i % case.get("parts", 1) != case.get("part", 0):
                continue
            g = build(names, (), [(names[a], names[b]) for a, b in e])
            ask_all(g, names, e, mon, rng)
            if mon.violations:
                return
    elif case["kind"] == "large":
        rng = random.Random(case["seed"])
        e = refs.sparse_dag(case["n"], case["extra"], rng)
        names = [f"n{i}" for i in range(case["n"])]
        rng.shuffle(names)
        dire = [(names[a], names[b]) for a, b in e]
        rng.shuffle(dire)
        ask_some(build(names, (), dire), names, e, mon, rng, "are_nodes_d_separated_dag", 30)
    else:
        rng = random.Random(case["seed"])
        n = case["n"]
        e = refs.random_dag(n, case["p"], rng)
        names = random_names(rng, n)
        dire = [(names[a], names[b]) for a, b in e]
        rng.shuffle(dire)
        ghosts = random_ghosts(rng, names, {frozenset(d) for d in dire}, rng.choice([0, 0, 2, 3]))
        ghosts += [("d", b, a) for a, b in dire if rng.random() < 0.15]
        g = build(names, (), dire, ghosts, rng.choice(["soft", "mixed"]))
        if n >= 6:
            ask_all(g, names, e, mon, rng, zlimit=6)
        else:
            ask_all(g, names, e, mon, rng)
        # the same graph after further edits
        if not mon.violations and n < 8 and rng.random() < 0.5:
            e2 = other_dag(n, e, rng)
            morph(g, ((), dire), ((), [(names[a], names[b]) for a, b in e2]), rng)
            mon.event("edited")
            ask_all(g, names, e2, mon, rng, zlimit=6)
        mon.evaluate(digest(["dag", e]), sample={"edges": dire, "removed": ghosts})
