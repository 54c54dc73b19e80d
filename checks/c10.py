"""C10: d-separation in CPDAGs vs. d-separation in the represented DAGs."""
import itertools
import random

from checks.c09 import ask_all, ask_some, other_dag
from vlib import refs
from vlib.core import digest
from vlib.graphs import all_dags, build, morph, random_ghosts, random_names

PROPERTY = "C10"
LEVEL = "exploration"
TECHNIQUE = "reference-oracle monitor (all DAGs of the class) on CPDAG d-separation queries"
RULE = (
    "CPDAGs of all labelled DAGs on 2-4 nodes (every pair, every conditioning set) and of random DAGs on 5-7 nodes, half of them asked again after further edits, plus random queries on CPDAGs of thin DAGs on 10-20 nodes; the oracle is "
    "d-separation in every member of the enumerated equivalence class; distinct = distinct (class member, pair, set) queries"
)
ASSUMPTIONS = ["the graph is a CPDAG", "the two queried nodes are different"]
FLOORS = {"query": 20000, "separated": 2000, "connected": 2000, "rejected": 200, "undirected_edge": 500, "class_member": 500, "large_query": 1000, "edited": 200}
CPU_LIMIT = 240


def one(case_rng, names, e, mon, zlimit=None, ghosts=0):
    n = len(names)
    und, dire = refs.cpdag(range(n), e)
    # all members agree (cross-check of the oracle itself)
    if len(e) <= 8:
        cls = refs.equivalence_class(range(n), e)
        mon.event("class_member", len(cls))
        c = case_rng.choice(cls)
    else:
        c = e
    mon.event("undirected_edge", len(und))
    u = [tuple(names[i] for i in sorted(p)) for p in und]
    u = [case_rng.choice([p, p[::-1]]) for p in sorted(u)]
    d = [(names[a], names[b]) for a, b in sorted(dire)]
    gh = random_ghosts(case_rng, names, {frozenset(p) for p in u} | {frozenset(p) for p in d}, ghosts)
    g = build(names, u, d, gh, "mixed")
    ask_all(g, names, c, mon, case_rng, "are_nodes_d_separated_cpdag", zlimit)
    # the same graph after further edits
    if n > 4 and not mon.violations and case_rng.random() < 0.5:
        e2 = other_dag(n, list(e), case_rng)
        und2, dire2 = refs.cpdag(range(n), e2) if len(e2) <= 8 else refs.cpdag_meek(range(n), e2)
        morph(g, (u, d), ([tuple(names[i] for i in sorted(p)) for p in und2], [(names[a], names[b]) for a, b in dire2]), case_rng)
        mon.event("edited")
        ask_all(g, names, e2, mon, case_rng, "are_nodes_d_separated_cpdag", 6)
    mon.evaluate(digest(["g", sorted(map(sorted, und)), sorted(dire)]), sample={"undirected": u, "directed": d} if d and u else None)


def cases(tier, seed):
    out = [{"kind": "enum", "n": 2}, {"kind": "enum", "n": 3}]
    out += [{"kind": "enum", "n": 4, "part": i, "parts": 16} for i in range(16)]
    for k in range(1600 if tier == "quick" else 9000):
        n = [5, 5, 6, 5, 7][k % 5]
        p = [0.35, 0.5, 0.65, 0.8][k // 5 % 4] * (1 if n < 7 else 0.5)
        out.append({"kind": "random", "seed": seed * 6011 + k, "n": n, "p": p})
    for k in range(150 if tier == "quick" else 1000):
        out.append({"kind": "large", "seed": seed * 6037 + k, "n": [10, 13, 16, 20][k % 4], "extra": k % 3})
    return out


def run_case(case, mon):
    if case["kind"] == "enum":
        rng = random.Random(case["n"])
        names = ["b", "a", "d", "c"][: case["n"]]
        for i, e in enumerate(all_dags(case["n"])):
            if i % case.get("parts", 1) == case.get("part", 0):
                one(rng, names, e, mon)
                if mon.violations:
                    return
    elif case["kind"] == "large":
        rng = random.Random(case["seed"])
        e = refs.sparse_dag(case["n"], case["extra"], rng)
        names = [f"n{i}" for i in range(case["n"])]
        rng.shuffle(names)
        und, dire = refs.cpdag_meek(range(case["n"]), e)
        u = [tuple(names[i] for i in rng.sample(sorted(p), 2)) for p in sorted(und, key=sorted)]
        d = [(names[a], names[b]) for a, b in sorted(dire)]
        mon.event("undirected_edge", len(u))
        ask_some(build(names, u, d), names, e, mon, rng, "are_nodes_d_separated_cpdag", 30)
    else:
        rng = random.Random(case["seed"])
        e = refs.random_dag(case["n"], case["p"], rng)
        one(rng, random_names(rng, case["n"]), e, mon, zlimit=None if case["n"] < 6 else 5, ghosts=rng.choice([0, 0, 2]))
