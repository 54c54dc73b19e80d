"""C02: parallel PC under controlled and real worker schedules."""
import copy
import random

import numpy as np

from vlib import pool, refs
from vlib.core import digest
from vlib.drive import flatten_history, fmt, observed_graph, run_model
from checks.c01 import MOD, SPECIAL, judge, model, problem

PROPERTY = "C02"
LEVEL = "exploration"
TECHNIQUE = "schedule fuzzing with a controlled worker pool (plus real pools); runs compared with sequential reference, history exactly-once monitor"
RULE = (
    "the parallel variant runs with its worker pool replaced by a scheduler that pulls work lazily, computes each chunk on the pickled copy of the graph taken when it was sent and delivers finished chunks in a seeded random "
    "order (chunk sizes of the sampled and full tests 1..default, sampling rate 0..200), plus runs on a real pool of spawned processes; every result is compared with the CPDAG, with sequential PC and with exactly-once "
    "removal in the recorded history; distinct = distinct (problem, sequence of send/run/deliver moves)"
)
ASSUMPTIONS = [
    "the first partial correlation step keeps its configured chunk size (its triples are decided on one copy of the graph)",
    "data as in C01: faithful with visible dependences",
    "one real pool of spawned processes per tier; all other schedules are produced by the stand-in scheduler",
]
FLOORS = {"schedule": 300, "out_of_order_delivery": 200, "stale_proposal": 100, "removal_recorded": 500, "real_pool_run": 1}
CPU_LIMIT = 120


def parallel_model(threshold, every_nth, chunks):
    from causy.graph_model import graph_model_factory
    from causy.serialization import load_algorithm_by_reference

    alg = load_algorithm_by_reference("python_module", MOD + "ParallelPC")
    k = 0
    for s in alg.pipeline_steps:
        if type(s).__name__.startswith("Extended") and s.parallel:
            if chunks[k % len(chunks)]:
                s.chunk_size_parallel_processing = chunks[k % len(chunks)]
            k += 1
    v = {}
    if threshold is not None:
        v["threshold"] = threshold
    if every_nth is not None:
        v["every_nth_sample"] = every_nth
    return graph_model_factory(alg, v)()


def cases(tier, seed):
    quick = tier == "quick"
    out = []
    for i in range(2 if quick else 6):
        out.append({"kind": "real", "seed": seed * 31 + i})
    for rep in range(2 if quick else 12):
        for i, (n, e) in enumerate(SPECIAL):
            if n >= 4:
                out.append({"kind": "stub", "n": n, "edges": [list(x) for x in e], "seed": seed * 37 + i + 100 * rep, "runs": 6})
    rng = random.Random(seed)
    for i in range(90 if quick else 1200):
        n = [4, 5, 6, 5, 6, 7][i % 6]
        out.append({"kind": "stub", "n": n, "p": rng.uniform(0.3, 0.7) * {4: 1, 5: 1, 6: 0.8, 7: 0.6}[n], "seed": seed * 41 + i, "runs": 5})
    return out


def history_once(m, mon, desc):
    """every pair without an edge was removed exactly once, in the global and in the per-edge history"""
    from causy.models import TestResultAction as T

    seen = {}
    for s in flatten_history(m.graph.action_history):
        for a in s.actions or []:
            if a.action == T.REMOVE_EDGE_UNDIRECTED:
                k = frozenset((a.u.id, a.v.id))
                seen[k] = seen.get(k, 0) + 1
    ids = list(m.graph.nodes)
    for i, a in enumerate(ids):
        for b in ids[i + 1 :]:
            k = frozenset((a, b))
            gone = not m.graph.edge_exists(a, b)
            want = 1 if gone else 0
            h = m.graph.retrieve_edge_history(m.graph.nodes[a], m.graph.nodes[b], T.REMOVE_EDGE_UNDIRECTED)
            if gone:
                mon.event("removal_recorded")
            if not mon.check(seen.get(k, 0) == want and len(h) == want, "exactly-once", lambda: f"{sorted(k)} removed={gone} recorded {seen.get(k, 0)} times, edge history {len(h)} ({desc})"):
                return False
    return True


def stale(m):
    """removal proposals beyond the first one per pair"""
    from causy.models import TestResultAction as T

    seen = {}
    for s in flatten_history(m.graph.action_history):
        for a in s.all_proposed_actions or []:
            if a.action == T.REMOVE_EDGE_UNDIRECTED:
                k = frozenset((a.u.id, a.v.id))
                seen[k] = seen.get(k, 0) + 1
    return sum(c - 1 for c in seen.values())


def run_case(case, mon):
    rng = random.Random(case["seed"])
    nr = np.random.default_rng(case["seed"])
    if case["kind"] == "real":
        return real(case, mon, rng, nr)
    n = case["n"]
    rows = rng.choice([1500, 4000])
    prob = None
    for _ in range(6):
        edges = [tuple(e) for e in case["edges"]] if "edges" in case else refs.random_dag(n, case["p"], rng)
        prob = problem(rng, nr, n, edges, rows)
        if prob is not None:
            break
        rows = 4000
    if prob is None:
        mon.event("no_faithful_weights")
        return
    names, data = prob
    und, dire = refs.cpdag(range(n), edges)
    thr = rng.choice([None, 0.001, 0.01, 0.1])
    seq = model("PC", thr)
    run_model(seq, copy.deepcopy(data))
    seq_graph = fmt(*observed_graph(seq.graph))
    for r in range(case["runs"]):
        bias = rng.choice([(1, 1, 1), (6, 1, 1), (1, 6, 1), (1, 1, 6), (6, 6, 1), (3, 1, 3)])
        chunks = [rng.choice([1, 1, 2, 3, 7, 50, None]) for _ in range(2)]
        nth = rng.choice([None, 0, 1, 2, 5])
        s = rng.randrange(2**30)
        random.seed(rng.randrange(2**30))
        with pool.patched(random.Random(s), bias) as pp:
            m = parallel_model(thr, nth, chunks)
            run_model(m, copy.deepcopy(data))
        log = [x for x in pool.StubPool.log]
        mon.event("schedule")
        deliv = [x[1] for x in log if x[0] == "deliver"]
        mon.event("out_of_order_delivery", sum(1 for a, b in zip(deliv, deliv[1:]) if b < a and b != 0))
        mon.event("stale_proposal", stale(m))
        desc = f"schedule seed={s} bias={bias} chunks={chunks} every_nth={nth} thr={thr} dag={[(names[a], names[b]) for a, b in edges]}"
        mon.evaluate(digest([case["seed"], log]), nontrivial=len(log) > 6, sample={"dag": edges, "moves": len(log), "chunks": chunks, "every_nth": nth})
        if not judge(m.graph, names, und, dire, mon, desc):
            return
        got = fmt(*observed_graph(m.graph))
        if not mon.check(got == seq_graph, "sequential", lambda: f"parallel {got} sequential {seq_graph} ({desc})"):
            return
        if not history_once(m, mon, desc):
            return


def real(case, mon, rng, nr):
    """a real pool: small chunks so that several processes race"""
    import multiprocessing

    import torch.multiprocessing as tmp

    prob = None
    for i in list(range(case["seed"] % 4, len(SPECIAL))) * 3:
        n, edges = SPECIAL[i]
        edges = [tuple(e) for e in edges]
        if n < 5 or len(edges) < 5:
            continue
        prob = problem(rng, nr, n, edges, 4000)
        if prob is not None:
            break
    if prob is None:
        mon.event("no_faithful_weights")
        return
    names, data = prob
    und, dire = refs.cpdag(range(n), edges)
    saved = tmp.cpu_count, multiprocessing.cpu_count
    tmp.cpu_count = multiprocessing.cpu_count = lambda: 2
    try:
        m = parallel_model(0.01, 1, [1, 2])
        try:
            run_model(m, data)
        finally:
            p = getattr(m, "pool", None)
            if p is not None:
                p.close()
                p.join()
    finally:
        tmp.cpu_count, multiprocessing.cpu_count = saved
    mon.event("real_pool_run")
    mon.event("stale_proposal", stale(m))
    mon.evaluate(digest(["real", case["seed"]]))
    if judge(m.graph, names, und, dire, mon, "real pool"):
        history_once(m, mon, "real pool")
