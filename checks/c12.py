"""C12: recorded histories vs. an independent replay, for scripted pipelines and for the bundled algorithms."""
import copy
import random
from collections import Counter

import numpy as np

from vlib import pool, refs
from vlib.core import digest
from vlib.drive import flatten_history, run_model
from vlib.graphs import random_names

PROPERTY = "C12"
LEVEL = "exploration"
TECHNIQUE = "offline replay checker over the recorded action history, reference engine"
RULE = (
    "random pipelines of scripted steps (immediate, chunked, collected, together, looped, parallel under a scheduler) proposing every kind of action, applicable or not, in every order; a reference engine predicts the "
    "graph each step is shown, the proposals, the taken actions, both histories and the final graph; the bundled PC variants on noisy data are replayed from their recorded history; "
    "distinct = distinct (pipeline, initial graph) that took at least one action and rejected at least one"
)
ASSUMPTIONS = [
    "steps propose actions and do not edit the graph themselves",
]
FLOORS = {"pipeline": 400, "taken": 3000, "not_applicable": 1000, "view": 3000, "edge_history": 3000, "together": 60, "parallel_step": 40, "restore_taken": 50, "bundled_run": 15, "bundled_action": 300}
CPU_LIMIT = 60


def cases(tier, seed):
    quick = tier == "quick"
    out = []
    for i in range(8000 if quick else 30000):
        out.append({"kind": "script", "n": 2 + i % 4, "seed": seed * 1000003 + i, "parallel": i % 5 == 4})
    for i in range(240 if quick else 1200):
        out.append({"kind": "bundled", "n": 3 + i % 5, "variant": ["PC", "PCClassic", "PCStable", "ParallelPC"][i % 4], "seed": seed * 1000033 + i})
    return out


def edge_histories(graph, taken):
    """[(u, v, expected, actual)] of pairs whose history disagrees with the list of taken actions"""
    from vlib.engine import BOTH

    both = BOTH | {"RESTORE_EDGE"}
    want = {}
    for a in taken:
        want.setdefault((a[1], a[2]), []).append(a)
        if a[0] in both:
            want.setdefault((a[2], a[1]), []).append(a)
    bad, n = [], 0
    ids = list(graph.nodes)
    for u in ids:
        for v in ids:
            if u != v:
                n += 1
                yield u, v, want.get((u, v), []), graph.retrieve_edge_history(graph.nodes[u], graph.nodes[v])


def run_case(case, mon):
    from vlib import engine as E

    if case["kind"] == "bundled":
        return bundled(case, mon)
    rng = random.Random(case["seed"])
    names = random_names(rng, case["n"])
    pipeline = E.random_pipeline(rng, names, case["parallel"])
    init = E.random_init(rng, names)
    has_parallel = any(s["mode"] == "parallel" for s in E.all_steps(pipeline))
    graph_order = sorted(names)
    ex = E.simulate(pipeline, graph_order, init)
    E.FAIL[0] = 0
    if has_parallel:
        with pool.patched(random.Random(case["seed"] + 1), rng.choice([(1, 1, 1), (4, 2, 1), (1, 2, 4)])):
            m = E.execute(pipeline, names, init)
    else:
        m = E.execute(pipeline, names, init)
    mon.event("pipeline")
    g = m.graph
    hist = list(g.action_history)
    desc = lambda: f"nodes={graph_order} init={ {a + '>' + b: x for (a, b), x in init.items()} } pipeline={pipeline}"
    if not mon.check(len(hist) == len(pipeline), "history-shape", lambda: f"{len(hist)} history entries for {len(pipeline)} steps; {desc()}"):
        return
    # replay with an independent engine
    ref = E.Ref(graph_order)
    for (a, b), x in init.items():
        ref.e[(a, b)] = list(x) + [False]
    taken_all = []
    n_taken = n_not = 0
    for item, h, want in zip(pipeline, hist, ex.history):
        if item["kind"] == "together":
            mon.event("together")
        subs = h.steps or []
        if not mon.check(len(subs) == len(want["steps"]) or (has_parallel and item["kind"] == "loop"), "history-shape", lambda: f"{len(subs)} sub steps, expected {len(want['steps'])}; {desc()}"):
            return
        entries = []
        for k, s in enumerate(subs):
            entries.append((s, want["steps"][k] if k < len(want["steps"]) else None, item["steps"][k % len(item["steps"])]))
        collected = []
        for s, w, spec in entries + [(h, want, item)]:
            acts = [E.as_plain(a) for a in s.actions or []]
            prop = [E.as_plain(a) for a in s.all_proposed_actions or []]
            par = spec.get("mode") == "parallel"
            scripted = sorted(map(str, [a for v in spec.get("script", {}).values() for a in v]))
            if spec["kind"] == "step":
                if par:
                    mon.event("parallel_step")
                if not mon.check(sorted(map(str, prop)) == scripted, "proposals", lambda: f"recorded proposals {prop} expected {scripted}; {desc()}"):
                    return
                if not par and not mon.check(prop == w["proposed"] if w else True, "proposals", lambda: f"recorded proposals {prop} expected {w['proposed']}; {desc()}"):
                    return
                collected += prop
            if item["kind"] == "together" and s is not h:
                # nothing was applied by the collected steps themselves
                if not mon.check(not acts, "taken", lambda: f"collected step recorded taken actions {acts}; {desc()}"):
                    return
                continue
            source = collected if item["kind"] == "together" else prop
            expect = [a for a in source if E.act(ref, a)]
            n_not += len(source) - len(expect)
            n_taken += len(expect)
            for a in expect:
                if a[0].startswith("RESTORE"):
                    mon.event("restore_taken")
            if not mon.check(acts == expect, "taken", lambda: f"recorded taken {acts} expected {expect} ({item['kind']}); {desc()}"):
                return
            missing = Counter(map(str, acts)) - Counter(map(str, source))
            if not mon.check(not missing, "not-proposed", lambda: f"taken but never proposed {missing}; {desc()}"):
                return
            taken_all += acts
        ref.apply(("purge",))
    mon.event("taken", n_taken)
    mon.event("not_applicable", n_not)
    got = E.snapshot(g)
    if not mon.check(got == E.vis(ref), "replay", lambda: f"final graph {got} replay of the recorded actions {E.vis(ref)}; {desc()}"):
        return
    if not has_parallel:
        if not mon.check(got == ex.final, "final", lambda: f"final graph {got} expected {ex.final}; {desc()}"):
            return
        seen = [(a, "|".join(sorted(b.split("|"))), c) for a, b, c in E.SEEN]
        want = [(a, "|".join(sorted(b.split("|"))), c) for a, b, c in ex.seen]
        mon.event("view", len(want))
        if seen != want:
            i = next((i for i, (x, y) in enumerate(zip(seen, want)) if x != y), min(len(seen), len(want)))
            mon.violation("view", f"decision {i}: step saw {seen[i:i+1]} expected {want[i:i+1]}; {desc()}")
            return
    for u, v, w, h in edge_histories(g, taken_all):
        mon.event("edge_history")
        p = [E.as_plain(a) for a in h]
        if not mon.check(p == w, "edge-history", lambda: f"history of {u},{v} is {p} expected {w}; {desc()}"):
            return
    mon.evaluate(digest([pipeline, sorted(init)]), nontrivial=n_taken > 0 and n_not > 0, sample={"pipeline": [i["kind"] for i in pipeline], "taken": n_taken, "not_applicable": n_not})


def bundled(case, mon):
    from checks.c01 import model
    from checks.c02 import parallel_model
    from vlib import engine as E

    rng = random.Random(case["seed"])
    nr = np.random.default_rng(case["seed"])
    n = case["n"]
    names = sorted(random_names(rng, n))
    rows = rng.choice([20, 60, 200])
    edges = refs.random_dag(n, 0.5, rng)
    x = nr.normal(size=(rows, n))
    w = {e: rng.uniform(-1.5, 1.5) for e in edges}
    order = sorted(range(n), key=lambda v: len(refs.ancestors_of(edges, [v])))
    for v in order:
        for p, c in edges:
            if c == v:
                x[:, v] += w[(p, c)] * x[:, p]
    data = {names[i]: [float(q) for q in x[:, i]] for i in range(n)}
    thr = rng.choice([0.01, 0.05, 0.2])
    if case["variant"] == "ParallelPC":
        with pool.patched(random.Random(case["seed"]), (2, 1, 1)):
            m = parallel_model(thr, rng.choice([0, 3]), [rng.choice([1, 3, None])])
            run_model(m, copy.deepcopy(data))
    else:
        m = model(case["variant"], thr)
        run_model(m, copy.deepcopy(data))
    g = m.graph
    mon.event("bundled_run")
    ref = E.Ref(list(g.nodes))
    for a in g.nodes:
        for b in g.nodes:
            if a != b:
                ref.e[(a, b)] = [{}, "U", False]
    taken_all = []
    desc = f"{case['variant']} thr={thr} rows={rows} nodes={list(g.nodes)}"
    for top in g.action_history:
        proposed = []
        for s in flatten_history([top]):
            proposed += s.all_proposed_actions or []
            pk = Counter((a.action.name, a.u.id, a.v.id) for a in (s.all_proposed_actions or proposed))
            for a in s.actions or []:
                mon.event("bundled_action")
                p = [a.action.name, a.u.id, a.v.id, a.data, E.TNAME.get(a.edge_type.name) if a.edge_type else None]
                if not mon.check(pk[(p[0], p[1], p[2])] > 0, "not-proposed", lambda: f"{p[:3]} in {s.name} was taken but not proposed ({desc})"):
                    return
                if not mon.check(E.act(ref, p), "replay", lambda: f"recorded action {p[:3]} in {s.name} does not apply when replayed ({desc})"):
                    return
                taken_all.append(a)
        ref.apply(("purge",))
    got = {}
    for a in g.nodes:
        for b in g.nodes:
            if a != b and g.directed_edge_exists(a, b):
                got[f"{a}>{b}"] = [g.edge_value(a, b), E.TNAME.get(g.edge_type(a, b).name)]
    want = E.vis(ref)
    if not mon.check(set(got) == set(want) and all(got[k][1] == want[k][1] for k in got), "replay", lambda: f"final { {k: v[1] for k, v in got.items()} } replayed { {k: v[1] for k, v in want.items()} } ({desc})"):
        return
    for k in got:
        # an action keeps a reference to the data it set, so later additions may show up in it
        gv, wv = got[k][0], want[k][0] or {}
        if not mon.check(all(gv.get(q) == wv[q] for q in wv) and set(gv) >= set(wv) and (not gv or bool(wv)), "replay-values", lambda: f"{k}: value {gv} replayed {wv} ({desc})"):
            return
    plain = [[a.action.name, a.u.id, a.v.id] for a in taken_all]
    for u, v, w_, h in edge_histories(g, plain):
        mon.event("edge_history")
        p = [[a.action.name, a.u.id, a.v.id] for a in h]
        if not mon.check(p == w_, "edge-history", lambda: f"history of {u},{v} is {p} expected {w_} ({desc})"):
            return
    mon.evaluate(digest([case]), nontrivial=bool(taken_all))
