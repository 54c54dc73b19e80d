"""C06: the orientation phase on arbitrary skeletons and separating sets."""
import itertools
import random

from vlib import refs, steps
from vlib.core import digest
from vlib.drive import fmt, observed_graph, run_model
from vlib.graphs import random_names, all_dags

PROPERTY = "C06"
LEVEL = "exploration"
TECHNIQUE = "invariant monitor around the orientation phase plus independent Meek closure oracle"
RULE = (
    "the bundled orientation phase (collider rule with both conflict strategies, loop over the four further rules) run on every DAG-derived skeleton up to 4 nodes, random DAG-derived ones up to 9 (chains up to 14), "
    "and random skeletons with arbitrary separating sets; single passes of one rule over states which a DAG explains (nothing unjustified, nothing lost, progress) and over arbitrary, also cyclic and contradictory ones (nothing lost); observed: termination, adjacencies, collider decisions (greedy replay of the conflict strategy over the pairs in generator order), Meek closure (DAG-derived), "
    "edge types; distinct = distinct (skeleton, sets, strategy) with at least one unshielded triple"
)
ASSUMPTIONS = [
    "Meek closure is only required if the separating sets come from a DAG (contradictory sets need not admit any consistent orientation)",
    "ColliderTest collects its proposals before they are applied, as in all bundled algorithms",
]
FLOORS = {"run": 800, "never_connected": 100, "collider": 1500, "conflict": 300, "conflict_chain": 40, "dag_closure": 400, "rule_orientation": 300, "rule2_needed": 3, "rule3_needed": 3, "knowledge_closure": 200, "known_before_colliders": 200, "rule4_needed": 15, "arbitrary_state": 5000, "contradiction": 500, "rule_alone": 3000, "rule1_alone": 100, "rule2_alone": 50, "rule3_alone": 50, "rule4_alone": 50}
CPU_LIMIT = 40

_M = {}


def run(m, data, sk, mon):
    """on the complete graph, or so that nodes without neighbours never had an edge at all"""
    lonely = {a for a in (data if isinstance(data, dict) else data[0]) if not any(a in e for e in sk)}
    if not lonely or sum(map(len, sk)) % 4 == 0:
        return run_model(m, data)
    mon.event("never_connected", len(lonely))
    m.create_graph_from_data(data)
    N = m.graph.nodes
    for a, b in itertools.combinations(N, 2):
        if not lonely & {a, b}:
            m.graph.add_edge(N[a], N[b], {})
    m.execute_pipeline_steps()
    return m


def model(strategy, full=True, background=0):
    import copy

    from causy.causal_discovery.constraint.algorithms.pc import PC_EDGE_TYPES, PC_ORIENTATION_RULES
    from causy.causal_discovery.constraint.orientation_rules.pc import ColliderTest
    from causy.graph_model import graph_model_factory
    from causy.models import Algorithm

    k = (strategy, full, background)
    if k not in _M:
        if strategy is None:
            rules = copy.deepcopy(PC_ORIENTATION_RULES)
        else:
            rules = [ColliderTest(conflict_resolution_strategy=strategy)] + (copy.deepcopy(PC_ORIENTATION_RULES[1:]) if full else [])
        if background:
            # before or after the collider rule
            rules.insert(background - 1, steps.Background())
        _M[k] = graph_model_factory(Algorithm(name="orientation", pipeline_steps=[steps.Prune(), *rules], edge_types=PC_EDGE_TYPES))
    return _M[k]()


def colliders(order, plan, sk, strategy):
    """(oriented edges, wanted triples, conflicts, chained conflicts)"""
    acc, skipped = set(), set()
    wanted = conflicts = chained = 0
    for x, y in order:
        if frozenset((x, y)) in sk:
            continue
        mids = [z for z in {n for e in sk for n in e} if frozenset((x, z)) in sk and frozenset((y, z)) in sk]
        new = set()
        for z in mids:
            if z in plan[frozenset((x, y))]:
                continue
            wanted += 1
            clash = {(z, x), (z, y)} & acc
            if clash:
                conflicts += 1
                if strategy == "KEEP_FIRST":
                    skipped |= {(x, z), (y, z)} - acc
                    continue
                acc -= clash
            if {(z, x), (z, y)} & skipped:
                chained += 1
            new |= {(x, z), (y, z)}
        acc |= new
    return acc, wanted, conflicts, chained


def cases(tier, seed):
    out = []
    quick = tier == "quick"
    for n in (3, 4):
        for i, e in enumerate(all_dags(n)):
            if n == 3 or not quick or (i + seed) % 3 == 0:
                out.append({"kind": "dag", "n": n, "edges": [list(x) for x in e], "seed": seed * 7 + i})
    for i in range(1500 if quick else 12000):
        out.append({"kind": "dag", "n": 5 + i % 5, "seed": seed * 100003 + i})
    for i in range(90 if quick else 300):
        out.append({"kind": "chain", "n": 6 + i % 9, "seed": seed * 100019 + i})
    for i in range(1800 if quick else 8000):
        out.append({"kind": "knowledge", "n": 4 + i % 4, "seed": seed * 100057 + i})
    for i in range(100 if quick else 400):
        n = 4 + i % 3
        # a - {b, c, d}, d -> c -> b
        e = [[0, 1], [0, 2], [0, 3], [3, 2], [2, 1]] + [[], [[0, 4]], [[4, 0], [4, 5]]][n - 4]
        out.append({"kind": "knowledge", "n": n, "edges": e, "known": [[3, 2]] if i % 2 else [[3, 2], [2, 1]], "seed": seed * 100069 + i})
    for i in range(2500 if quick else 20000):
        c = {"kind": "rules", "n": 4 + (i % 7) // 4, "seed": seed * 100103 + i}
        if i % 3:
            # what the third and the fourth rule need
            e = [[0, 1], [0, 2], [0, 3], [3, 2], [2, 1]] if i % 3 == 1 else [[0, 1], [0, 2], [0, 3], [2, 1], [3, 1]]
            c["edges"] = e + [[], [[0, 4]], [[4, 0]], [[1, 4]], [[4, 3]], [[3, 4], [0, 4]]][i // 3 % 6]
            if i % 2 and i % 3 == 1:
                c["known"] = [[3, 2], [2, 1]]
            c["n"] = 1 + max(max(x) for x in c["edges"])
        out.append(c)
    for i in range(2400 if quick else 20000):
        out.append({"kind": "arbitrary", "n": 4 + i % 4, "seed": seed * 100109 + i})
    for i in range(3600 if quick else 15000):
        out.append({"kind": "any", "n": 3 + i % 6, "seed": seed * 100043 + i})
    return out


def sep_set(rng, n, edges, x, y):
    """some separating set of x and y (a random one among the minimal ones or the parents)"""
    others = [k for k in range(n) if k not in (x, y)]
    if n > 9 or rng.random() < 0.3:
        # the parents of the later node in a topological order
        for a, b in ((x, y), (y, x)):
            pa = refs.parents(edges, b)
            if a not in refs.descendants_of(edges, b) and a not in pa:
                return sorted(pa)
    for size in range(len(others) + 1):
        c = [z for z in itertools.combinations(others, size) if refs.d_separated(edges, x, y, z)]
        if c:
            return list(rng.choice(c))
    raise AssertionError


def run_case(case, mon):
    from causy.generators import AllCombinationsGenerator
    from causy.models import ComparisonSettings

    rng = random.Random(case["seed"])
    n = case["n"]
    if case["kind"] == "arbitrary":
        return arbitrary(n, rng, mon)
    names = random_names(rng, n) if n <= 12 else [f"n{i}" for i in rng.sample(range(30), n)]
    edges = None
    plan = {}
    if case["kind"] == "any":
        p = rng.choice([0.3, 0.5, 0.7])
        q = rng.choice([0.1, 0.3, 0.5])
        for a, b in itertools.combinations(names, 2):
            if rng.random() < p:
                plan[frozenset((a, b))] = [z for z in names if z not in (a, b) and rng.random() < q]
    else:
        if case["kind"] == "chain":
            # a collider at the start whose orientation has to travel down a chain in any node order
            perm = rng.sample(range(n), n)
            edges = [(perm[0], perm[2]), (perm[1], perm[2])] + [(perm[i], perm[i + 1]) for i in range(2, n - 1)]
            if rng.random() < 0.5:
                edges.append((perm[n - 3], perm[n - 1]))
        else:
            edges = [tuple(e) for e in case["edges"]] if "edges" in case else refs.random_dag(n, rng.uniform(0.2, 0.6), rng)
        sk0 = refs.skeleton(edges)
        for x, y in itertools.combinations(range(n), 2):
            if frozenset((x, y)) not in sk0:
                plan[frozenset((names[x], names[y]))] = [names[z] for z in sep_set(rng, n, edges, x, y)]
    sk = {frozenset(e) for e in itertools.combinations(names, 2)} - set(plan)
    steps.PLAN.clear()
    steps.PLAN.update(plan)
    order = list(names)
    rng.shuffle(order)
    data = [{k: 0.0 for k in order}, {k: 1.0 for k in order}]
    triples = any(
        frozenset((x, z)) in sk and frozenset((y, z)) in sk for p in plan for x, y in [tuple(p)] for z in names if z not in p
    )
    if case["kind"] == "rules":
        return rules_alone(names, edges, sk, data, rng, mon, case.get("known"))
    if case["kind"] == "knowledge":
        return knowledge(names, edges, sk, data, rng, mon, case)
    for strategy in (None, "KEEP_FIRST", "KEEP_LAST"):
        for full in (True, False):
            if strategy is None and not full:
                continue
            m = model(strategy, full)
            run(m, data if case["seed"] % 2 else {k: [0.0, 1.0] for k in order}, sk, mon)
            g = m.graph
            und, dire = observed_graph(g)
            desc = f"strategy={strategy} full={full} nodes={list(g.nodes)} skeleton={fmt(sk, [])} separating sets={ {'|'.join(sorted(k)): v for k, v in plan.items()} } result={fmt(und, dire)}"
            mon.event("run")
            pairs = list(AllCombinationsGenerator(comparison_settings=ComparisonSettings(min=2, max=2)).generate(g.graph, m))
            acc, wanted, conf, chained = colliders([tuple(p) for p in pairs], plan, sk, strategy or "KEEP_FIRST")
            mon.event("collider", wanted - conf)
            mon.event("conflict", conf)
            mon.event("conflict_chain", chained)
            mon.evaluate(digest([sorted(map(sorted, sk)), sorted((sorted(k), sorted(v)) for k, v in plan.items()), strategy, full]), nontrivial=triples)
            if not mon.check(und | {frozenset(d) for d in dire} == sk, "skeleton", lambda: "adjacencies changed: " + desc):
                return
            if not mon.check(acc <= dire, "collider", lambda: f"missing {sorted(acc - dire)} " + desc):
                return
            if not full and not mon.check(dire <= acc, "collider", lambda: f"unjustified {sorted(dire - acc)} " + desc):
                return
            if not acc and not mon.check(not dire, "unjustified", lambda: "orientation without any collider: " + desc):
                return
            want_types = sorted([(a, b, "DIRECTED") for a, b in dire] + [(a, b, "UNDIRECTED") for e in und for a, b in itertools.permutations(e)])
            got_types = sorted((e.u.id, e.v.id, e.edge_type.name) for e in g.retrieve_edges())
            if not mon.check(want_types == got_types, "edge-types", lambda: f"{got_types} " + desc):
                return
            if edges is not None and full:
                mon.check(conf == 0, "oracle", "DAG separating sets gave a conflict")
                c0 = refs.meek_closure(names, sk - {frozenset(d) for d in acc}, acc)
                mon.event("dag_closure")
                mon.event("rule_orientation", len(c0[1]) - len(acc))
                for r in (2, 3):
                    if c0[1] - acc and refs.meek_closure(names, sk - {frozenset(d) for d in acc}, acc, tuple(k for k in (1, 2, 3, 4) if k != r))[1] != c0[1]:
                        mon.event(f"rule{r}_needed")
                if not mon.check((und, dire) == (c0[0], c0[1]), "closure", lambda: f"expected {fmt(*c0)} " + desc):
                    return


def knowledge(names, edges, sk, data, rng, mon, case):
    """some further edges of the DAG are known: the loop has to close the result under all four rules"""
    vs = {(names[a], names[c]) for p, c in refs.v_structures(edges) for a in p}
    rest = [(names[a], names[b]) for a, b in edges if (names[a], names[b]) not in vs]
    known = [e for e in rest if rng.random() < rng.choice([0.1, 0.3, 0.5])]
    if "known" in case:
        known = [(names[a], names[b]) for a, b in case["known"]]
    steps.BACKGROUND[:] = known
    when = 1 + (case["seed"] % 2)
    mon.event("known_before_colliders" if when == 1 else "known_after_colliders")
    m = model(None, True, when)
    run(m, data, sk, mon)
    und, dire = observed_graph(m.graph)
    start = vs | set(known)
    su = sk - {frozenset(e) for e in start}
    want = refs.meek_closure(names, su, start)
    mon.event("knowledge_closure")
    if refs.meek_closure(names, su, start, (1, 2, 3))[1] != want[1]:
        mon.event("rule4_needed")
    mon.evaluate(digest(["k", sorted(map(sorted, sk)), sorted(start)]), nontrivial=bool(known))
    mon.check((und, dire) == want, "closure", lambda: f"nodes={list(m.graph.nodes)} start={fmt(su, start)} got={fmt(und, dire)} expected={fmt(*want)}")


_R = {}


def rule_model(i):
    """the collider rule, what is known, and then only one of the four further rules"""
    import copy

    from causy.causal_discovery.constraint.algorithms.pc import PC_EDGE_TYPES
    from causy.causal_discovery.constraint.orientation_rules import pc
    from causy.graph_model import graph_model_factory
    from causy.models import Algorithm

    if i not in _R:
        rule = [pc.NonColliderTest, pc.FurtherOrientTripleTest, pc.OrientQuadrupleTest, pc.FurtherOrientQuadrupleTest][i]()
        _R[i] = graph_model_factory(Algorithm(name="rule", pipeline_steps=[steps.Prune(), pc.ColliderTest(), steps.Background(), rule], edge_types=PC_EDGE_TYPES))
    return _R[i]()


def rule_only(i):
    """what is known, and then only one of the four further rules, or the loop over all of them"""
    import copy

    from causy.causal_discovery.constraint.algorithms.pc import PC_EDGE_TYPES, PC_ORIENTATION_RULES
    from causy.causal_discovery.constraint.orientation_rules import pc
    from causy.graph_model import graph_model_factory
    from causy.models import Algorithm

    k = ("only", i)
    if k not in _R:
        rules = copy.deepcopy(PC_ORIENTATION_RULES[1:]) if i == 4 else [[pc.NonColliderTest, pc.FurtherOrientTripleTest, pc.OrientQuadrupleTest, pc.FurtherOrientQuadrupleTest][i]()]
        _R[k] = graph_model_factory(Algorithm(name="rule", pipeline_steps=[steps.Prune(), steps.Background(), *rules], edge_types=PC_EDGE_TYPES))
    return _R[k]()


def arbitrary(n, rng, mon):
    """the rules on states which need not be explained by any DAG: whatever they propose, nothing gets lost"""
    names = random_names(rng, n)
    p, q = rng.choice([0.4, 0.6, 0.8]), rng.choice([0.3, 0.5, 0.7])
    pairs = list(itertools.combinations(names, 2))
    sk = {frozenset(e) for e in pairs if rng.random() < p}
    shape = rng.random() if n > 5 else 1
    if shape < 0.4:
        # what the third or the fourth rule needs to direct x - z, and what they need for the other direction
        x, z, a, b, c, d = rng.sample(names, 6)
        r = rng.choice([3, 4])
        free = [(x, z), (x, a), (x, b), (z, c), (z, d)]
        start = {(a, z), (b, z), (c, x), (d, x)} if r == 3 else {(a, b), (b, z), (c, d), (d, x)}
        never = {frozenset(e) for e in (((a, b), (c, d)) if r == 3 else ((a, z), (c, x)))}
        sk = {frozenset(e) for e in [*free, *start]} | {e for e in sk if rng.random() < 0.15 and e not in never}
    elif shape < 0.7:
        # two colliders next to each other: the first rule wants to direct the edge between them in both directions
        a, b, c, d, e, f = rng.sample(names, 6)
        sk = {frozenset(x) for x in ((a, b), (b, c), (c, d), (e, b), (f, c))} | {x for x in sk if rng.random() < 0.2}
        start = {(a, b), (d, c)} | {x for x in ((e, b), (f, c)) if rng.random() < 0.5}
    else:
        start = {rng.choice([e, e[::-1]]) for e in map(tuple, map(sorted, sorted(sk, key=sorted))) if rng.random() < q}
    steps.PLAN.clear()
    steps.PLAN.update({frozenset(e): [] for e in pairs if frozenset(e) not in sk})
    steps.BACKGROUND[:] = sorted(start)
    su = sk - {frozenset(e) for e in start}
    order = rng.sample(names, n)
    for i in range(5):
        m = rule_only(i)
        run(m, {k: [0.0, 1.0] for k in order}, sk, mon)
        und, dire = observed_graph(m.graph)
        once = set().union(*(refs.meek_once(su, start, r) for r in ([i + 1] if i < 4 else [1, 2, 3, 4])))
        both = {e for e in once if e[::-1] in once}
        mon.event("arbitrary_state")
        mon.event("contradiction", len(both) // 2)
        mon.evaluate(digest(["a", i, sorted(map(sorted, sk)), sorted(start)]), nontrivial=bool(once))
        desc = lambda: f"{'rule %d alone' % (i + 1) if i < 4 else 'all rules'}: nodes={list(m.graph.nodes)} start={fmt(su, start)} got={fmt(und, dire)}"
        if not mon.check(und | {frozenset(d) for d in dire} == sk, "skeleton", lambda: "adjacencies changed: " + desc()):
            return
        if not mon.check(start <= dire, "turned", lambda: f"lost orientations {sorted(start - dire)} " + desc()):
            return
        if not both and not mon.check(not once or dire - start, "rule", lambda: f"none of {sorted(once)} was oriented; " + desc()):
            return
        if not once and not mon.check(dire == start, "unjustified", lambda: f"oriented {sorted(dire - start)} although no rule applies; " + desc()):
            return
        types = sorted((e.u.id, e.v.id, e.edge_type.name) for e in m.graph.retrieve_edges())
        want = sorted([(a, b, "DIRECTED") for a, b in dire] + [(a, b, "UNDIRECTED") for e in und for a, b in itertools.permutations(e)])
        if not mon.check(types == want, "edge-types", lambda: f"{types} " + desc()):
            return


def rules_alone(names, edges, sk, data, rng, mon, forced):
    """one pass of a single rule over a state which some DAG explains but which is not closed under the other rules"""
    vs = {(names[a], names[c]) for p, c in refs.v_structures(edges) for a in p}
    rest = [(names[a], names[b]) for a, b in edges if (names[a], names[b]) not in vs]
    q = rng.choice([0.2, 0.5, 0.7, 0.85])
    known = [e for e in rest if rng.random() < q]
    if forced:
        known = [(names[a], names[b]) for a, b in forced]
    steps.BACKGROUND[:] = known
    start = vs | set(known)
    su = sk - {frozenset(e) for e in start}
    closed = refs.meek_closure(names, su, start)
    for i in range(4):
        m = rule_model(i)
        run(m, data, sk, mon)
        und, dire = observed_graph(m.graph)
        mon.event("rule_alone")
        once = refs.meek_once(su, start, i + 1)
        mon.event(f"rule{i + 1}_alone", len(once))
        mon.evaluate(digest(["r", i, sorted(map(sorted, sk)), sorted(start)]), nontrivial=bool(once))
        desc = lambda: f"rule {i + 1} alone: nodes={list(m.graph.nodes)} start={fmt(su, start)} got={fmt(und, dire)} closure={fmt(*closed)}"
        if not mon.check(und | {frozenset(d) for d in dire} == sk, "skeleton", lambda: "adjacencies changed: " + desc()):
            return
        if not mon.check(start <= dire, "turned", lambda: f"lost orientations {sorted(start - dire)} " + desc()):
            return
        if not mon.check(dire <= closed[1], "unjustified", lambda: f"unjustified {sorted(dire - closed[1])} " + desc()):
            return
        # the loop makes progress (a rule may need several passes)
        if not mon.check(not once or once & dire, "rule", lambda: f"none of {sorted(once)} was oriented; " + desc()):
            return
