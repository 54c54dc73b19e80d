"""C11: exactly-once monitor over the tuples produced by the generators."""
import itertools
import random
from collections import Counter

from vlib.core import digest
from vlib.drive import empty_graph
from vlib.graphs import random_names

PROPERTY = "C11"
LEVEL = "exploration"
TECHNIQUE = "exactly-once monitor on generator output streams"
RULE = (
    "graphs on 0-7 nodes with undirected, directed, provisionally and permanently removed edges; every generator with size bounds, chunking, chunk sizes "
    "and shuffling varied; the emitted sequence is checked as a multiset against a direct enumeration; distinct = distinct (graph, generator configuration) with at least one tuple"
)
ASSUMPTIONS = ["for conditioning sets the adjacencies are undirected, as during skeleton search"]
FLOORS = {"tuple": 20000, "generator_run": 2000, "removed_edges": 200, "chunk": 500, "sampled_tuple": 200, "sampler_profile": 100}
CPU_LIMIT = 120


def multiset(it):
    return Counter(tuple(x) for x in it)


def neighbour_sets(names, arcs, adj, lo, hi):
    """reference: ordered pair + every set of further neighbours of the first node"""
    n = len(names)
    hi = n if hi == 0 else min(hi, n)
    want = Counter()
    for size in range(lo, hi + 1):
        for a, b in arcs:
            if size == 2:
                want[(a, b, frozenset())] += 1
                continue
            rest = [k for k in adj[a] if k != b]
            for z in itertools.combinations(rest, size - 2):
                want[(a, b, frozenset(z))] += 1
    return want


def graph_for(rng, n, mixed, p):
    names = random_names(rng, n)
    g = empty_graph(names) if n else empty_graph([])
    N = g.nodes
    names = list(N)
    arcs = set()
    removed = 0
    pairs = list(itertools.combinations(names, 2))
    rng.shuffle(pairs)
    for a, b in pairs:
        if rng.random() < 0.5:
            a, b = b, a
        r = rng.random()
        if r < p:
            if mixed and rng.random() < 0.5:
                g.add_directed_edge(N[a], N[b], {})
                arcs.add((a, b))
            else:
                g.add_edge(N[a], N[b], {})
                arcs |= {(a, b), (b, a)}
        elif r < p + (1 - p) * 0.6:
            if mixed and rng.random() < 0.5:
                g.add_directed_edge(N[a], N[b], {})
                g.remove_directed_edge(N[a], N[b], soft_delete=rng.random() < 0.5)
            else:
                g.add_edge(N[a], N[b], {})
                g.remove_edge(N[a], N[b], soft_delete=rng.random() < 0.6)
            removed += 1
    if mixed:
        for a, b in sorted(arcs):
            if (b, a) in arcs and rng.random() < 0.25 and (a, b) in arcs:
                g.remove_directed_edge(N[a], N[b], soft_delete=rng.random() < 0.7)
                arcs.discard((a, b))
                removed += 1
    return g, names, arcs, removed


def cases(tier, seed):
    k = 9000 if tier == "quick" else 40000
    return [{"seed": seed * 999983 + i, "n": i % 8, "mixed": (i // 8) % 3 == 0, "p": [0.3, 0.6, 0.95][(i // 24) % 3]} for i in range(k)]


def run_case(case, mon):
    from causy.generators import (
        AllCombinationsGenerator,
        PairsWithEdgesInBetweenGenerator,
        PairsWithNeighboursGenerator,
        RandomSampleGenerator,
    )
    from causy.models import ComparisonSettings

    rng = random.Random(case["seed"])
    g, names, arcs, removed = graph_for(rng, case["n"], case["mixed"], case["p"])
    adj = {a: [b for b in names if (a, b) in arcs] for a in names}
    n = len(names)
    if removed:
        mon.event("removed_edges", removed)
    desc = f"nodes={names} arcs={sorted(arcs)} removed={removed}"

    def done(conf, cnt):
        mon.event("generator_run")
        mon.event("tuple", cnt)
        mon.evaluate(digest([sorted(arcs), names, conf]), nontrivial=cnt > 0, sample={"configuration": conf, "arcs": sorted(arcs)[:6], "tuples": cnt} if cnt > 8 else None)

    # the graph manager as well as the plain graph are passed to generators by callers
    for G in (g, g.graph):
        # -------- all combinations
        for _ in range(3):
            lo = rng.randint(1, max(1, n + 1))
            hi = rng.choice([0, lo, lo, rng.randint(1, n + 2)])
            gen = AllCombinationsGenerator(comparison_settings=ComparisonSettings(min=lo, max=hi))
            got = list(gen.generate(G, None))
            stop = n if hi == 0 else min(hi, n)
            want = Counter(frozenset(c) for s in range(lo, stop + 1) for c in itertools.combinations(names, s))
            have = Counter(frozenset(c) for c in got)
            if have != want or any(len(set(c)) != len(c) for c in got):
                mon.violation("all-combinations", f"min={lo} max={hi} {desc}: missing {list((want-have))[:3]} extra {list((have-want))[:3]}")
                return
            done(["all", lo, hi], len(got))
        # -------- pairs with edges
        for chunked in (None, False, True):
            cs = rng.choice([1, 2, 3, 5, 100, max(1, len(arcs)), len(arcs) + 1])
            gen = PairsWithEdgesInBetweenGenerator(chunk_size=cs, chunked=chunked)
            raw = list(gen.generate(G, None))
            if chunked:
                if any(len(c) > cs for c in raw):
                    mon.violation("chunk-size", f"chunk of {max(map(len, raw))} pairs with chunk size {cs}")
                    return
                mon.event("chunk", len(raw))
                raw = [t for c in raw for t in c]
            have = multiset(raw)
            want = Counter(arcs)
            if have != want:
                mon.violation("pairs-with-edges", f"chunked={chunked}/{cs} {desc}: missing {list(want-have)[:3]} extra {list(have-want)[:3]}")
                return
            done(["edges", chunked, cs], len(raw))
        # -------- neighbours
        for _ in range(5):
            chunked, shuffle = rng.random() < 0.5, rng.random() < 0.5
            lo = rng.randint(2, max(2, min(n + 1, 5)))
            hi = rng.choice([0, lo, max(lo, 3), n, n + 2])
            if case["mixed"]:
                lo = hi = 2
            if 0 < hi < lo:
                hi = lo
            conf = ComparisonSettings(min=lo, max=hi)
            gen = PairsWithNeighboursGenerator(comparison_settings=conf, chunked=chunked, shuffle_combinations=shuffle)
            raw = list(gen.generate(G, None))
            if chunked:
                mon.event("chunk", len(raw))
                raw = [t for c in raw for t in c]
            if any(len(set(t)) != len(t) for t in raw):
                mon.violation("neighbours-repeat", f"node repeated within a tuple: {desc}")
                return
            have = Counter((t[0], t[1], frozenset(t[2:])) for t in raw)
            want = neighbour_sets(names, arcs, adj, lo, hi)
            if have != want:
                mon.violation(
                    "pairs-with-neighbours",
                    f"min={lo} max={hi} chunked={chunked} shuffle={shuffle} {desc}: missing {list(want-have)[:3]} extra {list(have-want)[:3]}",
                )
                return
            done(["neighbours", lo, hi, chunked, shuffle], len(raw))
            # -------- random sample
            inner_chunked = chunked
            nth = rng.choice([1, 2, 5, 50])
            wrapped = RandomSampleGenerator(generator=gen, every_nth=nth)
            raw = list(wrapped.generate(G, None))
            if inner_chunked:
                raw = [t for c in raw for t in c]
            have = Counter((t[0], t[1], frozenset(t[2:])) for t in raw)
            mon.event("sampled_tuple", len(raw))
            if have - want:
                mon.violation("random-sample", f"sampled tuples which are not generated or generated once: {list(have-want)[:3]} {desc}")
                return
            done(["sample", lo, hi, chunked, nth], len(raw))
    if case["seed"] % 30 == 0:
        sampling(rng, mon)


def sampling(rng, mon):
    """the sampler reaches every tuple and takes about the configured share; the bounds are wide enough never to be missed by chance"""
    from causy.generators import AllCombinationsGenerator, RandomSampleGenerator
    from causy.models import ComparisonSettings

    g = empty_graph([f"v{i}" for i in range(8)])
    inner = AllCombinationsGenerator(comparison_settings=ComparisonSettings(min=2, max=3))
    total = len(list(inner.generate(g, None)))
    nth = rng.choice([0, 1, 2, 3, 5])
    runs = 60 * (nth + 1)
    seen = Counter()
    wrapped = RandomSampleGenerator(generator=inner, every_nth=nth)
    for _ in range(runs):
        seen.update(tuple(t) for t in wrapped.generate(g, None))
    mon.event("sampler_profile")
    mon.event("sampled_tuple", sum(seen.values()))
    share = sum(seen.values()) / (runs * total)
    if len(seen) != total:
        mon.violation("sample-coverage", f"every_nth={nth}: {total - len(seen)} of {total} tuples were never sampled in {runs} runs")
    elif not 0.5 / (nth + 1) <= share <= min(1, 2 / max(nth, 1)):
        mon.violation("sample-share", f"every_nth={nth}: a share of {share} of the tuples was sampled")
    mon.evaluate(digest(["profile", nth]), True, {"every_nth": nth, "share": share})
