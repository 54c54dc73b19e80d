"""building graphs inside causy from plain descriptions, with removed edges left behind on request"""
import itertools

from vlib.drive import empty_graph


def build(names, und=(), dire=(), ghosts=(), ghost_mode="soft", meta=None):
    """und: pairs, dire: (a, b) meaning a -> b, ghosts: edges that are added and removed again
    (pair as 2-tuple, ghost_mode soft/hard/mixed)"""
    g = empty_graph(names)
    N = g.nodes
    for i, (kind, a, b) in enumerate(ghosts):
        # a ghost must not share its pair with a live edge in the same direction
        if kind == "u":
            g.add_edge(N[a], N[b], {})
        else:
            g.add_directed_edge(N[a], N[b], {})
    for i, (kind, a, b) in enumerate(ghosts):
        soft = ghost_mode == "soft" or (ghost_mode == "mixed" and i % 2 == 0)
        if kind == "u":
            g.remove_edge(N[a], N[b], soft_delete=soft)
        else:
            g.remove_directed_edge(N[a], N[b], soft_delete=soft)
    for a, b in und:
        g.add_edge(N[a], N[b], {})
    for a, b in dire:
        g.add_directed_edge(N[a], N[b], {})
    return g


def random_ghosts(rng, names, live_pairs, k):
    out = []
    free = [p for p in itertools.combinations(names, 2) if frozenset(p) not in live_pairs]
    rng.shuffle(free)
    for a, b in free[:k]:
        if rng.random() < 0.5:
            out.append(("u", a, b))
        else:
            a, b = rng.choice([(a, b), (b, a)])
            out.append(("d", a, b))
    return out


def all_dags(n):
    """all labelled DAGs over 0..n-1 as edge lists"""
    from vlib.refs import is_acyclic

    pairs = list(itertools.combinations(range(n), 2))
    for st in itertools.product((0, 1, 2), repeat=len(pairs)):
        e = [(a, b) if s == 1 else (b, a) for s, (a, b) in zip(st, pairs) if s]
        if is_acyclic(range(n), e):
            yield e


def random_names(rng, n):
    pool = rng.choice(
        [
            [chr(97 + i) for i in range(26)],
            [f"n{i}" for i in range(30)],
            ["10", "9", "1", "01", "a b", "ä", "x.y", "-", "X", "x", "None", "null"],
        ]
    )
    return rng.sample(pool, n)


def morph(g, old, new, rng):
    """edits the graph g which holds old = (undirected pairs, arrows) until it holds new; queries of the old state were asked before"""
    N = g.nodes

    def state(und, dire):
        d = {frozenset(e): None for e in und}
        d.update({frozenset(e): tuple(e) for e in dire})
        return d

    a, b = state(*old), state(*new)
    gone = [p for p in a if p not in b or a[p] != b[p]]
    rng.shuffle(gone)
    for p in gone:
        x, y = rng.sample(sorted(p), 2)
        if a[p] is not None and rng.random() < 0.5:
            g.remove_directed_edge(N[a[p][0]], N[a[p][1]], soft_delete=rng.random() < 0.5)
        else:
            g.remove_edge(N[x], N[y], soft_delete=rng.random() < 0.5)
    if rng.random() < 0.3:
        g.purge_soft_deleted_edges()
    come = [p for p in b if p not in a or a[p] != b[p]]
    rng.shuffle(come)
    for p in come:
        x, y = rng.sample(sorted(p), 2)
        if b[p] is None:
            g.add_edge(N[x], N[y], {})
        else:
            g.add_directed_edge(N[b[p][0]], N[b[p][1]], {})
    return len(gone), len(come)
