"""Reference implementations (oracles).  None of this imports causy."""
from __future__ import annotations

import itertools
import math

import numpy as np
from scipy import stats


# ---------------------------------------------------------------- random structures
def random_dag(n, p, rng):
    """edges (i, j) meaning i -> j over nodes 0..n-1, random causal order"""
    order = list(range(n))
    rng.shuffle(order)
    return sorted(
        (order[i], order[j])
        for i in range(n)
        for j in range(i + 1, n)
        if rng.random() < p
    )


def sparse_dag(n, extra, rng):
    """edges of a random tree (often long and thin) plus a few more, oriented along a random order"""
    thin = rng.random() < 0.6
    pairs = {(rng.randrange(max(0, i - 2), i) if thin else rng.randrange(i), i) for i in range(1, n)}
    for _ in range(extra):
        pairs.add(tuple(sorted(rng.sample(range(n), 2))))
    pos = list(range(n))
    mode = rng.randrange(3)
    if mode == 0:
        rng.shuffle(pos)
    elif mode == 1:  # long directed chains with a few exceptions
        for _ in range(3):
            a, b = rng.sample(range(n), 2)
            pos[a], pos[b] = pos[b], pos[a]
    return [(a, b) if pos[a] < pos[b] else (b, a) for a, b in sorted(pairs)]


def parents(edges, v):
    return {a for a, b in edges if b == v}


def children(edges, v):
    return {b for a, b in edges if a == v}


def ancestors_of(edges, nodes):
    """ancestors including the nodes themselves"""
    res = set(nodes)
    stack = list(nodes)
    while stack:
        v = stack.pop()
        for p in parents(edges, v):
            if p not in res:
                res.add(p)
                stack.append(p)
    return res


def descendants_of(edges, node):
    res = {node}
    stack = [node]
    while stack:
        v = stack.pop()
        for c in children(edges, v):
            if c not in res:
                res.add(c)
                stack.append(c)
    return res


def d_separated(edges, x, y, z):
    """moralised ancestral graph criterion"""
    z = set(z)
    anc = ancestors_of(edges, {x, y} | z)
    sub = [(a, b) for a, b in edges if a in anc and b in anc]
    und = {v: set() for v in anc}
    for a, b in sub:
        und[a].add(b)
        und[b].add(a)
    for v in anc:
        ps = sorted(parents(sub, v), key=str)
        for a, b in itertools.combinations(ps, 2):
            und[a].add(b)
            und[b].add(a)
    seen = {x}
    stack = [x]
    while stack:
        v = stack.pop()
        for w in und[v]:
            if w in z or w in seen:
                continue
            if w == y:
                return False
            seen.add(w)
            stack.append(w)
    return True


def is_acyclic(nodes, edges):
    indeg = {v: 0 for v in nodes}
    for _, b in edges:
        indeg[b] += 1
    q = [v for v in nodes if indeg[v] == 0]
    seen = 0
    while q:
        v = q.pop()
        seen += 1
        for a, b in edges:
            if a == v:
                indeg[b] -= 1
                if indeg[b] == 0:
                    q.append(b)
    return seen == len(list(nodes))


def skeleton(edges):
    return {frozenset(e) for e in edges}


def v_structures(edges):
    sk = skeleton(edges)
    res = set()
    for v in {b for _, b in edges}:
        for a, b in itertools.combinations(sorted(parents(edges, v), key=str), 2):
            if frozenset((a, b)) not in sk:
                res.add((frozenset((a, b)), v))
    return res


# ---------------------------------------------------------------- CPDAG
def meek_once(und, dire, rule):
    """orientations which one of the four rules justifies directly in the given state (rule 4 with a - d undirected)"""
    nodes = {n for e in und | {frozenset(d) for d in dire} for n in e}

    def adj(a, b):
        return frozenset((a, b)) in und or (a, b) in dire or (b, a) in dire

    out = set()
    for e in und:
        for a, b in itertools.permutations(e):
            cand = [c for c in nodes - {a, b} if frozenset((a, c)) in und]
            if (
                any((c, a) in dire and not adj(c, b) for c in nodes - {a, b})
                if rule == 1
                else any((a, c) in dire and (c, b) in dire for c in nodes)
                if rule == 2
                else any(not adj(c, d) for c, d in itertools.combinations([c for c in cand if (c, b) in dire], 2))
                if rule == 3
                else any((c, d) in dire and (d, b) in dire and not adj(c, b) for c, d in itertools.permutations(cand, 2))
            ):
                out.add((a, b))
    return out


def meek_closure(nodes, und, dire, rules=(1, 2, 3, 4)):
    """und: set of frozensets, dire: set of (a,b).  Textbook rules R1-R4."""
    und = set(und)
    dire = set(dire)

    def adj(a, b):
        return frozenset((a, b)) in und or (a, b) in dire or (b, a) in dire

    changed = True
    while changed:
        changed = False
        for e in sorted(und, key=lambda s: sorted(map(str, s))):
            p, q = tuple(e)
            for a, b in ((p, q), (q, p)):
                # should a - b become a -> b ?
                r1 = any(
                    (c, a) in dire and not adj(c, b) for c in nodes if c not in (a, b)
                )
                r2 = any((a, c) in dire and (c, b) in dire for c in nodes)
                cand = [
                    c
                    for c in nodes
                    if c not in (a, b)
                    and frozenset((a, c)) in und
                    and (c, b) in dire
                ]
                r3 = any(
                    not adj(c, d) for c, d in itertools.combinations(cand, 2)
                )
                r4 = any(
                    frozenset((a, c)) in und
                    and (c, d) in dire
                    and (d, b) in dire
                    and not adj(c, b)
                    and adj(a, d)
                    for c in nodes
                    for d in nodes
                    if len({a, b, c, d}) == 4
                )
                if (r1 and 1 in rules) or (r2 and 2 in rules) or (r3 and 3 in rules) or (r4 and 4 in rules):
                    und.discard(e)
                    dire.add((a, b))
                    changed = True
                    break
            if changed:
                break
    return und, dire


def cpdag_meek(nodes, edges, rules=(1, 2, 3, 4)):
    sk = skeleton(edges)
    dire = set()
    for pair, c in v_structures(edges):
        for a in pair:
            dire.add((a, c))
    und = {e for e in sk if not any(frozenset(d) == e for d in dire)}
    return meek_closure(nodes, und, dire, rules)


def equivalence_class(nodes, edges):
    """all DAGs with the same skeleton and v-structures (brute force)"""
    sk = [tuple(sorted(e, key=str)) for e in sorted(skeleton(edges), key=lambda s: sorted(map(str, s)))]
    vs = v_structures(edges)
    res = []
    for bits in itertools.product((0, 1), repeat=len(sk)):
        cand = [(a, b) if bit else (b, a) for bit, (a, b) in zip(bits, sk)]
        if is_acyclic(nodes, cand) and v_structures(cand) == vs:
            res.append(cand)
    return res


def cpdag_brute(nodes, edges):
    cls = equivalence_class(nodes, edges)
    und, dire = set(), set()
    for e in skeleton(edges):
        a, b = tuple(e)
        dirs = {(a, b) in c for c in map(set, cls)}
        if dirs == {True}:
            dire.add((a, b))
        elif dirs == {False}:
            dire.add((b, a))
        else:
            und.add(e)
    return und, dire


def cpdag(nodes, edges):
    if len(edges) <= 10:
        return cpdag_brute(nodes, edges)
    return cpdag_meek(nodes, edges)


def consistent_extensions(nodes, und, dire):
    """all DAGs that orient und, keep dire and create no new v-structure (brute force)"""
    base = set(dire)
    und = [tuple(sorted(e, key=str)) for e in und]
    sk = {frozenset(e) for e in base} | {frozenset(e) for e in und}

    def vs(edges):
        return v_structures(edges)

    res = []
    vsets = None
    for bits in itertools.product((0, 1), repeat=len(und)):
        cand = sorted(base | {(a, b) if bit else (b, a) for bit, (a, b) in zip(bits, und)})
        if is_acyclic(nodes, cand):
            res.append(cand)
    return res


# ---------------------------------------------------------------- statistics
def pcor(sigma, x, y, z):
    idx = [x, y, *z]
    p = np.linalg.inv(sigma[np.ix_(idx, idx)])
    return -p[0, 1] / math.sqrt(p[0, 0] * p[1, 1])


def partial_corr_residuals(data, x, y, z):
    """data: dict name -> 1d array; correlation of OLS (with intercept) residuals"""
    X = np.asarray(data[x], float)
    Y = np.asarray(data[y], float)
    if z:
        A = np.column_stack([np.ones(len(X))] + [np.asarray(data[k], float) for k in z])
        X = X - A @ np.linalg.lstsq(A, X, rcond=None)[0]
        Y = Y - A @ np.linalg.lstsq(A, Y, rcond=None)[0]
    X = X - X.mean()
    Y = Y - Y.mean()
    return float((X @ Y) / math.sqrt((X @ X) * (Y @ Y)))


def fisher_p(r, n, k):
    """two sided p-value of Fisher's z test for a (partial) correlation r with k controls"""
    if abs(r) >= 1:
        return 0.0
    return float(2 * stats.norm.sf(abs(math.atanh(r)) * math.sqrt(n - k - 3)))


# ---------------------------------------------------------------- exact-covariance data
def sem_cov(n, edges, w):
    B = np.zeros((n, n))
    for (a, b), c in zip(edges, w):
        B[b, a] = c
    inv = np.linalg.inv(np.eye(n) - B)
    return inv @ inv.T


def faithful_sem(rng, n, p, n_rows, min_z=5.0, tries=200, edges=None, lo=0.4, hi=1.4):
    """random DAG + linear SEM whose every d-connection is visible (|z| > min_z in n_rows rows)"""
    for t in range(tries):
        e = edges if edges is not None else random_dag(n, p, rng)
        w = [rng.choice((-1, 1)) * rng.uniform(lo, hi) for _ in e]
        s = sem_cov(n, e, w)
        if np.linalg.cond(s) > 1e6:
            continue
        d = np.sqrt(np.diag(s))
        c = s / np.outer(d, d)
        if strongly_faithful(n, e, c, n_rows, min_z):
            return e, w, s
    return None


def strongly_faithful(n, edges, corr, n_rows, min_z):
    for x, y in itertools.combinations(range(n), 2):
        others = [k for k in range(n) if k not in (x, y)]
        for size in range(0, len(others) + 1):
            for z in itertools.combinations(others, size):
                sep = d_separated(edges, x, y, z)
                r = pcor(corr, x, y, z)
                if sep:
                    if abs(r) > 1e-7:
                        return False
                else:
                    if abs(r) > 0.9995:
                        return False
                    if abs(math.atanh(r)) * math.sqrt(n_rows - size - 3) < min_z:
                        return False
    return True


def exact_data(nprng, sigma, n_rows, kind="normal"):
    """n_rows x d matrix with zero mean and sample covariance exactly sigma (up to rounding)"""
    d = sigma.shape[0]
    if kind == "uniform":
        g = nprng.uniform(-1, 1, (n_rows, d))
    elif kind == "exp":
        g = nprng.exponential(1.0, (n_rows, d))
    else:
        g = nprng.standard_normal((n_rows, d))
    g = g - g.mean(axis=0)
    q, _ = np.linalg.qr(g)
    q = q - q.mean(axis=0)
    q, _ = np.linalg.qr(q)
    L = np.linalg.cholesky(sigma)
    return (q * math.sqrt(n_rows - 1)) @ L.T
