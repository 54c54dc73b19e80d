"""C07: lock-step monitor of the graph store against a plain mixed-graph model."""
import itertools
import random

from vlib.drive import empty_graph

PROPERTY = "C07"
LEVEL = "exploration"
TECHNIQUE = "model-based runtime checking: every query compared with a reference graph after every operation of random edit histories"
RULE = (
    "every operation history on two nodes up to a fixed length (enumerated) plus random histories on 3-6 nodes; after every "
    "operation all public queries are compared with a reference mixed graph; distinct = distinct (visible state, hidden state) pairs reached"
)
ASSUMPTIONS = [
    "restoring is only driven for edges which were removed before (both directions for the undirected restore); anything else is unspecified by the code base",
    "updating an edge while it is provisionally removed is unspecified and not driven",
]
FLOORS = {"query": 20000, "op": 2000, "rejected_op": 100, "soft_removed_state": 100, "restored": 50}
CPU_LIMIT = 240

NAMES = ["a", "b", "c", "d", "e", "f"]


def _types():
    from causy.edge_types import DirectedEdge, UndirectedEdge, BiDirectedEdge

    return {"D": DirectedEdge, "U": UndirectedEdge, "B": BiDirectedEdge}


class Ref:
    def __init__(self, names):
        self.names = list(names)
        self.e = {}  # (u,v) -> [meta, type, deleted]
        self.purged = {}
        self.hist = {}

    def vis(self, u, v):
        return (u, v) in self.e and not self.e[(u, v)][2]

    # ------------------------------------------------ returns True if applicable
    def legal(self, op):
        k = op[0]
        if k in ("update_d",):
            u, v = op[1:3]
            return (u, v) not in self.e or self.vis(u, v)
        if k in ("update_u",):
            u, v = op[1:3]
            hidden = any(p in self.e and self.e[p][2] for p in ((u, v), (v, u)))
            return not hidden
        return True

    def restore(self, u, v):
        if (u, v) in self.e:
            self.e[(u, v)][2] = False
        elif (u, v) in self.purged:
            m, t, _ = self.purged.pop((u, v))
            self.e[(u, v)] = [m, t, False]
        else:
            return False
        return True

    def apply(self, op):
        """returns False if the operation has to be rejected"""
        k = op[0]
        if k == "purge":
            for p in [p for p, x in self.e.items() if x[2]]:
                self.purged[p] = self.e.pop(p)
            return True
        u, v = op[1:3]
        if k == "hist":
            self.hist.setdefault((u, v), []).append(op[3])
            return True
        if u == v or u not in self.names or v not in self.names:
            return False
        if k == "add_u":
            self.e[(u, v)] = [op[3], op[4], False]
            self.e[(v, u)] = [op[3], op[4], False]
        elif k == "add_d":
            self.e[(u, v)] = [op[3], op[4], False]
        elif k == "rm_u":
            for p in ((u, v), (v, u)):
                if p in self.e:
                    if op[3]:
                        self.e[p][2] = True
                    else:
                        self.purged[p] = self.e.pop(p)
        elif k == "rm_d":
            if (u, v) in self.e:
                if op[3]:
                    self.e[(u, v)][2] = True
                else:
                    self.purged[(u, v)] = self.e.pop((u, v))
        elif k == "restore_d":
            return self.restore(u, v)
        elif k == "restore_u":
            # each direction which was there comes back as it was
            done = [self.restore(*p) for p in ((u, v), (v, u))]
            return any(done)
        elif k == "update_u":
            if (u, v) not in self.e or (v, u) not in self.e:
                return False
            for p in ((u, v), (v, u)):
                if op[3] is not None:
                    self.e[p][0] = op[3]
                if op[4] is not None:
                    self.e[p][1] = op[4]
        elif k == "update_d":
            if (u, v) not in self.e:
                return False
            if op[3] is not None:
                self.e[(u, v)][0] = op[3]
            if op[4] is not None:
                self.e[(u, v)][1] = op[4]
        return True


def real_apply(g, op, nodes, T):
    from causy.models import TestResult, TestResultAction

    k = op[0]
    if k == "purge":
        g.purge_soft_deleted_edges()
        return
    u, v = nodes[op[1]], nodes[op[2]]
    if k == "hist":
        g.add_edge_history(u, v, TestResult(u=u, v=v, action=TestResultAction(op[3][0]), data={"n": op[3][1]}))
    elif k == "add_u":
        g.add_edge(u, v, {"w": op[3]}, edge_type=T[op[4]]())
    elif k == "add_d":
        g.add_directed_edge(u, v, {"w": op[3]}, edge_type=T[op[4]]())
    elif k == "rm_u":
        g.remove_edge(u, v, soft_delete=op[3])
    elif k == "rm_d":
        g.remove_directed_edge(u, v, soft_delete=op[3])
    elif k == "restore_d":
        g.restore_directed_edge(u, v)
    elif k == "restore_u":
        g.restore_edge(u, v)
    elif k == "update_u":
        g.update_edge(u, v, metadata=None if op[3] is None else {"w": op[3]}, edge_type=None if op[4] is None else T[op[4]]())
    elif k == "update_d":
        g.update_directed_edge(u, v, metadata=None if op[3] is None else {"w": op[3]}, edge_type=None if op[4] is None else T[op[4]]())


def compare(gm, ref, nodes, T, mon, hist, full=True):
    """returns a description of the first disagreement"""
    n = 0
    names = ref.names
    tname = {k: T[k]().name for k in T}
    for view, g in (("manager", gm), ("graph", gm.graph)):
        for u in names:
            for v in names:
                if u == v:
                    continue
                uv, vu = ref.vis(u, v), ref.vis(v, u)
                for a, b in ((u, v), (nodes[u], nodes[v])):
                    n += 3
                    if g.directed_edge_exists(a, b) != uv:
                        return f"{view}.directed_edge_exists({u},{v}) != {uv}"
                    hidden = (u, v) in ref.e and ref.e[(u, v)][2]
                    if bool(g.directed_edge_is_soft_deleted(a, b)) != bool(hidden):
                        return f"{view}.directed_edge_is_soft_deleted({u},{v}) != {bool(hidden)}"
                    if g.edge_exists(a, b) != (uv or vu):
                        return f"{view}.edge_exists({u},{v}) != {uv or vu}"
                    if g.undirected_edge_exists(a, b) != (uv and vu):
                        return f"{view}.undirected_edge_exists({u},{v}) != {uv and vu}"
                    for t in T:
                        n += 1
                        want = uv and ref.e[(u, v)][1] == t
                        if g.edge_of_type_exists(a, b, T[t]()) != want:
                            return f"{view}.edge_of_type_exists({u},{v},{t}) != {want}"
                    if uv:
                        n += 2
                        m, t, _ = ref.e[(u, v)]
                        if g.edge_value(a, b) != {"w": m}:
                            return f"{view}.edge_value({u},{v}) is {g.edge_value(a,b)} instead of {m}"
                        if g.edge_type(a, b).name != tname[t]:
                            return f"{view}.edge_type({u},{v}) is {g.edge_type(a,b).name} instead of {tname[t]}"
                    elif not vu:
                        n += 2
                        if g.edge_value(a, b) is not None or g.edge_type(a, b) is not None:
                            return f"{view}: value/type of missing edge {u},{v} is not None"
                if view == "graph":
                    n += 1
                    if g.only_directed_edge_exists(u, v) != (uv and not vu):
                        return f"only_directed_edge_exists({u},{v}) != {uv and not vu}"
                elif uv:
                    e = g.get_edge(nodes[u], nodes[v])
                    n += 1
                    if (e.u.id, e.v.id) != (u, v) or e.metadata != {"w": ref.e[(u, v)][0]}:
                        return f"get_edge({u},{v}) returned {e.u.id}->{e.v.id} {e.metadata}"
        for u in names:
            for a in (u, nodes[u]):
                n += 2
                got = [x.id for x in g.parents_of_node(a)]
                want = [p for p in names if p != u and ref.vis(p, u)]
                if sorted(got) != sorted(want):
                    return f"{view}.parents_of_node({u}) is {sorted(got)} instead of {want}"
                sib = [getattr(s, "id", s) for s in g.get_siblings(a)]
                want = [p for p in names if p != u and ref.vis(p, u) and ref.vis(u, p)]
                if sorted(sib) != sorted(want):
                    return f"{view}.get_siblings({u}) is {sorted(sib)} instead of {want}"
        got = sorted((e.u.id, e.v.id, e.edge_type.name, e.metadata["w"]) for e in g.retrieve_edges())
        want = sorted((u, v, tname[x[1]], x[0]) for (u, v), x in ref.e.items() if not x[2])
        n += 1
        if got != want:
            return f"{view}.retrieve_edges() is {got} instead of {want}"
    if full:
        for u in names:
            for v in names:
                if u == v:
                    continue
                n += 1
                got = [(h.action.value, h.data["n"]) for h in gm.retrieve_edge_history(u, v)]
                want = [tuple(x) for x in ref.hist.get((u, v), [])]
                if got != want:
                    return f"edge history of {u},{v}: {got} instead of {want}"
                for act in {x[0] for x in want}:
                    got = [h.data["n"] for h in gm.retrieve_edge_history(nodes[u], nodes[v], act)]
                    if got != [x[1] for x in want if x[0] == act]:
                        return f"filtered edge history of {u},{v}"
        if [x for x in gm.nodes] != names:
            return "nodes changed"
    mon.event("query", n)
    return None


def play(ops, n, mon, every=True):
    from causy.graph import GraphError

    names = NAMES[:n]
    T = _types()
    g = empty_graph(names)
    ghost = empty_graph(["zz"]).nodes["zz"]
    nodes = dict(g.nodes)
    nodes["zz"] = ghost
    ref = Ref(names)
    for i, op in enumerate(ops):
        if not ref.legal(op):
            continue
        before_hidden = sum(x[2] for x in ref.e.values())
        ok = ref.apply(op)
        mon.event("op")
        try:
            real_apply(g, op, nodes, T)
            raised = None
        except (GraphError, ValueError) as e:
            raised = e
        if ok and raised is not None:
            mon.violation("rejected-legal", f"{op} was rejected with {raised!r} after {ops[:i]}")
            return
        if not ok:
            mon.event("rejected_op")
            if raised is None:
                mon.violation("accepted-illegal", f"{op} was accepted after {ops[:i]}")
                return
        if any(x[2] for x in ref.e.values()):
            mon.event("soft_removed_state")
        if op[0].startswith("restore"):
            mon.event("restored")
        if every or i == len(ops) - 1:
            d = compare(g, ref, nodes, T, mon, i)
            if d is not None:
                mon.violation("disagreement", f"after {ops[: i + 1]}: {d}")
                return
    mon.evaluate(
        str(sorted((p, x[1], x[2]) for p, x in ref.e.items())) + str(sorted((p, x[1]) for p, x in ref.purged.items())),
        nontrivial=bool(ref.e or ref.purged),
        sample={"ops": ops, "final_edges": sorted(f"{u}->{v}:{x[1]}{' (removed)' if x[2] else ''}" for (u, v), x in ref.e.items())}
        if len(ops) > 3
        else None,
    )


ALPHABET = [
    ["add_u", "a", "b", 1, "U"],
    ["add_d", "a", "b", 2, "D"],
    ["add_d", "b", "a", 3, "D"],
    ["rm_u", "a", "b", True],
    ["rm_u", "b", "a", False],
    ["rm_d", "a", "b", True],
    ["rm_d", "b", "a", True],
    ["rm_d", "a", "b", False],
    ["purge"],
    ["restore_d", "a", "b"],
    ["restore_d", "b", "a"],
    ["restore_u", "a", "b"],
    ["update_u", "b", "a", 4, None],
    ["update_d", "a", "b", 5, "B"],
]


def random_ops(rng, n, length):
    names = NAMES[:n]
    ops = []
    w = 0
    for _ in range(length):
        u, v = rng.sample(names, 2)
        w += 1
        t = rng.choice("DUB")
        r = rng.random()
        if r < 0.03:
            ops.append(rng.choice([["add_u", u, u, w, t], ["add_d", u, u, w, t]]))
        elif r < 0.06:
            a, b = rng.choice([(u, "zz"), ("zz", v)])
            ops.append(
                rng.choice(
                    [
                        ["add_u", a, b, w, t],
                        ["add_d", a, b, w, t],
                        ["rm_u", a, b, rng.random() < 0.5],
                        ["rm_d", a, b, rng.random() < 0.5],
                        ["update_u", a, b, w, t],
                        ["update_d", a, b, w, t],
                        ["restore_d", a, b],
                        ["restore_u", a, b],
                    ]
                )
            )
        elif r < 0.21:
            ops.append(["add_u", u, v, w, t])
        elif r < 0.36:
            ops.append(["add_d", u, v, w, t])
        elif r < 0.48:
            ops.append(["rm_u", u, v, rng.random() < 0.6])
        elif r < 0.62:
            ops.append(["rm_d", u, v, rng.random() < 0.6])
        elif r < 0.68:
            ops.append(["purge"])
        elif r < 0.77:
            ops.append(["restore_d", u, v])
        elif r < 0.84:
            ops.append(["restore_u", u, v])
        elif r < 0.90:
            ops.append(["update_u", u, v, rng.choice([w, None]), rng.choice([t, None])])
        elif r < 0.96:
            ops.append(["update_d", u, v, rng.choice([w, None]), rng.choice([t, None])])
        else:
            ops.append(["hist", u, v, [rng.choice(["UPDATE_EDGE", "REMOVE_EDGE_UNDIRECTED"]), w]])
    return ops


def cases(tier, seed):
    depth = 4 if tier == "quick" else 5
    out = []
    # enumerated: one case per prefix of length 2
    for i, j in itertools.product(range(len(ALPHABET)), repeat=2):
        out.append({"kind": "enum", "prefix": [i, j], "depth": depth})
    n = 500 if tier == "quick" else 4000
    for k in range(n):
        out.append({"kind": "random", "n": 2 + (k % 5), "len": 20 + (k * 7) % 60, "seed": seed * 100003 + k})
    return out


def run_case(case, mon):
    if case["kind"] == "enum":
        for rest in itertools.product(range(len(ALPHABET)), repeat=case["depth"] - 2):
            if mon.violations:
                return
            # states of the prefixes are compared when their own sequence is played
            play([ALPHABET[k] for k in case["prefix"] + list(rest)], 2, mon, every=len(rest) < 2)
    else:
        rng = random.Random(case["seed"])
        play(random_ops(rng, case["n"], case["len"]), case["n"], mon)
