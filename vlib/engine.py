"""Scripted pipelines for causy's engine and a reference that predicts what has to happen (C12, C24).

A pipeline is plain data: a list of
  {"kind": "step",     "mode": plain|sync|chunked|parallel, "script": {"a|b": [actions]}, "chunks": [..]}
  {"kind": "loop",     "iters": k | None, "steps": [step, ...]}     (None: exit when no action was taken)
  {"kind": "together", "steps": [step, ...]}
and an action is [name, u, v, value, type].  Every pair of nodes is presented to every step once.
"""
import itertools
from typing import Any, List, Optional

from checks.c07 import Ref

from causy.edge_types import BiDirectedEdge, DirectedEdge, UndirectedEdge
from causy.generators import AllCombinationsGenerator
from causy.interfaces import ExitConditionInterface, GeneratorInterface, PipelineStepInterface
from causy.models import ComparisonSettings, TestResult, TestResultAction

SCRIPTS = {}  # sid -> {frozenset(pair): [action] | None}
SEEN = []  # (sid, pair, snapshot of the graph the step was shown)
HOOKLOG = []  # calls of edge type hooks
EXTRA = [None]  # callable(graph, value) -> further data of updates
FAIL = [0]  # > 0: every FAIL-th edge hook raises


def _h(kind):
    def hook(self, graph, edge):
        HOOKLOG.append((kind, self.name, edge.action.name, edge.u.id, edge.v.id, graph.directed_edge_exists(edge.u.id, edge.v.id)))
        if FAIL[0] and len(HOOKLOG) % FAIL[0] == 0:
            raise [ValueError, KeyError, RuntimeError][len(HOOKLOG) % 3]("hook failure requested by the test")

    return hook


class HookedUndirected(UndirectedEdge):
    name: str = "HU"


class HookedDirected(DirectedEdge):
    name: str = "HD"


for _c in (HookedUndirected, HookedDirected):
    for _k in ("pre_edge_remove_hook", "post_edge_remove_hook", "pre_edge_update_hook", "post_edge_update_hook", "pre_edge_type_change_hook", "post_edge_type_change_hook"):
        setattr(_c, _k, _h(_k))

TYPES = {"U": UndirectedEdge, "D": DirectedEdge, "B": BiDirectedEdge, "HU": HookedUndirected, "HD": HookedDirected}
TNAME = {UndirectedEdge().name: "U", DirectedEdge().name: "D", BiDirectedEdge().name: "B", "HU": "HU", "HD": "HD"}


class PairChunks(GeneratorInterface):
    """all pairs in chunks of the given sizes (cyclic)"""

    comparison_settings: Any = None
    chunked: Any = True
    sizes: List[int] = [2]

    def __init__(self, sizes=(2,), **kw):
        super().__init__(**kw)
        self.sizes = list(sizes)

    def generate(self, graph, graph_model_instance_):
        pairs = list(itertools.combinations(graph.nodes, 2))
        i = k = 0
        while i < len(pairs):
            n = max(1, self.sizes[k % len(self.sizes)])
            yield [list(p) for p in pairs[i : i + n]]
            i += n
            k += 1


def snapshot(graph):
    ids = list(graph.nodes)
    out = {}
    for a in ids:
        for b in ids:
            if a != b and graph.directed_edge_exists(a, b):
                v = graph.edge_value(a, b)
                out[f"{a}>{b}"] = ["" if v == {} else v.get("w") if v else None, TNAME.get(graph.edge_type(a, b).name, "?")]
    return out


def as_result(graph, a):
    name, u, v, val, typ = a
    return TestResult(
        u=graph.nodes[u],
        v=graph.nodes[v],
        action=TestResultAction[name],
        data={} if val == "" else (EXTRA[0](graph, val) if EXTRA[0] else None) if val is None else {"w": val, **(EXTRA[0](graph, val) if EXTRA[0] else {})},
        edge_type=None if typ is None else TYPES[typ](),
    )


def as_plain(r):
    t = TNAME.get(r.edge_type.name, "?") if r.edge_type is not None else None
    return [r.action.name, r.u.id, r.v.id, "" if r.data == {} else (r.data or {}).get("w"), t]


class Script(PipelineStepInterface):
    generator: Optional[GeneratorInterface] = AllCombinationsGenerator(comparison_settings=ComparisonSettings(min=2, max=2))
    parallel: Any = False
    chunk_size_parallel_processing: Any = 1
    apply_synchronous: Any = False
    sid: int = 0

    def process(self, nodes, graph):
        if not self.parallel:
            SEEN.append((self.sid, "|".join(nodes), snapshot(graph)))
        acts = SCRIPTS[self.sid].get(frozenset(nodes))
        if acts is None:
            return None
        res = [as_result(graph, a) for a in acts]
        if len(res) == 1:
            return res[0]  # steps may return a single result or a list
        return res


class ExitAfter(ExitConditionInterface):
    n: int = 1

    def check(self, graph, graph_model_instance_, actions_taken, iteration):
        return iteration >= self.n


# ---------------------------------------------------------------------------------------------------- reference
def vis(ref):
    return {f"{a}>{b}": [x[0], x[1]] for (a, b), x in ref.e.items() if not x[2]}


BOTH = {"REMOVE_EDGE_UNDIRECTED", "UPDATE_EDGE", "UPDATE_EDGE_TYPE"}


def act(ref, a, hooks=None):
    """apply one action to the reference; True if it applied"""
    name, u, v, val, typ = a
    uv, vu = ref.vis(u, v), ref.vis(v, u)

    def fire(kind):
        if hooks is not None and (u, v) in ref.e and ref.e[(u, v)][1] in ("HU", "HD"):
            hooks.append((kind, ref.e[(u, v)][1], name, u, v, ref.vis(u, v)))

    if name == "DO_NOTHING":
        return False
    if name in BOTH and not (uv and vu):
        return False
    if name in ("REMOVE_EDGE_DIRECTED", "UPDATE_EDGE_DIRECTED", "UPDATE_EDGE_TYPE_DIRECTED") and not uv:
        return False
    if name == "RESTORE_EDGE":
        if uv or vu:
            return False
        return ref.apply(("restore_u", u, v))
    if name == "RESTORE_EDGE_DIRECTED":
        if uv:
            return False
        return ref.apply(("restore_d", u, v))
    kind = {"R": "remove", "U": "type_change" if "TYPE" in name else "update"}[name[0]]
    fire(f"pre_edge_{kind}_hook")
    if name == "REMOVE_EDGE_UNDIRECTED":
        ref.apply(("rm_u", u, v, True))
    elif name == "REMOVE_EDGE_DIRECTED":
        ref.apply(("rm_d", u, v, True))
        if vu:
            ref.e[(v, u)][1] = "D"
    elif name == "UPDATE_EDGE":
        ref.apply(("update_u", u, v, val, None))
    elif name == "UPDATE_EDGE_DIRECTED":
        ref.apply(("update_d", u, v, val, None))
    elif name == "UPDATE_EDGE_TYPE":
        ref.apply(("update_u", u, v, None, typ))
    elif name == "UPDATE_EDGE_TYPE_DIRECTED":
        ref.apply(("update_d", u, v, None, typ))
    fire(f"post_edge_{kind}_hook")
    return True


class Expect:
    def __init__(self):
        self.seen = []
        self.history = []  # nested: {"proposed": [...], "taken": [...], "steps": [...]}
        self.hooks = []
        self.offered = []  # everything presented to the pre hooks, in order


def step_pairs(step, names):
    return [tuple(p) for p in itertools.combinations(names, 2)]


def simulate(pipeline, names, init, transform=None):
    """what has to happen if nothing runs in parallel; transform(action) -> [actions] models the pre hooks"""
    ref = Ref(names)
    for (a, b), x in init.items():
        ref.e[(a, b)] = list(x) + [False]
    ex = Expect()
    transform = transform or (lambda a: [a])

    def run(step, dry):
        proposed, taken, pend = [], [], []
        pairs = step_pairs(step, names)
        if step["mode"] == "chunked":
            groups, i, k = [], 0, 0
            while i < len(pairs):
                n = max(1, step["chunks"][k % len(step["chunks"])])
                groups.append(pairs[i : i + n])
                i += n
                k += 1
        elif step["mode"] in ("sync", "parallel"):
            groups = [[p] for p in pairs]
        else:
            groups = [pairs]
        for grp in groups:
            s = vis(ref)
            pend = []
            for p in grp:
                if step["mode"] != "parallel":
                    ex.seen.append((step["sid"], "|".join(p), s))
                pend += step["script"].get("|".join(sorted(p))) or []
            if dry:
                proposed += pend
                continue
            ex.offered += pend
            out = [b for a in pend for b in transform(a)]
            proposed += out
            taken += [a for a in out if act(ref, a, ex.hooks)]
        return proposed, taken

    for item in pipeline:
        if item["kind"] == "step":
            p, t = run(item, False)
            ex.history.append({"proposed": p, "taken": t, "steps": []})
        elif item["kind"] == "loop":
            it, steps, last = 0, [], None
            while not ((item["iters"] is not None and it >= item["iters"]) or (item["iters"] is None and it > 0 and not last)):
                last = []
                for s in item["steps"]:
                    p, t = run(s, False)
                    steps.append({"proposed": p, "taken": t, "steps": []})
                    last += t
                it += 1
                if it > 200:
                    raise AssertionError("reference loop does not end")
            ex.history.append({"proposed": [], "taken": [], "steps": steps})
        else:
            steps, coll = [], []
            for s in item["steps"]:
                p, _ = run(s, True)
                steps.append({"proposed": p, "taken": None, "steps": []})
                coll += p
            ex.offered += coll
            out = [b for a in coll for b in transform(a)]
            taken = [a for a in out if act(ref, a, ex.hooks)]
            ex.history.append({"proposed": None, "taken": taken, "steps": steps})
        ref.apply(("purge",))
    ex.final = vis(ref)
    ex.ref = ref
    return ex


# ---------------------------------------------------------------------------------------------------- generation
def random_action(rng, names, kinds, tick, types):
    u, v = rng.sample(names, 2)
    k = rng.choice(kinds)
    val = typ = None
    if k.startswith("UPDATE_EDGE_TYPE"):
        typ = rng.choice(types)
    elif k.startswith("UPDATE"):
        tick[0] += 1
        val = float(tick[0]) if tick[0] % 7 else ""  # "": the empty value
    return [k, u, v, val, typ]


ALL = [a.name for a in TestResultAction]
REMOVALS = ["REMOVE_EDGE_UNDIRECTED", "REMOVE_EDGE_DIRECTED", "DO_NOTHING"]


def random_script(rng, names, kinds, tick, types, density):
    s = {}
    for p in itertools.combinations(names, 2):
        r = rng.random()
        if r < density:
            s["|".join(sorted(p))] = [random_action(rng, names, kinds, tick, types) for _ in range(rng.choice([1, 1, 2, 3]))]
        elif r < density + 0.1:
            s["|".join(sorted(p))] = []
    return s


def random_pipeline(rng, names, parallel=False, types=("U", "D", "B")):
    tick, sid = [0], [0]
    density = rng.choice([0.2, 0.5, 0.8])
    pool = rng.choice([ALL, ALL, ["REMOVE_EDGE_UNDIRECTED", "REMOVE_EDGE_DIRECTED", "RESTORE_EDGE", "RESTORE_EDGE_DIRECTED"], ["REMOVE_EDGE_DIRECTED", "UPDATE_EDGE", "UPDATE_EDGE_TYPE", "UPDATE_EDGE_DIRECTED", "UPDATE_EDGE_TYPE_DIRECTED"]])

    def step(kinds=None, modes=("plain", "sync", "chunked")):
        sid[0] += 1
        return {
            "kind": "step",
            "sid": sid[0],
            "mode": "parallel" if parallel and rng.random() < 0.6 else rng.choice(modes),
            "chunks": [rng.randint(1, 4) for _ in range(2)],
            "script": random_script(rng, names, kinds or pool, tick, types, density),
        }

    out = []
    for _ in range(rng.randint(1, 4)):
        r = rng.random()
        if r < 0.5:
            out.append(step())
        elif r < 0.75:
            if rng.random() < 0.5:
                out.append({"kind": "loop", "iters": rng.randint(0, 3), "steps": [step() for _ in range(rng.randint(1, 3))]})
            else:
                out.append({"kind": "loop", "iters": None, "steps": [step(REMOVALS) for _ in range(rng.randint(1, 3))]})
        else:
            out.append({"kind": "together", "steps": [step() for _ in range(rng.randint(1, 3))]})
    return out


def drop(pipeline, action):
    """neutralise an action object (by identity) everywhere"""
    action[0], action[3], action[4] = "DO_NOTHING", None, None


def all_steps(pipeline):
    for i in pipeline:
        for s in i["steps"] if i["kind"] != "step" else [i]:
            yield s


# ---------------------------------------------------------------------------------------------------- driving
def build_steps(pipeline):
    from causy.common_pipeline_steps.exit_conditions import ExitOnNoActions
    from causy.common_pipeline_steps.logic import ApplyActionsTogether, Loop

    SCRIPTS.clear()

    def mk(s):
        SCRIPTS[s["sid"]] = {frozenset(k.split("|")): v for k, v in s["script"].items()}
        kw = {"sid": s["sid"], "display_name": f"step {s['sid']}"}
        if s["mode"] == "sync":
            kw["apply_synchronous"] = True
        if s["mode"] == "chunked":
            kw["generator"] = PairChunks(sizes=s["chunks"])
        if s["mode"] == "parallel":
            kw["parallel"] = True
            kw["chunk_size_parallel_processing"] = s["chunks"][0]
        return Script(**kw)

    out = []
    for i in pipeline:
        if i["kind"] == "step":
            out.append(mk(i))
        elif i["kind"] == "loop":
            out.append(Loop(pipeline_steps=[mk(s) for s in i["steps"]], exit_condition=ExitOnNoActions() if i["iters"] is None else ExitAfter(n=i["iters"])))
        else:
            out.append(ApplyActionsTogether(pipeline_steps=[mk(s) for s in i["steps"]]))
    return out


def random_init(rng, names, hooked=False):
    """initial edges"""
    init = {}
    full = rng.random() < 0.6
    for a, b in itertools.combinations(names, 2):
        r = rng.random()
        t = rng.choice(["U", "HU"]) if hooked else "U"
        d = rng.choice(["D", "HD"]) if hooked else "D"
        if full or r < 0.6:
            init[(a, b)] = [0.0, t]
            init[(b, a)] = [0.0, t]
        elif r < 0.85:
            u, v = rng.choice([(a, b), (b, a)])
            init[(u, v)] = [0.0, d]
    return init


def execute(pipeline, names, init, pre=None, post=None):
    from causy.graph_model import graph_model_factory
    from causy.models import Algorithm

    alg = Algorithm(
        name="scripted",
        pipeline_steps=build_steps(pipeline),
        edge_types=[UndirectedEdge(), DirectedEdge(), BiDirectedEdge()],
        pre_graph_update_hooks=pre,
        post_graph_update_hooks=post,
    )
    m = graph_model_factory(alg)()
    m.create_graph_from_data({n: [0.0, 1.0] for n in names})
    g = m.graph
    done = set()
    for (a, b), (w, t) in init.items():
        if (a, b) in done:
            continue
        if init.get((b, a)) == [w, t]:
            g.add_edge(g.nodes[a], g.nodes[b], {"w": w}, edge_type=TYPES[t]())
            done |= {(a, b), (b, a)}
        else:
            g.add_directed_edge(g.nodes[a], g.nodes[b], {"w": w}, edge_type=TYPES[t]())
            done.add((a, b))
    SEEN.clear()
    HOOKLOG.clear()
    m.execute_pipeline_steps()
    return m
