"""C15: what is stored and served about an executed experiment equals what was computed."""
import copy
import enum
import json
import os
import random
import sys
from collections import Counter
from urllib.parse import quote

from vlib import pool, refs, ws
from vlib.core import digest
from vlib.graphs import random_names

PROPERTY = "C15"
LEVEL = "exploration"
TECHNIQUE = "conservation monitor: the computed model is captured during the run and compared field by field with the stored file, the loaded result and every API response"
RULE = (
    "experiments with bundled, file based and scripted pipelines (all action kinds, edge types and nested values) are executed through the command line; the model is captured while it runs, the graph is read through its access methods and compared "
    "with the version file, the deserialised result and the API; directories also hold older versions with different content, versions whose numbers sort differently as text, and near-miss files; "
    "distinct = distinct (source, graph content) comparisons"
)
ASSUMPTIONS = ["values in edge metadata and action data are finite numbers, strings, booleans, lists, dictionaries, nodes or tensors (tensors are not stored)", "version numbers are plain timestamps without leading zeros"]
FLOORS = {"meanwhile_store": 200, "meanwhile_clear": 200, "executed": 250, "file_compared": 250, "result_compared": 250, "api_compared": 800, "edge": 2000, "directed_edge": 500, "undirected_edge": 500, "bidirected_edge": 50, "action": 5000, "nested_step": 500, "listing": 250, "order_differs_as_text": 60, "unknown_refused": 800, "legacy": 16}
CPU_LIMIT = 120


def cases(tier, seed):
    n = 110 if tier == "quick" else 1500
    return [{"kind": "ws", "seed": seed * 1000151 + i} for i in range(n)] + [{"kind": "legacy", "seed": seed * 1000157 + i} for i in range(24 if tier == "quick" else 200)]


# ------------------------------------------------------------------------------------------- canonical form
def canon(o):
    """nodes and edge types reduced to their identity, tensors to None"""
    import torch

    from causy.interfaces import EdgeTypeInterface, NodeInterface

    if isinstance(o, torch.Tensor):
        return None
    if isinstance(o, NodeInterface):
        return {"node": o.id, "name": o.name}
    if isinstance(o, EdgeTypeInterface):
        return {"type": o.name, "directed": o.IS_DIRECTED}
    if isinstance(o, enum.Enum):
        return o.value
    if isinstance(o, dict):
        if "id" in o and "name" in o:
            return {"node": o["id"], "name": o["name"]}
        if "name" in o and "IS_DIRECTED" in o:
            return {"type": o["name"], "directed": o["IS_DIRECTED"]}
        return {k: canon(v) for k, v in o.items()}
    if isinstance(o, (list, tuple)):
        return [canon(x) for x in o]
    return o


def action(a):
    get = (lambda k: a.get(k)) if isinstance(a, dict) else (lambda k: getattr(a, k))
    return [canon(get("u")), canon(get("v")), canon(get("action")), canon(get("data")), (canon(get("edge_type")) or {}).get("type")]


def step(h):
    get = (lambda k: h.get(k)) if isinstance(h, dict) else (lambda k: getattr(h, k))
    return {"name": get("name"), "duration": get("duration"), "actions": [action(a) for a in get("actions") or []], "proposed": [action(a) for a in get("all_proposed_actions") or []], "steps": [step(s) for s in get("steps") or []]}


def edge(e):
    get = (lambda k: e.get(k)) if isinstance(e, dict) else (lambda k: getattr(e, k))
    return [canon(get("u")), canon(get("v")), canon(get("edge_type")), canon(get("metadata"))]


def from_model(model):
    g = model.graph
    ids = list(g.nodes)
    edges = []
    for u in ids:
        for v in ids:
            if u != v and g.directed_edge_exists(u, v):
                edges.append([canon(g.nodes[u]), canon(g.nodes[v]), canon(g.edge_type(u, v)), canon(g.edge_value(u, v))])
    return {"nodes": {k: canon(n) for k, n in g.nodes.items()}, "edges": edges, "history": [step(h) for h in g.action_history]}


def from_result(r):
    get = (lambda k: r.get(k)) if isinstance(r, dict) else (lambda k: getattr(r, k))
    return {"nodes": {k: canon(n) for k, n in get("nodes").items()}, "edges": [edge(e) for e in get("edges")], "history": [step(h) for h in get("action_history")]}


def tree(o):
    return json.dumps(ws.strict(o), sort_keys=True, default=str)


def compare(want, got, mon, desc):
    """None or what differs"""
    if ws.strict(want["nodes"]) != ws.strict(got["nodes"]):
        return f"nodes {got['nodes']} instead of {want['nodes']}"
    a, b = Counter(map(tree, want["edges"])), Counter(map(tree, got["edges"]))
    if a != b:
        return f"edges missing {list((a - b))[:2]} extra {list((b - a))[:2]}"
    if len(want["history"]) != len(got["history"]):
        return f"{len(got['history'])} steps in the history instead of {len(want['history'])}"
    for x, y in zip(want["history"], got["history"]):
        if tree(x) != tree(y):
            return f"history step {x['name']}: {ws.difference(ws.strict(x), ws.strict(y))} {tree(x)[:600]} vs {tree(y)[:600]}"
    return None


def observe(want, mon):
    for e in want["edges"]:
        mon.event("edge")
        t = e[2]["type"]
        mon.event({"DIRECTED": "directed_edge", "UNDIRECTED": "undirected_edge", "BIDIRECTED": "bidirected_edge"}.get(t, "other_edge"))

    def walk(h):
        mon.event("action", len(h["actions"]) + len(h["proposed"]))
        for s in h["steps"]:
            mon.event("nested_step")
            walk(s)

    for h in want["history"]:
        walk(h)


# ------------------------------------------------------------------------------------------- workloads
def data_rows(rng, names):
    n = rng.choice([15, 40, 120])
    edges = refs.random_dag(len(names), rng.choice([0.3, 0.6]), rng)
    out = []
    order = list(range(len(names)))
    for _ in range(n):
        v = {}
        for i in order:
            v[i] = rng.gauss(0, 1)
        for _ in range(2):
            for a, b in sorted(edges):
                v[b] += 0.7 * v[a]
        out.append({names[i]: v[i] for i in order})
    return out


MODULE = """import random
from checks.c15 import scripted
PIPELINE = scripted({!r}, {!r})
"""


def extra(graph, val):
    ids = list(graph.nodes)
    if val is None:
        return {
            "nested": {"é": {"y": [-0.0, 1e-300, 1e300, 0.1 + 0.2, None]}},
            "who": graph.nodes[ids[0]],
            "group": [graph.nodes[i] for i in ids[:2]],
            "between": {"x": graph.nodes[ids[-1]], "rest": [[graph.nodes[ids[0]]], []]},
            "none": None,
        }
    # edges carry scalars, lists of scalars and dictionaries of scalars
    return {
        "list": [1, 2.5, "x", True, -0.0, 1e300],
        "nested": {"é": val, "b": False, "i": 3, "s": "1"},
        "flag": val > 2,
        "text": "line\nbreak \" quote \\ 😀",
        "number_like": "1.0",
        "int": int(val) * 10**12,
        "whole": float(int(val)),
    }


def scripted(seed, names):
    from causy.edge_types import BiDirectedEdge, DirectedEdge, UndirectedEdge
    from causy.graph_model import graph_model_factory
    from causy.models import Algorithm
    from vlib import engine as E

    rng = random.Random(seed)
    names = sorted(names)
    pipeline = E.random_pipeline(rng, names)
    E.EXTRA[0] = extra
    return graph_model_factory(Algorithm(name="scripted", pipeline_steps=E.build_steps(pipeline), edge_types=[UndirectedEdge(), DirectedEdge(), BiDirectedEdge()], extensions=[], variables=[]))


class Capture:
    """records the models which get data"""

    def __enter__(self):
        from causy.graph_model import AbstractGraphModel

        self.cls, self.models = AbstractGraphModel, []
        self.original = AbstractGraphModel.create_graph_from_data
        original, models = self.original, self.models

        def create_graph_from_data(model, *a, **k):
            models.append(model)
            return original(model, *a, **k)

        AbstractGraphModel.create_graph_from_data = create_graph_from_data
        return self

    def __exit__(self, *a):
        self.cls.create_graph_from_data = self.original


def setup(rng, token):
    names = random_names(rng, rng.randint(3, 5))
    with open("data.json", "w") as f:
        json.dump(data_rows(rng, names), f)
    with open(token + "s.py", "w") as f:
        f.write(MODULE.format(rng.randrange(10**9), names))
    P = "causy.causal_discovery.constraint.algorithms.pc."
    pipelines = {
        "pc": {"type": "name", "reference": "PC"},
        "stable": {"type": "python_module", "reference": P + "PCStable"},
        "classic": {"type": "python_module", "reference": P + "PCClassic"},
        "script": {"type": "python_module", "reference": token + "s.PIPELINE"},
    }
    base = rng.choice(["exp", "a.b", "a b", "é", "a+b", "latest", "1", "q?x", "a#b", "a&b=c"])
    exps = {}
    for e, p in zip([base, base + "_1", rng.choice(["x" + base, base.swapcase() if base.swapcase() != base else "x" + base])], ["script", rng.choice(["pc", "stable", "classic"]), rng.choice(["pc", "script"])]):
        exps[e] = {"pipeline": p, "dataloader": "d", "variables": {} if p == "script" or rng.random() < 0.4 else {"threshold": rng.choice([0.01, 0.05, 0.2])}}
    state = {"name": "w", "author": "x", "pipelines": pipelines, "dataloaders": {"d": {"type": "json", "reference": "data.json", "options": None}}, "experiments": exps}
    ws.write_workspace(copy.deepcopy(state))
    return state


def versions(e, files):
    pre = e + "_"
    out = {}
    for f in files:
        if f.startswith(pre) and f.endswith(".json"):
            m = f[len(pre) : -5]
            if m and set(m) <= set("0123456789"):
                out[int(m)] = f
    return out


def check_content(source, want, got, mon, desc):
    d = compare(want, got, mon, desc)
    if not mon.check(d is None, source, lambda: f"{source} differs from the computed graph: {d} ({desc()})"):
        return False
    mon.evaluate(digest([source, tree(want["edges"])]), True)
    return True


def check_meta(source, state, e, variables, r, mon, desc):
    get = (lambda k: r.get(k)) if isinstance(r, dict) else (lambda k: getattr(r, k))
    ref = state["pipelines"][state["experiments"][e]["pipeline"]]
    alg = ws.plain(get("algorithm") if isinstance(get("algorithm"), dict) else get("algorithm").model_dump())
    ok = mon.check(alg == ref, source, lambda: f"{source}: algorithm {alg} instead of {ref} ({desc()})")
    return ok and mon.check(ws.strict(get("variables")) == ws.strict(variables), source, lambda: f"{source}: variables {get('variables')} instead of {variables} ({desc()})")


def run_case(case, mon):
    sys.dont_write_bytecode = True
    rng = random.Random(case["seed"])
    with pool.patched(random.Random(0), (1, 1, 1)), ws.scratch("c"):
        if case["kind"] == "legacy":
            legacy(case, mon, rng)
        else:
            workspace(case, mon, rng)


def workspace(case, mon, rng):
    from fastapi.testclient import TestClient

    from causy.serialization import deserialize_result, load_algorithm_by_reference
    from causy.ui.server import _create_ui_app, _set_workspace
    from causy.workspaces.cli import _current_workspace

    state = setup(rng, f"m{case['seed'] % 10**9}")
    exps = list(state["experiments"])
    client = TestClient(_create_ui_app(with_static=False), raise_server_exceptions=False)
    known = {e: {} for e in exps}  # experiment -> version -> (content, variables)
    log = []
    desc = lambda: f"{log[-6:]} experiments={state['experiments']} files={sorted(os.listdir())[:20]}"
    defaults = {}
    for p in ("pc", "stable", "classic"):
        defaults[p] = {v.name: v.value for v in load_algorithm_by_reference(state["pipelines"][p]["type"], state["pipelines"][p]["reference"]).variables}
    defaults["script"] = {}
    try:
        for i in range(rng.randint(2, 4)):
            # change a variable, execute
            e = rng.choice(exps)
            x = state["experiments"][e]
            if x["pipeline"] != "script" and rng.random() < 0.5:
                v = rng.choice([0.001, 0.02, 0.3, 0.05])
                ws.command("experiment", "update-variable", "--", e, "threshold", str(v))
                x["variables"]["threshold"] = v
                log.append(["threshold", e, v])
            if rng.random() < 0.3:
                targets, args = exps, ["execute", "--force-reexecution"]
            else:
                targets, args = [e], ["execute", "--experiment-name", e]
            before = set(os.listdir())
            with Capture() as cap:
                r = ws.command(*args)
            log.append(args)
            if not mon.check(r.ok, "failed", lambda: f"execution failed {r!r} {desc()}"):
                return
            if not mon.check(len(cap.models) == len(targets), "executions", lambda: f"{len(cap.models)} models were executed for {targets} {desc()}"):
                return
            new = set(os.listdir()) - before
            pending = [from_model(model) for model in cap.models]
            for t in targets:
                mon.event("executed")
                vs = versions(t, new)
                if not mon.check(len(vs) == 1, "versions", lambda: f"{t}: new versions {vs} {desc()}"):
                    return
                number, f = next(iter(vs.items()))
                variables = {**defaults[state["experiments"][t]["pipeline"]], **state["experiments"][t]["variables"]}
                stored = json.load(open(f))
                # experiments may be executed in any order: find the model this file is about
                match = [q for q in pending if compare(q, from_result(stored), mon, desc) is None]
                want = (match or pending)[0]
                pending.remove(want)
                observe(want, mon)
                known[t][number] = (want, dict(variables))
                mon.event("file_compared")
                if not check_content("file", want, from_result(stored), mon, desc) or not check_meta("file", state, t, variables, stored, mon, desc):
                    return
                loaded = deserialize_result(json.load(open(f)))
                mon.event("result_compared")
                if not check_content("loaded result", want, from_result(loaded), mon, desc) or not check_meta("loaded result", state, t, variables, loaded, mon, desc):
                    return
            # older versions whose numbers sort differently as text, with other content
            if rng.random() < 0.6:
                t = rng.choice(exps)
                if known[t]:
                    src_n, (content, variables) = rng.choice(sorted(known[t].items(), key=lambda x: x[0]))
                    nn = rng.choice([9, 10, 99, 100, 999999999, 1000000000, 2000000000, 9999999999])
                    if nn not in known[t]:
                        doc = json.load(open(f"{t}_{src_n}.json"))
                        doc["edges"] = doc["edges"][1:]
                        content = {**content, "edges": [edge(q) for q in doc["edges"]]}
                        with open(f"{t}_{nn}.json", "w") as h:
                            json.dump(doc, h)
                        known[t][nn] = (content, variables)
                        log.append(["copy", t, nn])
            for near in (f"{e}_notes.json", f"{e}_12.json.bak", f"z{e}_12.json", f"{e}_1a.json", f"{e}_-5.json", f"{e}_12.json.tmp", f"{e}_7xjson"):
                if rng.random() < 0.25:
                    with open(near, "w") as h:
                        h.write("{}")
            # the API
            ws.fresh_process()
            _set_workspace(_current_workspace())
            snap = ws.snapshot()
            if not api(client, state, known, mon, rng, desc):
                return
            if not mon.check(ws.snapshot() == snap, "api-wrote", lambda: f"requests changed files {desc()}"):
                return
        while_served(client, known, mon, rng, desc)
    finally:
        _set_workspace(None)


_ARMED = {}


def _hook(event, args):
    if not _ARMED or event not in ("open", "os.listdir", "os.scandir"):
        return
    if event == "open" and not (isinstance(args[0], str) and _ARMED["file"] in args[0]):
        return
    _ARMED["seen"].append(event)
    if len(_ARMED["seen"]) == _ARMED["at"]:
        act = _ARMED["act"]
        _ARMED["act"] = lambda: None
        act()


def while_served(client, known, mon, rng, desc):
    """another command stores or removes versions while a request is answered"""
    if "hook" not in _HOOKED:
        sys.addaudithook(_hook)
        _HOOKED.add("hook")
    for e in known:
        if not known[e]:
            continue
        top = max(known[e])
        for what in ("store", "clear"):
            for at in (1, 2, 3):
                text = rng.choice(["latest", "latest", str(top)])
                doc = json.load(open(f"{e}_{top}.json"))
                old = {v: open(f"{e}_{v}.json").read() for v in known[e]}
                doc["edges"] = doc["edges"][1:] if doc["edges"] else doc["edges"]
                doc["variables"] = {"stored": "meanwhile"}
                with open("meanwhile.tmp", "w") as h:
                    json.dump(doc, h)

                def act():
                    _ARMED["done"] = True
                    if what == "store":
                        os.rename("meanwhile.tmp", f"{e}_{top + 7}.json")
                    else:
                        for v in known[e]:
                            os.remove(f"{e}_{v}.json")

                _ARMED.update({"file": f"{e}_", "seen": [], "at": at, "act": act, "done": False})
                r = client.get(f"/api/v1/experiments/{quote(e, safe='')}/{text}")
                done, seen = _ARMED["done"], list(_ARMED["seen"])
                _ARMED.clear()
                for f in ("meanwhile.tmp", f"{e}_{top + 7}.json"):
                    if os.path.exists(f):
                        os.remove(f)
                for v, t in old.items():
                    with open(f"{e}_{v}.json", "w") as h:
                        h.write(t)
                if not done:
                    continue
                mon.event("meanwhile_" + what)
                where = lambda: f"{what} of a version after {seen[:at]} while {e}/{text} was answered ({r.status_code} {r.text[:200]}) {desc()}"
                if not mon.check(r.status_code == 200 or 400 <= r.status_code < 500 and what == "clear", "meanwhile", where):
                    return False
                mon.evaluate(digest(["meanwhile", what, seen[:at], text == "latest", r.status_code]), True)
                if r.status_code == 200:
                    x = r.json()
                    new = x["variables"] == {"stored": "meanwhile"}
                    ok = x["version"] == (top + 7 if new else top) and not (new and text != "latest")
                    if not mon.check(ok, "meanwhile", lambda: f"version {x['version']} is served with the content of version {top + 7 if new else top}: {where()}"):
                        return False
    return True


_HOOKED = set()


def api(client, state, known, mon, rng, desc):
    base = "/api/v1/experiments"
    r = client.get(base)
    if not mon.check(r.status_code == 200, "listing", lambda: f"listing answers {r.status_code} {desc()}"):
        return False
    got = {}
    for x in r.json():
        if x["name"] in got:
            mon.violation("listing", f"{x['name']} listed twice {desc()}")
            return False
        got[x["name"]] = x
    mon.event("listing")
    if not mon.check(set(got) == set(known), "listing", lambda: f"listed {sorted(got)} instead of {sorted(known)} {desc()}"):
        return False
    for e, x in got.items():
        want = sorted(known[e], reverse=True)
        if [str(v) for v in want] != sorted(map(str, want), reverse=True):
            mon.event("order_differs_as_text")
        vs = [v["version"] for v in x["versions"]]
        if not mon.check(vs == want, "listing", lambda: f"{e}: versions {vs} instead of {want} {desc()}"):
            return False
        s = state["experiments"][e]
        if not mon.check((x["pipeline"], x["dataloader"]) == (s["pipeline"], s["dataloader"]) and ws.strict(x["variables"]) == ws.strict(s["variables"]), "listing", lambda: f"{e}: {x} instead of {s} {desc()}"):
            return False
    r = client.get("/api/v1/workspace")
    w = r.json() if r.status_code == 200 else None
    if not mon.check(w is not None and w["experiments"] == state["experiments"] and w["pipelines"] == state["pipelines"], "workspace", lambda: f"workspace answer {r.status_code} {w} {desc()}"):
        return False
    every = sorted({v for x in known.values() for v in x})
    for e in known:
        asks = [("latest", max(known[e]) if known[e] else None)] + [(str(v), v) for v in known[e]]
        others = [v for v in every if v not in known[e]][:3] + [5, 123456]
        asks += [(str(v), None) for v in others if v not in known[e]] + [("nope", None), ("-5", None), ("1.5", None), ("1a", None)]
        for text, number in asks:
            r = client.get(f"{base}/{quote(e, safe='')}/{quote(text, safe='')}")
            if number is None:
                mon.event("unknown_refused")
                if not mon.check(400 <= r.status_code < 500, "unknown", lambda: f"{e}/{text} answers {r.status_code} {r.text[:200]} {desc()}"):
                    return False
                continue
            mon.event("api_compared")
            if not mon.check(r.status_code == 200, "api", lambda: f"{e}/{text} answers {r.status_code} {r.text[:300]} {desc()}"):
                return False
            x = r.json()
            want, variables = known[e][number]
            if not mon.check(x["version"] == number, "api", lambda: f"{e}/{text} serves version {x['version']} instead of {number} {desc()}"):
                return False
            if not check_content("api " + ("latest" if text == "latest" else "version"), want, from_result(x), mon, desc) or not check_meta("api", state, e, variables, x, mon, desc):
                return False
            stored = json.load(open(f"{e}_{number}.json"))
            for k in ("created_at", "data_loader_hash", "algorithm_hash", "variables_hash"):
                if not mon.check(x[k] == stored[k], "api", lambda: f"{e}/{text}: {k} {x[k]} instead of {stored[k]} {desc()}"):
                    return False
    for e in ("nope", "EXP", next(iter(known)) + "x", "zz" + next(iter(known))):
        if e in known:
            continue
        for t in ("latest", "12", str(every[0]) if every else "1"):
            r = client.get(f"{base}/{quote(e, safe='')}/{t}")
            mon.event("unknown_refused")
            if not mon.check(400 <= r.status_code < 500, "unknown", lambda: f"unknown {e}/{t} answers {r.status_code} {r.text[:200]} {desc()}"):
                return False
    return True


def legacy(case, mon, rng):
    """causy execute --output-file and the single result view"""
    from fastapi.testclient import TestClient
    from typer.testing import CliRunner

    from causy.cli import app
    from causy.serialization import deserialize_result, load_json
    from causy.ui.server import _create_ui_app, _set_model

    names = random_names(rng, rng.randint(3, 5))
    with open("data.json", "w") as f:
        json.dump(data_rows(rng, names), f)
    args = ["execute", "data.json", "--output-file", "out.json"]
    if rng.random() < 0.5:
        args += ["--algorithm", "PC"]
        ref = {"type": "name", "reference": "PC"}
    else:
        if rng.random() < 0.5:
            r = CliRunner().invoke(app, ["eject", "PC", "p.json"])
            if not mon.check(r.exit_code == 0, "legacy", lambda: f"eject failed {r.exception!r}"):
                return
        else:
            from causy.causal_discovery.constraint.algorithms.pc import PCClassic

            with open("p.json", "w") as f:
                json.dump(PCClassic._original_algorithm.model_dump(), f)
        args += ["--pipeline", "p.json"]
        ref = {"type": "file", "reference": "p.json"}
    with Capture() as cap:
        r = CliRunner().invoke(app, args)
    desc = lambda: f"{args} exit={r.exit_code} {r.exception!r} {r.output[-300:]}"
    if not mon.check(r.exit_code == 0 and len(cap.models) == 1, "legacy", lambda: f"execution failed {desc()}"):
        return
    want = from_model(cap.models[0])
    observe(want, mon)
    mon.event("legacy")
    if not check_content("legacy file", want, from_result(json.load(open("out.json"))), mon, desc):
        return
    if not check_content("legacy result", want, from_result(deserialize_result(load_json("out.json"))), mon, desc):
        return
    client = TestClient(_create_ui_app(with_static=False), raise_server_exceptions=False)
    try:
        _set_model(None)
        a = client.get("/api/v1/model")
        mon.check(a.status_code == 404, "legacy", lambda: f"/model without a model answers {a.status_code}")
        _set_model(load_json("out.json"))
        a = client.get("/api/v1/model")
        if not mon.check(a.status_code == 200, "legacy", lambda: f"/model answers {a.status_code} {a.text[:300]}"):
            return
        mon.event("api_compared")
        check_content("legacy api", want, from_result(a.json()), mon, desc)
        mon.check(a.json()["algorithm"] == ref, "legacy", lambda: f"algorithm {a.json()['algorithm']} instead of {ref}")
    finally:
        _set_model(None)
