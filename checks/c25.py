"""C25: the commands outside of workspaces run, write and serve exactly what the library computes."""
import copy
import json
import os
import random
import sys

from checks.c15 import Capture, compare, data_rows, from_model, from_result, observe, tree
from vlib import algs, pool, ws
from vlib.core import digest
from vlib.graphs import random_names

PROPERTY = "C25"
LEVEL = "exploration"
TECHNIQUE = "differential runtime oracle: command line runs (execute, eject, ui) compared with library runs on the same data, with the captured model, and with what the started server answers; file system snapshots around refused commands"
RULE = (
    "random tables (names, sizes, row and column shaped files) are executed by `execute` with named, ejected and randomly assembled saved algorithms; the printed connections, the written file and the answers of the server started by `ui` "
    "are compared with the model captured in the command and with an independent run of the library; ejected definitions are reloaded and compared with the named algorithm under several values of its variables; "
    "unknown algorithms, missing or malformed files and non-numeric tables have to be refused with all files unchanged; distinct = distinct (algorithm, resulting graph)"
)
ASSUMPTIONS = ["single-process algorithms (or a stand-in for the worker pool)", "the server is not started for real: its application is asked directly"]
FLOORS = {"executed": 150, "printed": 400, "file_compared": 150, "library_compared": 120, "served": 60, "ejected": 40, "ejected_variable": 60, "refused": 200, "saved_algorithm": 40, "workspace_served": 30, "edge": 500, "directed_edge": 60, "undirected_edge": 200, "no_values": 20}
CPU_LIMIT = 120
NAMES = ["PC", "PC", "PC", "ParallelPC"]


def cases(tier, seed):
    n = 3 if tier == "quick" else 15
    out = [{"kind": "run", "seed": seed * 1000303 + i} for i in range(320 * n)]
    out += [{"kind": "eject", "seed": seed * 1000313 + i} for i in range(48 * n)]
    out += [{"kind": "refuse", "seed": seed * 1000331 + i} for i in range(48 * n)]
    out += [{"kind": "ui", "seed": seed * 1000333 + i} for i in range(36 * n)]
    return out


def run_case(case, mon):
    sys.dont_write_bytecode = True
    rng = random.Random(case["seed"])
    with pool.patched(random.Random(case["seed"]), (1, 1, 1)), ws.scratch("c"):
        {"run": run, "eject": eject, "refuse": refuse, "ui": ui}[case["kind"]](rng, mon)


def cli(*args):
    from typer.testing import CliRunner

    from causy.cli import app

    return ws.Run(CliRunner().invoke(app, list(args), catch_exceptions=True))


class Served:
    """stands in for the running server: keeps the application which would be served"""

    def __enter__(self):
        import webbrowser

        import click
        import typer
        import uvicorn

        from starlette.staticfiles import StaticFiles

        self.apps = []
        self.saved = [(StaticFiles, "__init__", StaticFiles.__init__), (uvicorn.Server, "run", uvicorn.Server.run), (typer, "launch", typer.launch), (click, "launch", click.launch), (webbrowser, "open", webbrowser.open), (uvicorn, "run", uvicorn.run)]
        apps, init = self.apps, StaticFiles.__init__
        # the built web pages are not part of the source tree
        StaticFiles.__init__ = lambda files, *a, **k: init(files, *a, **{**k, "check_dir": False})
        uvicorn.Server.run = lambda server, *a, **k: apps.append(server.config.app)
        uvicorn.run = lambda app, *a, **k: apps.append(app)
        typer.launch = click.launch = webbrowser.open = lambda *a, **k: 0
        return self

    def __exit__(self, *a):
        from causy.ui.server import _set_model, _set_workspace

        for o, k, v in self.saved:
            setattr(o, k, v)
        _set_model(None)
        _set_workspace(None)


def write_data(rng, names, path="data.json"):
    rows = data_rows(rng, names)
    with open(path, "w") as f:
        json.dump(rows, f, ensure_ascii=rng.random() < 0.5, indent=rng.choice([None, 1]))
    return rows


def algorithm_file(rng, mon):
    """a saved algorithm: (path, definition)"""
    from causy.serialization import load_algorithm_by_reference

    path = rng.choice(["p.json", "a b.json", "é.json", "pipeline"])
    r = rng.random()
    if r < 0.35:
        alg = load_algorithm_by_reference("python_module", "causy.causal_discovery.constraint.algorithms.pc." + rng.choice(["PC", "PCClassic", "PCStable"]))
        for v in alg.variables:
            if v.name == "threshold":
                v.value = rng.choice([0.001, 0.02, 0.3])
    else:
        alg = algs.build_algorithm(algs.Gen(rng, runnable=True).algorithm())
        mon.event("saved_algorithm")
        if rng.random() < 0.2:
            # connections which never get a value
            alg.pipeline_steps = []
            mon.event("no_values")
    with open(path, "w") as f:
        json.dump(alg.model_dump(), f)
    return path, alg


def stripped(content):
    """without the measured times"""

    def walk(h):
        return {**h, "duration": None, "steps": [walk(s) for s in h["steps"]]}

    return {**content, "history": [walk(h) for h in content["history"]]}


def library(alg, rows):
    from causy.graph_model import graph_model_factory
    from vlib.drive import run_model

    return stripped(from_model(run_model(graph_model_factory(copy.deepcopy(alg))(), copy.deepcopy(rows))))


def run(rng, mon):
    from causy.serialization import deserialize_result, load_algorithm_by_reference, load_json

    names = random_names(rng, rng.randint(2, 5))
    rows = write_data(rng, names)
    random.seed(11)
    parallel = False
    if rng.random() < 0.5:
        path, alg = algorithm_file(rng, mon)
        args, ref = ["--pipeline", path], {"type": "file", "reference": path}
    else:
        name = rng.choice(NAMES)
        parallel = name == "ParallelPC"
        alg = load_algorithm_by_reference("name", name)
        args, ref = ["--algorithm", name], {"type": "name", "reference": name}
    out = rng.choice(["out.json", "r é.json", "result"])
    if rng.random() < 0.3:
        with open(out, "w") as f:
            f.write("older content " * 10000)
    with_file = rng.random() < 0.9
    args = ["execute", "data.json", *args, *(["--output-file", out] if with_file else [])]
    before = ws.snapshot()
    random.seed(5)
    try:
        want = library(alg, rows)
    except Exception as e:  # noqa  the random combination does not run
        want = e
    random.seed(5)
    with Capture() as cap:
        r = cli(*args)
    after = ws.snapshot()
    desc = lambda: f"{args} exit={r.exit_code} {r.exception!r} names={names} rows={len(rows)} output={r.output[-200:]!r}"
    if isinstance(want, Exception):
        mon.event("fails_alike")
        if mon.check(not r.ok, "reported-success", lambda: f"the library fails with {want!r} but the command succeeds; {desc()}"):
            mon.check(after == before, "files-changed", lambda: f"a failed run changed files {[k for k in after if after.get(k) != before.get(k)]}; {desc()}")
        return
    if not mon.check(r.ok, "failed", lambda: f"execution failed; {desc()}"):
        return
    mon.event("executed")
    if not mon.check(len(cap.models) == 1, "executions", lambda: f"{len(cap.models)} models executed; {desc()}"):
        return
    got = from_model(cap.models[0])
    observe(got, mon)
    if not parallel:
        mon.event("library_compared")
        d = compare(want, stripped(got), mon, desc)
        if not mon.check(d is None, "library", lambda: f"the command computed something else than the library: {d}; {desc()}"):
            return
    # what is printed
    lines = r.output.splitlines()
    for e in got["edges"]:
        head = f"{e[0]['name']} -> {e[1]['name']}:"
        if "\n" in head:
            continue
        mon.event("printed")
        if not mon.check(sum(l.startswith(head) for l in lines) == 1, "printed", lambda: f"{head!r} is printed {sum(l.startswith(head) for l in lines)} times; {desc()}"):
            return
    arrows = sum(1 for l in lines if any(l.startswith(f"{a} -> {b}:") for a in names for b in names if a != b))
    if not mon.check(arrows == len(got["edges"]), "printed", lambda: f"{arrows} connections printed, the graph has {len(got['edges'])}; {desc()}"):
        return
    changed = sorted(k for k in set(before) | set(after) if before.get(k) != after.get(k))
    if not mon.check(changed == ([out] if with_file else []), "files-changed", lambda: f"files changed: {changed}; {desc()}"):
        return
    if with_file:
        try:
            stored = json.loads(after[out])
        except ValueError as e:
            mon.violation("file", f"the result file is no JSON: {e!r}; {desc()}")
            return
        mon.event("file_compared")
        for source, res in (("file", stored), ("loaded result", deserialize_result(load_json(out)))):
            d = compare(got, from_result(res), mon, desc)
            if not mon.check(d is None, source, lambda: f"{source} differs from the computed graph: {d}; {desc()}"):
                return
        if not mon.check(stored["algorithm"] == ref, "algorithm", lambda: f"algorithm {stored['algorithm']} instead of {ref}; {desc()}"):
            return
        if rng.random() < 0.6 and not served(out, got, ref, mon, desc):
            return
    mon.evaluate(digest([ref["type"], tree(got["edges"])]), bool(got["edges"]), {"args": args, "edges": len(got["edges"])})


def served(path, want, ref, mon, desc):
    from fastapi.testclient import TestClient

    with Served() as s:
        u = cli("ui", "--result-file", path)
        if not mon.check(u.ok and len(s.apps) == 1, "ui", lambda: f"ui does not start: {u!r}; {desc()}"):
            return False
        client = TestClient(s.apps[0], raise_server_exceptions=False)
        a = client.get("/api/v1/model")
        if not mon.check(a.status_code == 200, "ui", lambda: f"/model answers {a.status_code} {a.text[:200]}; {desc()}"):
            return False
        mon.event("served")
        d = compare(want, from_result(a.json()), mon, desc)
        if not mon.check(d is None, "ui", lambda: f"the served model differs from the computed graph: {d}; {desc()}"):
            return False
        if not mon.check(a.json()["algorithm"] == ref, "ui", lambda: f"served algorithm {a.json()['algorithm']} instead of {ref}; {desc()}"):
            return False
        st = client.get("/api/v1/status").json()
        ok = st.get("model_loaded") is True and st.get("workspace_loaded") is False and st.get("mode") == "model"
        if not mon.check(ok, "ui", lambda: f"status {st}; {desc()}"):
            return False
        codes = [client.get("/api/v1/" + p).status_code for p in ("workspace", "experiments", "experiments/x/latest", "experiments/x/3")]
        return mon.check(codes == [404] * 4, "ui", lambda: f"without a workspace its routes answer {codes}; {desc()}")


def eject(rng, mon):
    from causy.graph_model import graph_model_factory
    from causy.serialization import load_algorithm_by_reference, load_algorithm_from_specification, load_json

    name = rng.choice(NAMES)
    path = rng.choice(["p.json", "é ö.json", "x"])
    if rng.random() < 0.4:
        with open(path, "w") as f:
            f.write("{" * 100000)
    want = load_algorithm_by_reference("name", name)
    r = cli("eject", name, path)
    desc = lambda: f"eject {name} {path} -> {r!r}"
    if not mon.check(r.ok, "eject", lambda: f"eject failed; {desc()}"):
        return
    got = load_algorithm_from_specification(load_json(path))
    mon.event("ejected")
    if not mon.check(json.dumps(ws.plain(got.model_dump()), sort_keys=True) == json.dumps(ws.plain(want.model_dump()), sort_keys=True), "eject", lambda: f"the ejected definition is a different one; {desc()}"):
        return
    if not mon.check(got.hash() == want.hash(), "eject", lambda: f"the ejected definition has another fingerprint; {desc()}"):
        return
    again = load_algorithm_by_reference("name", name)
    if not mon.check(again.hash() == want.hash(), "eject", lambda: f"ejecting changed the bundled definition; {desc()}"):
        return
    # its variables have the same effect
    rows = data_rows(rng, random_names(rng, rng.randint(3, 5)))
    for v in [None, *rng.sample([0.0001, 0.01, 0.2, 0.6, 0.95], 2)]:
        values = {} if v is None else {"threshold": v}
        res = []
        for alg in (want, got):
            model = graph_model_factory(copy.deepcopy(alg), values)()
            res.append([s.get("threshold") for s in steps(model.algorithm.model_dump()["pipeline_steps"])])
        mon.event("ejected_variable")
        if not mon.check(res[0] == res[1], "eject", lambda: f"threshold {v} arrives at the steps as {res[1]} instead of {res[0]}; {desc()}"):
            return
        if name == "PC":
            outs = []
            for alg in (want, got):
                from vlib.drive import run_model

                outs.append(stripped(from_model(run_model(graph_model_factory(copy.deepcopy(alg), values)(), copy.deepcopy(rows)))))
            if not mon.check(tree(outs[0]) == tree(outs[1]), "eject", lambda: f"with threshold {v} the ejected algorithm gives another result; {desc()}"):
                return
            mon.evaluate(digest([name, v, tree(outs[0]["edges"])]), bool(outs[0]["edges"]))


def steps(dump):
    for s in dump:
        yield s
        yield from steps(s.get("pipeline_steps") or [])


def refuse(rng, mon):
    names = random_names(rng, 3)
    rows = write_data(rng, names)
    with open("out.json", "w") as f:
        f.write("keep me")
    path, alg = algorithm_file(rng, mon)
    bad = copy.deepcopy(rows)
    bad[rng.randrange(len(bad))][rng.choice(names)] = rng.choice(["x", None, [1], {}])
    with open("words.json", "w") as f:
        json.dump(bad, f)
    with open("broken.json", "w") as f:
        f.write(json.dumps(rows)[: rng.randint(1, 60)])
    spec = alg.model_dump()
    if spec["pipeline_steps"]:
        spec["pipeline_steps"][0] = {**spec["pipeline_steps"][0], "name": "causy.common_pipeline_steps.calculation.Unknown"}
    with open("unknown_step.json", "w") as f:
        json.dump(spec, f)
    O = ["--output-file", "out.json"]
    for args in (
        ["eject", "Unknown", "out.json"],
        ["eject", "pc", "out.json"],
        ["eject", "", "out.json"],
        ["execute", "data.json", "--algorithm", "Unknown", *O],
        ["execute", "data.json", "--algorithm", "pc", *O],
        ["execute", "data.json", *O],
        ["execute", "missing.json", "--algorithm", "PC", *O],
        ["execute", "words.json", "--algorithm", "PC", *O],
        ["execute", "broken.json", "--algorithm", "PC", *O],
        ["execute", "data.json", "--pipeline", "missing.json", *O],
        ["execute", "data.json", "--pipeline", "broken.json", *O],
        ["execute", "data.json", "--pipeline", "unknown_step.json", *O] if spec["pipeline_steps"] else ["eject", "PCX", "out.json"],
        ["ui", "--result-file", "missing.json"],
        ["ui", "--result-file", "broken.json"],
    ):
        before = ws.snapshot()
        with Served() as s:
            r = cli(*args)
            apps = list(s.apps)
        after = ws.snapshot()
        mon.event("refused")
        if not mon.check(not r.ok and not apps, "accepted", lambda: f"{args} succeeded: {r!r}"):
            return
        if not mon.check(after == before, "files-changed", lambda: f"{args} was refused but changed {[k for k in set(after) | set(before) if after.get(k) != before.get(k)]}"):
            return
        mon.evaluate(digest([args, names]))


def ui(rng, mon):
    """ui in a workspace serves this workspace"""
    from fastapi.testclient import TestClient

    with Served() as s:
        r = cli("ui")
        mon.event("refused")
        if not mon.check(not r.ok and not s.apps, "ui", lambda: f"ui outside of a workspace starts: {r!r}"):
            return
    state = {
        "name": rng.choice(["w", "é", "1.0", "yes"]),
        "author": "x",
        "pipelines": {"p": {"type": "name", "reference": "PC"}},
        "dataloaders": {"d": {"type": "json", "reference": "data.json", "options": None}},
        "experiments": {e: {"pipeline": "p", "dataloader": "d", "variables": rng.choice([{}, {"threshold": 0.1}])} for e in rng.sample(["e", "a b", "latest", "é"], rng.randint(0, 3))},
    }
    ws.write_workspace(copy.deepcopy(state))
    with Served() as s:
        r = cli("ui")
        if not mon.check(r.ok and len(s.apps) == 1, "ui", lambda: f"ui does not start in a workspace: {r!r}"):
            return
        client = TestClient(s.apps[0], raise_server_exceptions=False)
        a = client.get("/api/v1/workspace")
        mon.event("workspace_served")
        got = ws.plain(a.json()) if a.status_code == 200 else a.text[:200]
        if not mon.check(a.status_code == 200 and all(got.get(k) == ws.read_workspace()[k] for k in state), "ui", lambda: f"/workspace answers {a.status_code} {got} instead of {state}"):
            return
        b = client.get("/api/v1/experiments")
        listed = sorted(x["name"] for x in b.json()) if b.status_code == 200 else b.text[:200]
        if not mon.check(listed == sorted(state["experiments"]), "ui", lambda: f"/experiments lists {listed} instead of {sorted(state['experiments'])}"):
            return
        st = client.get("/api/v1/status").json()
        ok = st.get("model_loaded") is False and st.get("workspace_loaded") is True and st.get("mode") == "workspace" and client.get("/api/v1/model").status_code == 404
        mon.check(ok, "ui", lambda: f"status {st}")
    mon.evaluate(digest([state]))
