"""C18: which experiments are executed again, over histories of executions and edits."""
import contextlib
import copy
import json
import os
import random
import re
import shutil
import sys

from vlib import pool, ws
from vlib.core import digest

PROPERTY = "C18"
LEVEL = "exploration"
TECHNIQUE = "history monitor: the set of new version files after every command compared with a reference model of what changed since the latest stored result"
RULE = (
    "random histories of executions (all, forced, single) and edits (variables through the command line and by hand, defaults, step settings, formatting, data, options, copies, references, clearing, deleting the latest version, results without fingerprints, invalid values, irrelevant files, edits of the data while an experiment is running) "
    "run through the real command line; after every execution exactly the expected experiments have exactly one new version carrying the current variable values and every older file is unchanged; "
    "distinct = distinct (what changed, executed or skipped) situations"
)
ASSUMPTIONS = [
    "commands run in processes of their own in real life: modules imported from the workspace are forgotten between commands",
    "a dynamic data loader reports its content honestly in hash()",
    "reformatting a data file is not exercised (it may or may not count as a change of the data), reformatting a pipeline file is",
]
FLOORS = {"execution": 500, "skipped": 800, "executed": 800, "forced": 100, "single": 80, "reverted": 3, "same_second": 100, "irrelevant_edit_skipped": 100, "variables_stored": 800, "invalid_value": 80, "edit:old_format": 40, "edit:data": 50, "edit:definition": 40, "edit:options": 30, "edit:variable": 60, "edit:default": 20, "edited_while_running": 60}
CPU_LIMIT = 240


def cases(tier, seed):
    n = 280 if tier == "quick" else 1600
    return [{"seed": seed * 1000133 + i} for i in range(n)]


VARS = [
    ("threshold", "float", [0.01, 0.05, 0.1, 0.2, 1e-5]),
    ("n", "integer", [1, 2, 3, 100]),
    ("flag", "bool", [True, False]),
    ("text", "string", ["a", "1", "1.0", "true", "", "x y"]),
]

PY = """from causy.graph_model import graph_model_factory
from causy.serialization import load_algorithm_from_specification
import json
PIPELINE = graph_model_factory(load_algorithm_from_specification(json.loads({!r})))
"""

LOADER = """from causy.data_loader import AbstractDataLoader
import hashlib, json
ROWS = json.loads({!r})

class DataLoader(AbstractDataLoader):
    def __init__(self, scale=1, label=None):
        self.scale = scale

    def load(self):
        for r in ROWS:
            yield {{k: v * self.scale for k, v in r.items()}}

    def hash(self):
        return hashlib.sha256(json.dumps(ROWS).encode()).hexdigest()
"""


class World:
    def __init__(self, case, rng):
        self.rng = rng
        self.token = f"k{case['seed'] % 10**9}"
        self.n = 0
        self.pipelines = {}  # key -> {"type", "file", "spec"}
        self.loaders = {}  # key -> {"type", "file", "rows", "options"}
        self.experiments = {}  # key -> {"pipeline", "dataloader", "variables"}
        self.latest = {}  # experiment -> stack of (version file, fingerprint)

    def name(self, prefix):
        self.n += 1
        return f"{prefix}{self.token}x{self.n}"


def base_spec(rng, name):
    """a small pipeline definition in plain data"""
    P = "causy.causal_discovery.constraint.independence_tests.common."
    steps = ["corr"]
    if rng.random() < 0.7:
        steps.append("partial")
    if rng.random() < 0.4:
        steps.append("matrix")
    if rng.random() < 0.3:
        steps.append("collider")
    spec = {
        "name": name,
        "steps": [{"kind": s, "threshold": "ref" if i == 0 or rng.random() < 0.4 else rng.choice([0.01, 0.05, 0.3]), "chunk": rng.choice([1, 10, 1000])} for i, s in enumerate(steps)],
        "variables": [[n, t, rng.choice(vals)] for n, t, vals in VARS[: rng.randint(1, 4)]],
    }
    return spec


def build(spec):
    from causy.causal_discovery.constraint.independence_tests.common import CorrelationCoefficientTest, ExtendedPartialCorrelationTestMatrix, PartialCorrelationTest
    from causy.causal_discovery.constraint.orientation_rules.pc import ColliderTest
    from causy.common_pipeline_steps.calculation import CalculatePearsonCorrelations
    from causy.edge_types import DirectedEdge, UndirectedEdge
    from causy.models import Algorithm
    from causy.variables import VariableReference, deserialize_variable

    cls = {"corr": CorrelationCoefficientTest, "partial": PartialCorrelationTest, "matrix": ExtendedPartialCorrelationTestMatrix, "collider": ColliderTest}
    steps = [CalculatePearsonCorrelations()]
    for s in spec["steps"]:
        kw = {"chunk_size_parallel_processing": s["chunk"]}
        if s["kind"] != "collider":
            kw["threshold"] = VariableReference(name="threshold") if s["threshold"] == "ref" else s["threshold"]
        steps.append(cls[s["kind"]](**kw))
    return Algorithm(
        name=spec["name"], pipeline_steps=steps, edge_types=[DirectedEdge(), UndirectedEdge()], extensions=[],
        variables=[deserialize_variable({"name": n, "type": t, "value": v}) for n, t, v in spec["variables"]],
    )


def write_pipeline(w, p):
    from pydantic_yaml import to_yaml_str

    if p["type"] == "name":
        return
    a = build(p["spec"])
    if p["type"] == "python_module":
        text = PY.format(json.dumps(a.model_dump()))
    elif p["file"].endswith(".json") and p.get("style", 0) != 2:
        text = json.dumps(a.model_dump(), indent=[None, 2, None, 4][p.get("style", 0)])
    else:
        text = ("# a comment\n" if p.get("style", 0) else "") + to_yaml_str(a) + ("\n\n" if p.get("style", 0) == 3 else "")
    with open(p["file"], "w") as f:
        f.write(text)


def write_data(d):
    with open(d["file"], "w") as f:
        if d["type"] == "json":
            json.dump(d["rows"], f)
        elif d["type"] == "jsonl":
            f.write("\n".join(json.dumps(r) for r in d["rows"]))
        else:
            f.write(LOADER.format(json.dumps(d["rows"])))


def write_workspace(w):
    def ref(p):
        if p["type"] == "name":
            return {"type": "name", "reference": "PC"}
        if p["type"] == "file":
            return {"type": "file", "reference": p["file"]}
        return {"type": "python_module", "reference": p["file"][:-3] + ".PIPELINE"}

    ws.write_workspace(
        {
            "name": "w", "author": None,
            "pipelines": {k: ref(p) for k, p in w.pipelines.items()},
            "dataloaders": {k: {"type": d["type"], "reference": d["file"] if d["type"] != "dynamic" else d["file"][:-3] + ".DataLoader", "options": copy.deepcopy(d["options"])} for k, d in w.loaders.items()},
            "experiments": copy.deepcopy(w.experiments),
        }
    )


def variables_of(p):
    if p["type"] == "name":
        return {"threshold": PC_DEFAULT}
    return {n: v for n, t, v in p["spec"]["variables"]}


PC_DEFAULT = None


def effective(w, e):
    x = w.experiments[e]
    return {**variables_of(w.pipelines[x["pipeline"]]), **x["variables"]}


def fingerprint(w, e):
    x = w.experiments[e]
    p, d = w.pipelines[x["pipeline"]], w.loaders[x["dataloader"]]
    # collider tests have no threshold
    spec = None if p["type"] == "name" else {**p["spec"], "steps": [{k: v for k, v in q.items() if q["kind"] != "collider" or k != "threshold"} for q in p["spec"]["steps"]]}
    return json.dumps(
        {"variables": ws.strict(effective(w, e)), "definition": spec or "PC", "rows": d["rows"], "kind": d["type"], "options": ws.strict(d["options"]) if d["options"] is not None else None},
        sort_keys=True,
    )


def rows(rng):
    n = rng.choice([8, 12, 20])
    cols = ["a", "b", "c", "d"][: rng.randint(3, 4)]
    out = []
    for _ in range(n):
        base = rng.gauss(0, 1)
        out.append({c: round(base * rng.choice([0, 0.7, 1]) + rng.gauss(0, 1), 3) for c in cols})
    return out


def setup(w):
    rng = w.rng
    kinds = ["file", "file", "name", "python_module"]
    rng.shuffle(kinds)
    for k in kinds[: rng.randint(2, 4)]:
        key = w.name("p")
        p = {"type": k, "file": key + {"file": rng.choice([".yml", ".json", ".yaml"]), "python_module": ".py", "name": ""}[k], "style": 0}
        if k != "name":
            p["spec"] = base_spec(rng, key)
        w.pipelines[key] = p
        write_pipeline(w, p)
    for k in rng.sample(["json", "jsonl", "dynamic"], rng.randint(2, 3)):
        key = w.name("d")
        d = {"type": k, "file": key + {"json": ".json", "jsonl": ".jsonl", "dynamic": ".py"}[k], "rows": rows(rng), "options": rng.choice([None, {"scale": 1}, {"scale": 2, "label": "x"}])}
        w.loaders[key] = d
        write_data(d)
    base = rng.choice(["exp", "a.b", "a"])
    for e in rng.sample([base, base + "_1", base + "_1_2", "x" + base], rng.randint(2, 4)):
        add_experiment(w, e)
    write_workspace(w)


def add_experiment(w, e):
    rng = w.rng
    p = rng.choice(list(w.pipelines))
    vs = {n: v for n, v in variables_of(w.pipelines[p]).items() if rng.random() < 0.5}
    for n in vs:
        if rng.random() < 0.5:
            vs[n] = rng.choice(dict((a, c) for a, b, c in VARS)[n])
    w.experiments[e] = {"pipeline": p, "dataloader": rng.choice(list(w.loaders)), "variables": vs}
    w.latest[e] = []


def edit(w, mon):
    """one change; returns its description"""
    rng = w.rng
    e = rng.choice(list(w.experiments))
    x = w.experiments[e]
    p, d = w.pipelines[x["pipeline"]], w.loaders[x["dataloader"]]
    kind = rng.choice(["variable", "variable", "default_value", "by_hand", "default", "definition", "definition", "format", "data", "data", "touch", "options", "repoint", "copy", "clear", "delete_latest", "irrelevant", "undo_data", "key_order", "old_format"])
    if kind in ("variable", "default_value"):
        vs = variables_of(p)
        n = rng.choice(list(vs))
        v = vs[n] if kind == "default_value" else rng.choice(dict((a, c) for a, b, c in VARS)[n])
        r = ws.command("experiment", "update-variable", "--", e, n, str(v))
        if not r.ok:
            mon.violation("update-variable", f"{e} {n}={v!r}: {r!r}")
            return None
        x["variables"][n] = v
        mon.event("edit:variable")
        return f"variable {e} {n}={v!r}"
    if kind == "by_hand":
        if x["variables"] and rng.random() < 0.6:
            n = rng.choice(list(x["variables"]))
            del x["variables"][n]
        write_workspace(w)
        return f"dropped a variable of {e}"
    if kind == "default":
        if p["type"] == "name":
            return "nothing"
        v = rng.choice(p["spec"]["variables"])
        v[2] = rng.choice(dict((a, c) for a, b, c in VARS)[v[0]])
        write_pipeline(w, p)
        mon.event("edit:default")
        return f"default of {v[0]} in {x['pipeline']} is {v[2]!r}"
    if kind == "definition":
        if p["type"] == "name":
            return "nothing"
        s = p["spec"]
        r = rng.random()
        if r < 0.35:
            lit = [q for q in s["steps"] if q["threshold"] != "ref" and q["kind"] != "collider"]
            if lit:
                rng.choice(lit)["threshold"] = rng.choice([0.01, 0.05, 0.3, 0.02])
        elif r < 0.55:
            rng.choice(s["steps"])["chunk"] = rng.choice([1, 10, 1000, 7])
        elif r < 0.7:
            s["steps"].append({"kind": rng.choice(["partial", "matrix", "collider"]), "threshold": rng.choice([0.05, "ref"]), "chunk": 10})
        elif r < 0.8 and len(s["steps"]) > 1:
            s["steps"].pop()
        elif r < 0.9:
            s["name"] = w.name("n")
        else:
            s["steps"] = [s["steps"][0]] + s["steps"][1:][::-1]
        write_pipeline(w, p)
        mon.event("edit:definition")
        return f"definition of {x['pipeline']} edited"
    if kind == "format":
        p["style"] = rng.randint(0, 3)
        write_pipeline(w, p)
        return f"format of {x['pipeline']}"
    if kind == "data":
        d.setdefault("past", []).append(copy.deepcopy(d["rows"]))
        r = rng.random()
        if r < 0.6:
            i = rng.randrange(len(d["rows"]))
            c = rng.choice(sorted(d["rows"][0]))
            d["rows"][i][c] = round(d["rows"][i][c] + rng.choice([0.001, -1, 2]), 3)
        elif r < 0.8:
            d["rows"].append(dict(rng.choice(d["rows"])))
        else:
            d["rows"] = rows(rng)
        write_data(d)
        mon.event("edit:data")
        return f"data {x['dataloader']} edited"
    if kind == "undo_data":
        if d.get("past"):
            d["rows"] = d["past"].pop()
            write_data(d)
            mon.event("reverted")
        return f"data {x['dataloader']} reverted"
    if kind == "touch":
        write_data(d)
        os.utime(d["file"], (1, 1))
        mon.event("edit:touch")
        return "data rewritten with the same content"
    if kind == "options":
        d["options"] = rng.choice([{"scale": rng.choice([1, 2, 3])}, {"scale": 1, "label": rng.choice(["x", "y"])}])
        write_workspace(w)
        mon.event("edit:options")
        return f"options of {x['dataloader']} {d['options']}"
    if kind == "key_order":
        if d["options"] and len(d["options"]) > 1:
            d["options"] = dict(reversed(list(d["options"].items())))
            write_workspace(w)
        return "order of the options"
    if kind == "repoint":
        x["dataloader"] = rng.choice(list(w.loaders))
        write_workspace(w)
        return f"{e} uses {x['dataloader']}"
    if kind == "copy":
        key = w.name("d")
        f = key + os.path.splitext(d["file"])[1]
        shutil.copy(d["file"], f)
        w.loaders[key] = {"type": d["type"], "file": f, "rows": copy.deepcopy(d["rows"]), "options": copy.deepcopy(d["options"])}
        x["dataloader"] = key
        write_workspace(w)
        return f"{e} uses a copy of its data"
    if kind == "clear":
        if rng.random() < 0.5:
            r = ws.command("experiment", "clear", "--", e)
            if not r.ok:
                mon.violation("clear", repr(r))
                return None
            w.latest[e] = []
        return f"clear {e}"
    if kind == "delete_latest":
        if w.latest[e]:
            f, _ = w.latest[e].pop()
            os.remove(f)
        return f"latest version of {e} deleted"
    if kind == "old_format":
        # a result which does not say what it was produced with (as older versions wrote them)
        if w.latest[e]:
            f, _ = w.latest[e][-1]
            d = json.load(open(f))
            for k in rng.choice([["algorithm_hash"], ["data_loader_hash"], ["variables_hash"], ["algorithm_hash", "data_loader_hash", "variables_hash"]]):
                d[k] = None
            with open(f, "w") as h:
                json.dump(d, h)
            w.latest[e][-1] = (f, json.dumps({"unknown": True}))
            mon.event("edit:old_format")
        return f"latest version of {e} has no hashes"
    f = rng.choice(["notes.txt", f"{e}_notes.json", f"{e}_12.json.bak", f"zz{e}_99999999999.json", f"{e}_1a.json", "other.yml"])
    with open(f, "w") as h:
        h.write(json.dumps({"variables": {}, "x": rng.random()}))
    return f"irrelevant file {f}"


@contextlib.contextmanager
def editing(d):
    """edits the data as soon as a model has read it"""
    from causy.graph_model import AbstractGraphModel

    name = "create_all_possible_edges"
    done = []
    original = AbstractGraphModel.__dict__.get(name)
    if d is None or original is None:
        yield done
        return

    def create_all_possible_edges(self, *args, **kwargs):
        if not done and self.graph.nodes:
            done.append(True)
            c = sorted(d["rows"][0])[0]
            d["rows"][-1][c] = round(d["rows"][-1][c] + 1, 3)
            write_data(d)
        return original(self, *args, **kwargs)

    setattr(AbstractGraphModel, name, create_all_possible_edges)
    try:
        yield done
    finally:
        setattr(AbstractGraphModel, name, original)


def versions(e, files):
    return {f: int(m.group(1)) for f in files for m in [re.fullmatch(re.escape(e) + r"_([0-9]+)\.json", f)] if m}


def run_case(case, mon):
    global PC_DEFAULT
    from causy.serialization import load_algorithm_by_reference

    sys.dont_write_bytecode = True
    rng = random.Random(case["seed"])
    with pool.patched(random.Random(0), (1, 1, 1)), ws.scratch("c"):
        PC_DEFAULT = {v.name: v.value for v in load_algorithm_by_reference("name", "PC").variables}["threshold"]
        w = World(case, rng)
        setup(w)
        log = []
        for i in range(rng.randint(6, 12)):
            for _ in range(rng.choice([0, 0, 1, 1, 1, 2, 3]) if i else 0):
                what = edit(w, mon)
                if what is None:
                    return
                log.append(what)
            mode = rng.choice(["all"] * 6 + ["force", "single", "unknown", "invalid", "meanwhile"])
            meanwhile = None
            if mode == "meanwhile":
                # the data file is edited while an experiment which has read it already is still running
                target = rng.choice(list(w.experiments))
                meanwhile = w.loaders[w.experiments[target]["dataloader"]]
                mode = "single"
            args = ["execute"]
            prints = {e: fingerprint(w, e) for e in w.experiments}
            if mode == "force":
                args.append("--force-reexecution")
                want = set(w.experiments)
                mon.event("forced")
            elif mode == "single":
                if meanwhile is None:
                    target = rng.choice(list(w.experiments))
                args += ["--experiment-name", target]
                want = {target}
                mon.event("single")
            elif mode == "invalid":
                # a value which the algorithm does not accept: rejected, no result is stored
                target = rng.choice(list(w.experiments))
                kept = copy.deepcopy(w.experiments[target])
                bad = rng.choice([{"threshold": "x"}, {"threshold": ""}, {"threshold": "0.1"}, {"nope": 1}, {"Threshold": 0.1}, {"": 0.1}])
                w.experiments[target]["variables"] = {**kept["variables"], **bad}
                write_workspace(w)
                w.experiments[target] = kept
                args += rng.choice([["--experiment-name", target], ["--experiment-name", target, "--force-reexecution"], []])
                want = set()
                log.append(f"{target} has {bad}")
                mon.event("invalid_value")
            elif mode == "unknown":
                args += ["--experiment-name", "nope"]
                want = set()
            else:
                want = {e for e in w.experiments if not w.latest[e] or w.latest[e][-1][1] != prints[e]}
            before = ws.snapshot()
            with editing(meanwhile if meanwhile and meanwhile["type"] != "dynamic" else None) as edited:
                r = ws.command(*args)
            after = ws.snapshot()
            log.append(args)
            if edited:
                mon.event("edited_while_running")
                log.append(f"{meanwhile['file']} was edited while {target} was executed")
                before[meanwhile["file"]] = after[meanwhile["file"]]
            mon.event("execution")
            desc = lambda: f"history {log[-10:]} experiments={w.experiments} ({r!r})"
            if mode == "invalid":
                write_workspace(w)
                if not mon.check(not r.ok, "invalid-value", lambda: f"executed although the value is invalid: {desc()}"):
                    return
                new = versions(target, set(after) - set(before))
                if not mon.check(not new, "invalid-value", lambda: f"stored {sorted(new)} although the value is invalid: {desc()}"):
                    return
                mon.evaluate(digest(["invalid", bad, len(args), len(w.latest[target])]), True)
                if len(args) == 1:
                    for e in w.experiments:
                        for f in versions(e, set(after) - set(before)):
                            w.latest[e].append((f, prints[e]))
                continue
            if mode not in ("unknown", "invalid") and not mon.check(r.ok, "failed", lambda: f"execution failed: {desc()}"):
                return
            lost = sorted(f for f in before if f not in after)
            changed = sorted(f for f in before if f in after and after[f] != before[f])
            if not mon.check(not lost and not changed, "older-files", lambda: f"an execution lost {lost} and changed {changed}; {desc()}"):
                return
            new = {f for f in after if f not in before}
            per = {e: {f for f in versions(e, new)} for e in w.experiments}
            for e in w.experiments:
                k = len(per[e])
                expected = 1 if e in want else 0
                if mode == "all":
                    mon.event("executed" if expected else "skipped")
                    if not expected and log[-2:-1] and str(log[-2]).startswith(("irrelevant", "format", "data rewritten", "order", "clear x")):
                        mon.event("irrelevant_edit_skipped")
                why = "no result" if not w.latest[e] else "same" if w.latest[e][-1][1] == prints[e] else "changed"
                if k != expected:
                    mon.violation(
                        "reexecution" if k < expected else "needless-execution" if expected == 0 else "versions",
                        f"{e}: {k} new versions instead of {expected} ({mode}, {why}: {explain(w.latest[e], prints[e])}); {desc()}",
                    )
                    return
                mon.evaluate(digest([mode, why, explain(w.latest[e], prints[e]), len(w.latest[e]), k]), True)
                if k:
                    f = next(iter(per[e]))
                    if w.latest[e] and versions(e, [f])[f] <= versions(e, [w.latest[e][-1][0]])[w.latest[e][-1][0]]:
                        mon.violation("version-order", f"new version {f} is not newer than {w.latest[e][-1][0]}; {desc()}")
                        return
                    if w.latest[e]:
                        mon.event("same_second")
                    d = json.loads(after[f])
                    mon.event("variables_stored")
                    if not mon.check(ws.strict(d["variables"]) == ws.strict(effective(w, e)), "stored-variables", lambda: f"{f} stores {d['variables']} but {effective(w, e)} was effective; {desc()}"):
                        return
                    w.latest[e].append((f, prints[e]))
            rest = new - set().union(*per.values())
            if not mon.check(not rest, "extra-files", lambda: f"unexpected files {rest}; {desc()}"):
                return


def explain(latest, now):
    if not latest:
        return "none"
    a, b = json.loads(latest[-1][1]), json.loads(now)
    if "unknown" in a:
        return "unknown"
    return ",".join(k for k in a if a[k] != b[k]) or "same"
