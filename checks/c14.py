"""C14: writing and loading random algorithm definitions."""
import copy
import json
import os
import random

import numpy as np

from vlib import algs, pool
from vlib.core import digest

PROPERTY = "C14"
LEVEL = "exploration"
TECHNIQUE = "round-trip monitor: definitions, fingerprints and executed graphs compared before and after saving"
RULE = (
    "random definitions assembled from all bundled steps, generators, logic blocks, edge types, extensions and variables are written as JSON and YAML, loaded through the file reference and the specification loader and compared "
    "object by object, by definition, by fingerprint and, for runnable ones, by the graph and history produced; single settings are changed to check that the fingerprint changes; distinct = distinct definitions"
)
ASSUMPTIONS = ["graph update hooks are python objects without a serialised form and are not part of the definitions"]
FLOORS = {"definition": 300, "round_trip": 900, "object_compared": 3000, "mutant_fingerprint": 1000, "run_compared": 30, "nested_block": 100, "default_left_out": 3000, "renamed": 40, "bundled": 8}
CPU_LIMIT = 60


def cases(tier, seed):
    q = tier == "quick"
    return (
        [{"kind": "bundled", "name": n} for n in ("PC", "PCClassic", "PCStable", "ParallelPC")]
        + [{"kind": "def", "seed": seed * 1000117 + i} for i in range(800 if q else 6000)]
        + [{"kind": "run", "seed": seed * 1000121 + i} for i in range(80 if q else 500)]
    )


def tree(o):
    """structure of live objects: class names and field values"""
    from pydantic import BaseModel

    if isinstance(o, BaseModel):
        return {"__class__": type(o).__module__ + "." + type(o).__qualname__, **{k: tree(getattr(o, k)) for k in type(o).model_fields}}
    if isinstance(o, (list, tuple)):
        return [tree(x) for x in o]
    if isinstance(o, dict):
        return {k: tree(v) for k, v in o.items()}
    import enum

    if isinstance(o, enum.Enum):
        return ["value", type(o.value).__name__, repr(o.value)]
    return ["value", type(o).__name__, repr(o)]


def count(t):
    if isinstance(t, dict):
        return ("__class__" in t) + sum(count(v) for v in t.values())
    if isinstance(t, list) and not (t and t[0] == "value"):
        return sum(count(v) for v in t)
    return 0


def plain(t):
    if isinstance(t, dict):
        return {k: plain(v) for k, v in t.items() if k != "__class__"}
    return [plain(v) for v in t] if isinstance(t, list) else t


def norm(t):
    """None and an empty list mean the same for extensions and variables"""
    t = dict(t)
    for k in ("extensions", "variables"):
        if t.get(k) == ["value", "NoneType", "None"]:
            t[k] = []
    # convenience classes of the ui configuration only provide other defaults
    t["extensions"] = plain(t["extensions"])
    return t


def round_trips(a, mon, desc):
    """the algorithm after each way of writing and reading it"""
    from pydantic_yaml import to_yaml_str
    import yaml

    from causy.serialization import CausyJSONEncoder, load_algorithm_by_reference, load_algorithm_from_specification

    out = []
    d = a.model_dump()
    out.append(("specification", load_algorithm_from_specification(copy.deepcopy(d))))
    wd = os.environ["VERIF_SCRATCH"]
    cwd = os.getcwd()
    os.chdir(wd)
    try:
        with open("a.json", "w") as f:
            f.write(json.dumps(d, cls=CausyJSONEncoder, indent=4))
        out.append(("json file", load_algorithm_by_reference("file", "a.json")))
        with open("b.json", "w") as f:
            f.write(a.model_dump_json())
        out.append(("model_dump_json file", load_algorithm_by_reference("file", "./b.json")))
        with open("a.yml", "w") as f:
            f.write(to_yaml_str(a))
        out.append(("yaml file", load_algorithm_by_reference("file", "a.yml")))
        with open("b.yaml", "w") as f:
            f.write(yaml.safe_dump(json.loads(json.dumps(d)), allow_unicode=True))
        out.append(("yaml dump file", load_algorithm_by_reference("file", os.path.join(wd, "b.yaml"))))
    finally:
        os.chdir(cwd)
    return out


def compare(a, mon, desc):
    h, d, t = a.hash(), a.model_dump(), norm(tree(a))
    again = []
    for way, b in round_trips(a, mon, desc):
        mon.event("round_trip")
        mon.event("object_compared", count(t))
        db = b.model_dump()
        nd = lambda x: {**x, "extensions": x.get("extensions") or [], "variables": x.get("variables") or []}
        if not mon.check(nd(db) == nd(d), "definition", lambda: f"{way}: {diff(nd(d), nd(db))} ({desc()})"):
            return None
        tb = norm(tree(b))
        if not mon.check(tb == t, "objects", lambda: f"{way}: {diff(t, tb)} ({desc()})"):
            return None
        if not mon.check(b.hash() == h or nd(d) != d, "fingerprint", lambda: f"{way}: fingerprint changed ({desc()})"):
            return None
        again.append((way, b))
    mon.check(a.hash() == h and a.model_dump() == d, "definition-changed", lambda: f"serialising changed the definition ({desc()})")
    return again


_DEFAULTS = {}


def defaults(name):
    """settings which a building block has if nothing is given"""
    import importlib

    if name not in _DEFAULTS:
        mod, cls = name.rsplit(".", 1)
        try:
            _DEFAULTS[name] = getattr(importlib.import_module(mod), cls)().model_dump()
        except Exception:  # needs settings
            _DEFAULTS[name] = {}
    return _DEFAULTS[name]


def shorten(d, rng, counter):
    """the definition without settings which have their default value anyway"""
    if isinstance(d, list):
        return [shorten(x, rng, counter) for x in d]
    if not isinstance(d, dict):
        return d
    # (size bounds of generators always have to be given)
    std = defaults(d["name"]) if isinstance(d.get("name"), str) and d["name"].startswith("causy.") and "ComparisonSettings" not in d["name"] else {}
    out = {}
    for k, v in d.items():
        if k != "name" and k in std and type(std[k]) is type(v) and std[k] == v and rng.random() < 0.5:
            counter[0] += 1
            continue
        out[k] = shorten(v, rng, counter)
    return out


def by_hand(a, rng, mon, desc):
    """definitions as people write them: defaults and empty parts are left out; and under another name"""
    from causy.graph_model import graph_model_factory
    from causy.serialization import load_algorithm_from_specification, serialize_algorithm

    t = norm(tree(a))
    for _ in range(2):
        d = a.model_dump()
        n = [0]
        d["pipeline_steps"] = shorten(d["pipeline_steps"], rng, n)
        for k in ("extensions", "variables", "pre_graph_update_hooks", "post_graph_update_hooks"):
            if not d.get(k):
                r = rng.random()
                if r < 0.5:
                    d.pop(k, None)
                elif r < 0.7 and k in ("extensions", "variables"):
                    d[k] = rng.choice([None, []])
        mon.event("default_left_out", n[0])
        text = json.dumps(d)
        try:
            b = load_algorithm_from_specification(json.loads(text))
        except Exception as e:  # noqa
            mon.violation("definition", f"a definition without its default settings is not accepted: {e!r} {text[:600]} ({desc()})")
            return False
        tb = norm(tree(b))
        for x in (t, tb):
            for k in ("pre_graph_update_hooks", "post_graph_update_hooks"):
                x.pop(k, None)
        if not mon.check(tb == t, "objects", lambda: f"defaults left out: {diff(t, tb)} {text[:600]} ({desc()})"):
            return False
    return True


def renamed(a, mon, desc):
    from causy.graph_model import graph_model_factory
    from causy.serialization import load_algorithm_from_specification, serialize_algorithm

    m = graph_model_factory(a)()
    d = copy.deepcopy(serialize_algorithm(m))
    e = copy.deepcopy(serialize_algorithm(m, "other name"))
    mon.event("renamed")
    if not mon.check(e == {**d, "name": "other name"} and d["name"] == a.name, "renamed", lambda: f"serialised under another name: {diff({**d, 'name': 'other name'}, e)} ({desc()})"):
        return False
    return mon.check(load_algorithm_from_specification(e).name == "other name", "renamed", desc)


def diff(x, y, path=""):
    if type(x) is not type(y):
        return f"{path}: {x!r} became {y!r}"
    if isinstance(x, dict):
        for k in list(x) + [k for k in y if k not in x]:
            if x.get(k) != y.get(k):
                return diff(x.get(k), y.get(k), f"{path}.{k}")
    if isinstance(x, list) and len(x) == len(y):
        for i, (p, q) in enumerate(zip(x, y)):
            if p != q:
                return diff(p, q, f"{path}[{i}]")
    return f"{path}: {x!r} became {y!r}"


def mutants(a, rng, k):
    """definitions which differ from a in exactly one setting"""
    lv = algs.leaves(a)
    for _ in range(k):
        b = copy.deepcopy(a)
        kind = rng.choice(["leaf"] * 8 + ["name", "drop", "swap", "edge", "var", "varname", "choices", "ui"])
        what = kind
        if kind == "leaf" and lv:
            i = rng.randrange(len(lv))
            path, c, key = algs.leaves(b)[i]
            v = c[key]
            if isinstance(v, dict):
                c[key] = {"ref": v["ref"] + "_other"}
            elif isinstance(v, bool):
                c[key] = not v
            elif isinstance(v, int):
                c[key] = v + rng.choice([1, 7, -1]) if not (v == 1) else v + 1
            elif isinstance(v, float):
                c[key] = v * rng.choice([0.5, 2.0, 1 + 1e-9])
            else:
                c[key] = v + rng.choice(["x", " ", "."]) if key != "conflict_resolution_strategy" else ("KEEP_LAST" if v == "KEEP_FIRST" else "KEEP_FIRST")
            what = f"{path}: {v!r} -> {c[key]!r}"
        elif kind == "name":
            b["name"] += "x"
        elif kind == "drop" and len(b["steps"]) > 1:
            del b["steps"][rng.randrange(len(b["steps"]))]
        elif kind == "swap" and len(b["steps"]) > 1:
            i = rng.randrange(len(b["steps"]) - 1)
            if b["steps"][i] == b["steps"][i + 1]:
                continue
            b["steps"][i], b["steps"][i + 1] = b["steps"][i + 1], b["steps"][i]
        elif kind == "edge":
            b["edge_types"] = b["edge_types"][:-1] if rng.random() < 0.5 else b["edge_types"][::-1]
        elif kind in ("var", "varname", "choices") and b["variables"]:
            v = rng.choice(b["variables"])
            if kind == "var":
                if v["choices"]:
                    continue
                v["value"] = {"float": lambda x: x + 0.25, "integer": lambda x: x + 1, "bool": lambda x: not x, "string": lambda x: x + "y"}[v["type"]](v["value"])
            elif kind == "varname":
                v["name"] += "_renamed"
            else:
                v["choices"] = (v["choices"] or [v["value"]]) + [{"float": 77.5, "integer": 777, "bool": not v["value"], "string": "zz"}[v["type"]]]
        elif kind == "ui" and b.get("ui"):
            b["ui"][rng.choice(["color"])] = "green"
        else:
            continue
        yield what, b


def run_case(case, mon):
    rng = random.Random(case.get("seed", 0))
    if case["kind"] == "bundled":
        return bundled(case, mon)
    gen = algs.Gen(rng, runnable=case["kind"] == "run")
    a = gen.algorithm()
    alg = algs.build_algorithm(a)
    desc = lambda: f"{a}"
    mon.event("definition")
    mon.event("nested_block", sum(1 for p, s in algs.spec_params(a) if s["cls"] in (algs.LOOP, algs.TOGETHER)))
    again = compare(alg, mon, desc)
    if again is None or not by_hand(alg, rng, mon, desc):
        return
    if case["kind"] == "run" and not renamed(alg, mon, desc):
        return
    # the same definition built twice has the same fingerprint, different settings a different one
    if not mon.check(algs.build_algorithm(copy.deepcopy(a)).hash() == alg.hash(), "fingerprint", lambda: f"same definition, different fingerprint ({desc()})"):
        return
    for what, b in mutants(a, rng, 12):
        mon.event("mutant_fingerprint")
        try:
            other = algs.build_algorithm(b)
        except ValueError:
            continue
        if not mon.check(other.hash() != alg.hash(), "fingerprint-collision", lambda: f"change of {what} keeps the fingerprint ({desc()})"):
            return
    if case["kind"] == "run":
        n = rng.randint(3, 5)
        nr = np.random.default_rng(case["seed"])
        x = nr.normal(size=(60, n))
        for i in range(1, n):
            x[:, i] += rng.uniform(0.2, 1.0) * x[:, rng.randrange(i)]
        data = {f"x{i}": [float(v) for v in x[:, i]] for i in range(n)}
        if not run_equal(alg, again, data, mon, desc):
            return
    mon.evaluate(digest(a), sample={"steps": [s["cls"].rsplit(".", 1)[1] for s in a["steps"]], "variables": len(a["variables"])})


def outcome(alg, data, values=None):
    from causy.graph_model import graph_model_factory
    from vlib.drive import flatten_history, run_model

    random.seed(5)
    m = graph_model_factory(alg, values)()
    run_model(m, copy.deepcopy(data))
    edges = sorted((e.u.id, e.v.id, e.edge_type.name, json.dumps(e.metadata, sort_keys=True, default=str)) for e in m.graph.retrieve_edges())
    hist = [(s.name, [(x.action.name, x.u.id, x.v.id) for x in s.actions or []]) for s in flatten_history(m.graph.action_history)]
    return edges, hist


def run_equal(alg, again, data, mon, desc):
    try:
        want = outcome(alg, data)
    except Exception as e:  # noqa  the random combination does not run: then the reloaded one must not either
        want = repr(type(e))
        mon.event("not_runnable")
    for way, b in again:
        try:
            got = outcome(b, data)
        except Exception as e:  # noqa
            got = repr(type(e))
        mon.event("run_compared" if not isinstance(want, str) else "run_failed_alike")
        if not mon.check(got == want, "run", lambda: f"{way}: the reloaded algorithm gives {str(got)[:700]} instead of {str(want)[:700]} ({desc()})"):
            return False
    return True


def bundled(case, mon):
    from causy.serialization import load_algorithm_by_reference
    from checks.c01 import MOD

    alg = load_algorithm_by_reference("python_module", MOD + case["name"])
    again = compare(alg, mon, lambda: case["name"])
    mon.event("bundled", len(again or []))
    if again and case["name"] != "ParallelPC":
        nr = np.random.default_rng(3)
        x = nr.normal(size=(80, 5))
        for i in range(1, 5):
            x[:, i] += 0.7 * x[:, i // 2]
        run_equal(alg, again, {f"x{i}": [float(v) for v in x[:, i]] for i in range(5)}, mon, lambda: case["name"])
    mon.evaluate(case["name"])
