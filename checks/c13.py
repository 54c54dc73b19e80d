"""C13: variable resolution in random algorithm definitions."""
import copy
import math
import random

from vlib import algs, pool
from vlib.core import digest

PROPERTY = "C13"
LEVEL = "exploration"
TECHNIQUE = "state monitor over all parameters of built models against the declared values, error injection"
RULE = (
    "random definitions assembled from the bundled steps with variable references in steps, generators, nested generators, comparison settings, loops and together-blocks; several models are built from one definition with different "
    "subsets of values and every parameter of every object is compared with the value it has to have, before and after other models were built; single type, choice and name errors are injected; "
    "distinct = distinct definitions with at least one reference"
)
ASSUMPTIONS = ["values are validated with validate_variable_values, as the command line and the API do", "an integer is not a float and a bool is neither"]
FLOORS = {"declaration_rejected": 500, "model": 600, "reference_resolved": 2000, "literal_kept": 2000, "nested_reference": 300, "default_used": 500, "value_rejected": 500, "value_accepted": 200, "undeclared_reference_rejected": 100, "run_compared": 10, "near_choice": 1000, "class_default_resolved": 500}
CPU_LIMIT = 60


def cases(tier, seed):
    n = 2000 if tier == "quick" else 6000
    return [{"kind": "def", "seed": seed * 1000081 + i} for i in range(n)] + [{"kind": "run", "seed": seed * 1000099 + i} for i in range(40 if tier == "quick" else 150)] + [
        {"kind": "own", "seed": seed * 1000117 + i} for i in range(150 if tier == "quick" else 600)
    ]


WRONG = {"float": ["0.1", 1, True, None, [0.1], b"x"], "integer": ["1", 1.0, True, None, 0.5], "bool": ["true", 1, 0, 1.0, None], "string": [1, 1.0, True, None, ["x"]]}


def same(a, b):
    return type(a) is type(b) and a == b


def verify(model, a, vals, mon, desc):
    """every parameter of every object"""
    for path, s in algs.spec_params(a):
        try:
            o = algs.at(model.algorithm.pipeline_steps, path)
        except (AttributeError, IndexError, TypeError) as e:
            mon.violation("structure", f"{path} missing in the model: {e!r} ({desc()})")
            return False
        if not mon.check(type(o).__name__ == s["cls"].rsplit(".", 1)[1], "structure", lambda: f"{path} is {type(o)} ({desc()})"):
            return False
        for k, v in s["params"].items():
            if isinstance(v, dict) and ("obj" in v or "objs" in v):
                continue
            got = getattr(o, k)
            if isinstance(v, dict):
                mon.event("reference_resolved")
                if len(path) > 1:
                    mon.event("nested_reference")
                want = vals[v["ref"]]
                kind = "reference"
            else:
                mon.event("literal_kept")
                want, kind = v, "literal"
            if not mon.check(same(got, want), kind, lambda: f"{path} {k} is {got!r} instead of {want!r} ({v}) ({desc()})"):
                return False
    return True


def run_case(case, mon):
    from causy.graph_model import graph_model_factory
    from causy.variables import resolve_variables, validate_variable_values

    rng = random.Random(case["seed"])
    if case["kind"] == "run":
        return run_models(case, mon, rng)
    if case["kind"] == "own":
        return own_steps(case, mon, rng)
    gen = algs.Gen(rng)
    a = gen.algorithm()
    definition = algs.build_algorithm(a)
    before = copy.deepcopy(definition.model_dump())
    defaults = {v["name"]: v["value"] for v in a["variables"]}
    types = {v["name"]: v for v in a["variables"]}
    desc = lambda: f"variables={a['variables']} steps={a['steps']}"
    nrefs = sum(1 for _, c, k in algs.leaves(a) if isinstance(c[k], dict))
    built = []
    with pool.patched(random.Random(0), (1, 1, 1)):
        for r in range(3):
            given = {}
            for v in a["variables"]:
                if rng.random() < 0.5:
                    given[v["name"]] = rng.choice(v["choices"]) if v["choices"] else (rng.choice(v["lits"]) if v["lits"] else gen.lit(v["type"]))
            vals = {**defaults, **given}
            mon.event("default_used", len(defaults) - len(given))
            mon.event("value_accepted", len(given))
            try:
                ok = validate_variable_values(definition, dict(given))
            except ValueError as e:
                mon.violation("rejected-valid", f"{given} rejected: {e} ({desc()})")
                return
            mon.check(ok is True, "rejected-valid", lambda: f"validate returned {ok!r}")
            got = resolve_variables(definition.variables, dict(given))
            if not mon.check(got == vals and all(same(got[k], vals[k]) for k in vals), "resolve", lambda: f"resolved {got} expected {vals} ({desc()})"):
                return
            handed = dict(given) if r != 1 else dict(vals)
            copy_handed = dict(handed)
            m = graph_model_factory(definition, handed if (handed or r) else None)()
            mon.check(handed == copy_handed, "caller-changed", lambda: f"the passed values were changed to {handed}")
            mon.event("model")
            built.append((m, vals, given))
            if not verify(m, a, vals, mon, lambda: f"given={given} {desc()}"):
                return
            dump = m.algorithm.model_dump()
            want = algs.resolved({k: v for k, v in before.items() if k != "variables"}, vals)
            if not mon.check({k: v for k, v in dump.items() if k != "variables"} == want, "definition-of-model", lambda: f"model definition {dump} expected {want} ({desc()})"):
                return
            if not mon.check(definition.model_dump() == before, "definition-changed", lambda: f"definition became {definition.model_dump()} was {before}"):
                return
        for m, vals, given in built:
            if not verify(m, a, vals, mon, lambda: f"after building other models, given={given} {desc()}"):
                return
    # rejections
    for v in a["variables"]:
        bad = list(WRONG[v["type"]])
        if v["choices"]:
            c = {"float": 17.25, "integer": 987654, "string": "not a choice", "bool": not v["value"]}[v["type"]]
            if c not in v["choices"]:
                bad.append(c)
            # almost a choice
            for c in v["choices"]:
                if v["type"] == "string":
                    bad += [x for x in (c.lower(), c.upper(), c.swapcase(), c + " ", " " + c, c[:-1], c[1:], c + c, c[::-1], "", ",".join(map(str, v["choices"]))) if x not in v["choices"]]
                elif v["type"] == "float":
                    bad += [x for x in (math.nextafter(c, math.inf), math.nextafter(c, -math.inf), -c, c + 1e-9, c * 10, math.nan, math.inf) if x not in v["choices"]]
                elif v["type"] == "integer":
                    bad += [x for x in (c + 1, c - 1, -c, c * 10) if x not in v["choices"]]
            mon.event("near_choice", len(bad))
        for x in bad:
            if v["choices"] and any(same(x, c) for c in v["choices"]):
                continue
            vals = {**({k: d for k, d in defaults.items() if rng.random() < 0.5}), v["name"]: x}
            items = list(vals.items())
            rng.shuffle(items)
            if not expect_rejection(lambda: validate_variable_values(definition, dict(items)), mon, f"value {x!r} for {v} accepted"):
                return
    # a declaration whose own default is no valid value
    for o, v in zip(definition.variables, a["variables"]):
        bad = [] if v["choices"] else [{"float": "x", "integer": 0.5, "bool": "maybe", "string": 1}[v["type"]]]
        if v["choices"]:
            bad = [x for x in {"float": [17.25, 1e-300], "integer": [987654, -987654], "string": ["not a choice", ""], "bool": [True, False]}[v["type"]] if x not in v["choices"]]
        for x in bad:
            mon.event("declaration_rejected")
            try:
                type(o)(name=v["name"], value=x, choices=v["choices"])
            except ValueError:
                pass
            else:
                mon.violation("accepted-invalid", f"a {v['type']} variable with choices {v['choices']} may be declared with the default {x!r}")
                return
        for x in [v["value"], *(v["choices"] or []), *bad, *WRONG[v["type"]]]:
            try:
                validate_variable_values(definition, {v["name"]: x})
                want = True
            except ValueError:
                want = False
            if not mon.check(o.is_valid_value(x) is want, "is-valid", lambda: f"is_valid_value({x!r}) of {v} is not {want}"):
                return
    undeclared = rng.choice(["nope", "Threshold", " " + (a["variables"][0]["name"] if a["variables"] else "x"), ""])
    if undeclared not in defaults:
        if not expect_rejection(lambda: validate_variable_values(definition, {**defaults, undeclared: rng.choice([1, 1.0, "x", True])}), mon, f"undeclared variable {undeclared!r} accepted"):
            return
    # a reference to an undeclared variable
    refs = sorted({c[k]["ref"] for _, c, k in algs.leaves(a) if isinstance(c[k], dict)})
    for missing in refs[:2]:
        b = copy.deepcopy(a)
        b["variables"] = [v for v in b["variables"] if v["name"] != missing] if rng.random() < 0.6 else []
        d2 = algs.build_algorithm(b)
        try:
            with pool.patched(random.Random(0), (1, 1, 1)):
                graph_model_factory(d2)()
        except ValueError:
            mon.event("undeclared_reference_rejected")
        else:
            mon.violation("undeclared-reference", f"reference to {missing!r} accepted although only {[v['name'] for v in b['variables']]} are declared ({desc()})")
            return
    mon.evaluate(digest(a), nontrivial=nrefs > 0, sample={"variables": a["variables"][:3], "references": nrefs})


def expect_rejection(f, mon, message):
    try:
        f()
    except ValueError:
        mon.event("value_rejected")
        return True
    mon.violation("accepted-invalid", message)
    return False


_OWN = []


def own_classes():
    """steps of a user whose references are defaults of the class, in the step, its generator and a part of its own"""
    if not _OWN:
        from typing import Optional

        from pydantic import BaseModel

        from causy.common_pipeline_steps.calculation import CalculatePearsonCorrelations
        from causy.generators import PairsWithEdgesInBetweenGenerator
        from causy.interfaces import GeneratorInterface
        from causy.variables import BoolParameter, FloatParameter, IntegerParameter, StringParameter, VariableReference

        class Part(BaseModel):
            depth: IntegerParameter = VariableReference(name="depth")
            label: StringParameter = "literal"

        class Own(CalculatePearsonCorrelations):
            cut: FloatParameter = VariableReference(name="cut")
            flag: BoolParameter = VariableReference(name="flag")
            other: FloatParameter = 0.75
            part: Part = Part()
            generator: Optional[GeneratorInterface] = PairsWithEdgesInBetweenGenerator(chunk_size=VariableReference(name="depth"))

        class Plain(CalculatePearsonCorrelations):
            cut: FloatParameter = 0.125

        _OWN.extend([Own, Plain, Part])
    return _OWN


def own_steps(case, mon, rng):
    from causy.common_pipeline_steps.exit_conditions import ExitOnNoActions
    from causy.common_pipeline_steps.logic import ApplyActionsTogether, Loop
    from causy.graph_model import graph_model_factory
    from causy.models import Algorithm
    from causy.variables import BoolVariable, FloatVariable, IntegerVariable, VariableReference

    Own, Plain, Part = own_classes()
    where = rng.choice(["top", "loop", "together", "deep"])
    given_step = {}
    if rng.random() < 0.4:
        given_step["other"] = VariableReference(name="cut")
    if rng.random() < 0.3:
        given_step["flag"] = rng.choice([True, False])
    if rng.random() < 0.3:
        given_step["part"] = Part(depth=rng.choice([0, 3]))

    def nested(steps):
        if where == "top":
            return steps
        if where == "together":
            return [ApplyActionsTogether(pipeline_steps=steps)]
        if where == "loop":
            return [Loop(pipeline_steps=steps, exit_condition=ExitOnNoActions())]
        return [Loop(pipeline_steps=[ApplyActionsTogether(pipeline_steps=steps)], exit_condition=ExitOnNoActions())]

    order = rng.sample([0, 1, 2], 3)
    definition = Algorithm(
        name="own",
        pipeline_steps=nested([[Own(**given_step), Plain(), Own()][i] for i in order]),
        edge_types=[],
        variables=[FloatVariable(name="cut", value=0.5), BoolVariable(name="flag", value=False), IntegerVariable(name="depth", value=7)],
    )
    before = definition.model_dump()
    built = []
    for _ in range(3):
        given = {k: v for k, v in {"cut": rng.choice([0.0, 0.25, 1e-9]), "flag": rng.choice([True, False]), "depth": rng.choice([0, 1, 12])}.items() if rng.random() < 0.6}
        built.append((graph_model_factory(definition, dict(given))(), {"cut": 0.5, "flag": False, "depth": 7, **given}))
    for m, vals in built:
        steps = m.algorithm.pipeline_steps
        while len(steps) == 1:
            steps = steps[0].pipeline_steps
        for i, s in zip(order, steps):
            if i == 1:
                want = {"cut": 0.125}
                got = {"cut": s.cut}
            else:
                g = given_step if i == 0 else {}
                want = {"cut": vals["cut"], "flag": g.get("flag", vals["flag"]), "other": vals["cut"] if "other" in g else 0.75, "depth": g["part"].depth if "part" in g and not isinstance(g["part"].depth, VariableReference) else vals["depth"], "label": "literal", "chunk": vals["depth"]}
                got = {"cut": s.cut, "flag": s.flag, "other": s.other, "depth": s.part.depth, "label": s.part.label, "chunk": s.generator.chunk_size}
            mon.event("class_default_resolved")
            if not mon.check(all(same(got[k], want[k]) for k in want), "reference", lambda: f"own step in {where}, values {vals}: {got} instead of {want} (arguments {given_step})"):
                return
    mon.check(definition.model_dump() == before, "definition-changed", lambda: f"definition became {definition.model_dump()} was {before}")
    mon.evaluate(digest(["own", where, str(given_step), str([v for _, v in built])]), True)


def run_models(case, mon, rng):
    """models with a supplied threshold act like models with that threshold written into the definition"""
    import numpy as np

    from causy.graph_model import graph_model_factory
    from causy.serialization import load_algorithm_by_reference
    from checks.c01 import MOD
    from vlib.drive import fmt, observed_graph, run_model

    nr = np.random.default_rng(case["seed"])
    n = 5
    x = nr.normal(size=(40, n))
    for i in range(1, n):
        x[:, i] += rng.uniform(0.1, 0.6) * x[:, i - 1]
    data = {f"x{i}": [float(v) for v in x[:, i]] for i in range(n)}
    name = rng.choice(["PC", "PCClassic", "PCStable"])
    alg = load_algorithm_by_reference("python_module", MOD + name)
    results = {}
    for t in rng.sample([0.0001, 0.01, 0.05, 0.3, 0.7], 3) + [None]:
        m = graph_model_factory(alg, None if t is None else {"threshold": t})()
        run_model(m, copy.deepcopy(data))
        lit = copy.deepcopy(alg)
        for s in lit.pipeline_steps:
            for q in getattr(s, "pipeline_steps", None) or [s]:
                if type(getattr(q, "threshold", None)).__name__ == "VariableReference":
                    q.threshold = 0.05 if t is None else t
        lit.variables = []
        m2 = graph_model_factory(lit)()
        run_model(m2, copy.deepcopy(data))
        g1, g2 = fmt(*observed_graph(m.graph)), fmt(*observed_graph(m2.graph))
        results[t] = tuple(g1)
        mon.event("run_compared")
        if not mon.check(g1 == g2, "run", lambda: f"{name} threshold={t}: {g1} but with the literal {g2}"):
            return
    mon.evaluate(digest(case), nontrivial=len(set(results.values())) > 1)
