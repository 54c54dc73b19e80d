"""Executes jobs in a process of its own (see checks/c23.py): repro.py <job file> <out file>"""
import copy
import json
import os
import random
import sys


def canon(o):
    import enum

    import torch

    from causy.interfaces import EdgeTypeInterface, NodeInterface

    if isinstance(o, torch.Tensor):
        return ["tensor", canon(o.tolist())]
    if isinstance(o, NodeInterface):
        return ["node", o.name, o.id]
    if isinstance(o, EdgeTypeInterface):
        return ["type", o.name]
    if isinstance(o, enum.Enum):
        return o.value
    if isinstance(o, dict):
        return {str(k): canon(v) for k, v in o.items()}
    if isinstance(o, (list, tuple)):
        out = [canon(x) for x in o]
        # separating sets are kept as lists of nodes: compared as sets
        return sorted(out, key=repr) if out and all(isinstance(x, NodeInterface) for x in o) else out
    if isinstance(o, (set, frozenset)):
        return ["set"] + sorted((canon(x) for x in o), key=repr)
    if o is None or isinstance(o, (bool, int, float, str)):
        return o
    return repr(type(o))


def action(a):
    return [canon(a.u), canon(a.v), canon(a.action), canon(a.data), canon(a.edge_type)]


def step(s):
    return [s.name, [action(a) for a in s.actions or []], [action(a) for a in s.all_proposed_actions or []], [step(x) for x in s.steps or []]]


def observe(model):
    g = model.graph
    ids = list(g.nodes)
    edges = {}
    for u in ids:
        for v in ids:
            if u != v and g.directed_edge_exists(u, v):
                edges[f"{u}|{v}"] = [canon(g.edge_type(u, v)), canon(g.edge_value(u, v))]
    seps = {}
    for u in ids:
        for v in ids:
            if u < v:
                h = g.retrieve_edge_history(g.nodes[u], g.nodes[v])
                seps[f"{u}|{v}"] = [action(a) for a in h]
    return {"nodes": sorted(ids), "edges": edges, "separations": seps, "history": [step(s) for s in g.action_history]}


def build(spec):
    from causy.causal_discovery.constraint.algorithms import pc

    if spec["alg"] in ("PC", "PCClassic", "PCStable"):
        cls = getattr(pc, spec["alg"])
        return cls() if spec["variables"] is None else with_variables(cls, spec["variables"])
    from causy.graph_model import graph_model_factory

    return graph_model_factory(custom(spec), spec["variables"])()


def with_variables(cls, variables):
    from causy.graph_model import graph_model_factory

    return graph_model_factory(copy.deepcopy(cls._original_algorithm), variables)()


def custom(spec):
    from causy.causal_discovery.constraint.independence_tests import common as t
    from causy.causal_discovery.constraint.orientation_rules import pc as o
    from causy.causal_effect_estimation.multivariate_regression import ComputeDirectEffectsInDAGsMultivariateRegression
    from causy.common_pipeline_steps.calculation import CalculatePearsonCorrelations
    from causy.common_pipeline_steps.exit_conditions import ExitOnNoActions
    from causy.common_pipeline_steps.logic import ApplyActionsTogether, Loop
    from causy.edge_types import DirectedEdge, UndirectedEdge
    from causy.models import Algorithm
    from causy.variables import FloatVariable, VariableReference

    th = VariableReference(name="threshold")
    tests = {"c": lambda: t.CorrelationCoefficientTest(threshold=th), "p": lambda: t.PartialCorrelationTest(threshold=th), "m": lambda: t.ExtendedPartialCorrelationTestMatrix(threshold=th), "l": lambda: t.ExtendedPartialCorrelationTestLinearRegression(threshold=th)}
    skeleton = [tests[c]() for c in spec["tests"]]
    if spec["together"]:
        skeleton = [ApplyActionsTogether(pipeline_steps=skeleton)]
    rules = {"n": o.NonColliderTest, "t": o.FurtherOrientTripleTest, "q": o.OrientQuadrupleTest, "f": o.FurtherOrientQuadrupleTest}
    strategies = list(o.ColliderTestConflictResolutionStrategies)
    return Algorithm(
        name="custom",
        pipeline_steps=[CalculatePearsonCorrelations(), *skeleton, o.ColliderTest(conflict_resolution_strategy=strategies[spec["strategy"] % len(strategies)]), Loop(pipeline_steps=[rules[c]() for c in spec["rules"]], exit_condition=ExitOnNoActions()), ComputeDirectEffectsInDAGsMultivariateRegression()],
        edge_types=[DirectedEdge(), UndirectedEdge()],
        extensions=[],
        variables=[FloatVariable(name="threshold", value=0.05)],
    )


def run(spec, data, scratch):
    """(observation or error, was the input left alone)"""
    model = build(spec)
    source = copy.deepcopy(data[spec["data"]])
    if spec["source"] == "rows":
        keys = list(source)
        source = [{k: source[k][i] for k in keys} for i in range(len(source[keys[0]]))]
    given = source
    if spec["source"] == "tensors":
        import torch

        given = {k: torch.tensor(v, dtype=torch.float64) for k, v in source.items()}
    if spec["source"] == "json":
        from causy.data_loader import DataLoaderReference, load_data_loader

        path = os.path.join(scratch, f"d{os.getpid()}_{spec['data']}.json")
        with open(path, "w") as f:
            json.dump(source, f)
        before = open(path, "rb").read()
        given = load_data_loader(DataLoaderReference(type="json", reference=path))
    try:
        model.create_graph_from_data(given)
        model.create_all_possible_edges()
        model.execute_pipeline_steps()
        out = observe(model)
    except Exception as e:  # the same error everywhere is reproducible as well
        out = {"error": type(e).__name__}
    if spec["source"] == "json":
        return out, open(path, "rb").read() == before
    if spec["source"] == "tensors":
        return out, {k: v.tolist() for k, v in given.items()} == data[spec["data"]]
    if spec["source"] == "rows":
        keys = list(data[spec["data"]])
        return out, {k: [r[k] for r in given] for k in keys} == data[spec["data"]] and all(list(r) == keys for r in given)
    return out, given == data[spec["data"]] and list(given) == list(data[spec["data"]])


def main(job_file, out_file):
    import logging
    import warnings

    warnings.filterwarnings("ignore")
    logging.disable(logging.CRITICAL)
    import torch

    torch.set_num_threads(1)
    job = json.load(open(job_file))
    scratch = os.path.dirname(out_file)
    random.seed(job["rng"])
    torch.manual_seed(job["rng"])
    import numpy

    numpy.random.seed(job["rng"] % 2**32)
    res = {}
    for n, i in enumerate(job["order"]):
        if n % 3 == 1:
            random.seed(job["rng"] + n)
        obs, alone = run(job["jobs"][i], job["data"], scratch)
        res.setdefault(str(i), []).append([obs, alone])
    with open(out_file, "w") as f:
        json.dump(res, f)


if __name__ == "__main__":
    sys.path.insert(0, os.environ.get("CAUSY_REPO", "/repo"))
    sys.dont_write_bytecode = True
    main(*sys.argv[1:])
