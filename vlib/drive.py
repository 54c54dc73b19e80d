"""Helpers that drive causy through its public surface."""
from __future__ import annotations

import copy

from causy.graph_model import graph_model_factory


def observed_graph(graph):
    """(und, dire) read through the public access methods of the graph"""
    ids = list(graph.nodes.keys())
    und, dire = set(), set()
    for a in ids:
        for b in ids:
            if a == b:
                continue
            ab = graph.directed_edge_exists(a, b)
            ba = graph.directed_edge_exists(b, a)
            if ab and ba:
                und.add(frozenset((a, b)))
            elif ab:
                dire.add((a, b))
    return und, dire


def fmt(und, dire):
    return sorted("-".join(sorted(map(str, e))) for e in und) + sorted(
        f"{a}>{b}" for a, b in dire
    )


def pc_models():
    from causy.causal_discovery.constraint.algorithms.pc import PC, PCClassic, PCStable, ParallelPC

    return {"PC": PC, "PCClassic": PCClassic, "PCStable": PCStable, "ParallelPC": ParallelPC}


def definition_of(cls):
    """the unresolved algorithm definition of a bundled model class"""
    return copy.deepcopy(cls._original_algorithm)


def run_model(model, data):
    model.create_graph_from_data(data)
    model.create_all_possible_edges()
    model.execute_pipeline_steps()
    return model


def empty_graph(names):
    """graph manager (with the access methods of the bundled edge types) over the given nodes"""
    from causy.causal_discovery.constraint.algorithms import PC

    m = PC()
    m.create_graph_from_data({n: [0.0, 1.0] for n in names})
    return m.graph


def flatten_history(history):
    """all ActionHistorySteps in execution order, nested ones before their container"""
    out = []
    for s in history:
        out.extend(flatten_history(s.steps or []))
        out.append(s)
    return out
