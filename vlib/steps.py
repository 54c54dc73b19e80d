"""pipeline steps of our own that feed causy's engine with chosen proposals"""
from typing import Optional, List, Any

from causy.generators import AllCombinationsGenerator
from causy.interfaces import PipelineStepInterface, GeneratorInterface
from causy.models import ComparisonSettings, TestResult, TestResultAction

PLAN = {}


class Prune(PipelineStepInterface):
    """removes the edges in PLAN {frozenset(a, b): separating set}, as an independence test would"""

    generator: Optional[GeneratorInterface] = AllCombinationsGenerator(comparison_settings=ComparisonSettings(min=2, max=2))
    parallel: Any = False

    def process(self, nodes, graph, unapplied_actions=None):
        k = frozenset(nodes)
        if k in PLAN:
            return TestResult(
                u=graph.nodes[nodes[0]],
                v=graph.nodes[nodes[1]],
                action=TestResultAction.REMOVE_EDGE_UNDIRECTED,
                data={"separatedBy": [graph.nodes[z] for z in PLAN[k]]},
            )


BACKGROUND = []


class Background(PipelineStepInterface):
    """directs the edges in BACKGROUND [(cause, effect)] as prior knowledge would"""

    generator: Optional[GeneratorInterface] = AllCombinationsGenerator(comparison_settings=ComparisonSettings(min=2, max=2))
    parallel: Any = False

    def process(self, nodes, graph, unapplied_actions=None):
        out = []
        for a, b in BACKGROUND:
            if {a, b} == set(nodes):
                out.append(TestResult(u=graph.nodes[b], v=graph.nodes[a], action=TestResultAction.REMOVE_EDGE_DIRECTED, data={}))
        return out
