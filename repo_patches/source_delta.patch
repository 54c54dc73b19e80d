From 6e17121cd4c417781a0095453d861d93d1cadaa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:11:52 +0000
Subject: [PATCH 01/62] fix: purge soft deleted edges after logic steps so
 later steps do not see removed neighbours

---
 causy/graph_model.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/causy/graph_model.py b/causy/graph_model.py
index 2f7222a..51d410f 100644
--- a/causy/graph_model.py
+++ b/causy/graph_model.py
@@ -209,6 +209,7 @@ class AbstractGraphModel(GraphModelInterface, ABC):
             if isinstance(filter, LogicStepInterface):
                 actions_taken = filter.execute(self.graph.graph, self)
                 self.graph.graph.action_history.append(actions_taken)
+                self.graph.purge_soft_deleted_edges()
                 continue
             yield {
                 "step": filter.__class__.__name__,
-- 
2.43.0


From de551d3a449a010c571dc41df0b187c7c82b9a14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:59:22 +0000
Subject: [PATCH 02/62] fix: remove_edge drops the matching reverse index so
 directed edges can be removed

---
 causy/graph.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/causy/graph.py b/causy/graph.py
index 9e22e05..21e2735 100644
--- a/causy/graph.py
+++ b/causy/graph.py
@@ -775,12 +775,12 @@ class GraphManager(GraphBaseAccessMixin, BaseGraphInterface):
         if u.id in self.edges and v.id in self.edges[u.id]:
             self._deleted_edges[u.id][v.id] = self.edges[u.id][v.id]
             del self.edges[u.id][v.id]
-            del self._reverse_edges[u.id][v.id]
+            del self._reverse_edges[v.id][u.id]
 
         if v.id in self.edges and u.id in self.edges[v.id]:
             self._deleted_edges[v.id][u.id] = self.edges[v.id][u.id]
             del self.edges[v.id][u.id]
-            del self._reverse_edges[v.id][u.id]
+            del self._reverse_edges[u.id][v.id]
 
     def restore_edge(self, u: Node, v: Node):
         """
-- 
2.43.0


From 6cc20c8f2e389a9b8d3043607c58f56d76c05017 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:59:22 +0000
Subject: [PATCH 03/62] fix: restoring a purged edge keeps its edge type

---
 causy/graph.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/causy/graph.py b/causy/graph.py
index 21e2735..d97010a 100644
--- a/causy/graph.py
+++ b/causy/graph.py
@@ -798,15 +798,19 @@ class GraphManager(GraphBaseAccessMixin, BaseGraphInterface):
             self.edges[u.id][v.id].deleted = False
             self._reverse_edges[v.id][u.id].deleted = False
         else:
-            self.add_edge(u, v, self._deleted_edges[u.id][v.id].metadata)
-            del self._deleted_edges[u.id][v.id]
+            deleted_edge = self._deleted_edges[u.id].pop(v.id)
+            self.add_edge(
+                u, v, deleted_edge.metadata, edge_type=deleted_edge.edge_type
+            )
 
         if v.id in self.edges and u.id in self.edges[v.id]:
             self.edges[v.id][u.id].deleted = False
             self._reverse_edges[u.id][v.id].deleted = False
         else:
-            self.add_edge(v, u, self._deleted_edges[v.id][u.id].metadata)
-            del self._deleted_edges[v.id][u.id]
+            deleted_edge = self._deleted_edges[v.id].pop(u.id)
+            self.add_edge(
+                v, u, deleted_edge.metadata, edge_type=deleted_edge.edge_type
+            )
 
     def remove_directed_edge(self, u: Node, v: Node, soft_delete: bool = False):
         """
@@ -851,8 +855,10 @@ class GraphManager(GraphBaseAccessMixin, BaseGraphInterface):
             self.edges[u.id][v.id].deleted = False
             self._reverse_edges[v.id][u.id].deleted = False
         else:
-            self.add_directed_edge(u, v, self._deleted_edges[u.id][v.id].metadata)
-            del self._deleted_edges[u.id][v.id]
+            deleted_edge = self._deleted_edges[u.id].pop(v.id)
+            self.add_directed_edge(
+                u, v, deleted_edge.metadata, edge_type=deleted_edge.edge_type
+            )
 
     def update_edge(
         self,
-- 
2.43.0


From 2e83fe6f7134dd3bf6d21279918c64884a7f32d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:59:22 +0000
Subject: [PATCH 04/62] fix: a path with one blocking collider is blocked even
 if a later collider is open

---
 causy/graph.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/causy/graph.py b/causy/graph.py
index d97010a..645e9cf 100644
--- a/causy/graph.py
+++ b/causy/graph.py
@@ -340,15 +340,15 @@ class GraphBaseAccessMixin:
         Check if a path is blocked by a collider which is not in the conditioning set and has no descendants in the conditioning set.
         :return: Boolean indicating if the path is blocked
         """
-        is_path_blocked = False
         for i in range(1, len(path) - 1):
             if self._is_collider(path[i - 1], path[i], path[i + 1]):
                 # if the node is a collider, check if the node or any of its descendants are in the conditioning set
-                is_path_blocked = True
-                for descendant in self.descendants_of_node(path[i]):
-                    if descendant in conditioning_set:
-                        is_path_blocked = False
-        return is_path_blocked
+                if not any(
+                    descendant in conditioning_set
+                    for descendant in self.descendants_of_node(path[i])
+                ):
+                    return True
+        return False
 
     def _is_a_non_collider_in_conditioning_set(self, path, conditioning_set) -> bool:
         """
-- 
2.43.0


From 80a69c0664d061bcfbc0c1fa3b5f9fcd5e2a011c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:59:22 +0000
Subject: [PATCH 05/62] fix: d-separation accepts node ids in the conditioning
 set and rejects u or v in it

---
 causy/graph.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/causy/graph.py b/causy/graph.py
index 645e9cf..4d7969c 100644
--- a/causy/graph.py
+++ b/causy/graph.py
@@ -392,8 +392,14 @@ class GraphBaseAccessMixin:
         if isinstance(v, Node):
             v = v.id
 
+        # the conditioning set may contain nodes or node ids
+        conditioning_set = {
+            node if isinstance(node, Node) else self.nodes[node]
+            for node in conditioning_set
+        }
+
         # u and v may not be in the conditioning set, throw error
-        if u in conditioning_set or v in conditioning_set:
+        if self.nodes[u] in conditioning_set or self.nodes[v] in conditioning_set:
             raise ValueError("Nodes u and v may not be in the conditioning set")
 
         # If there are no paths between u and v, they are d-separated
@@ -441,8 +447,14 @@ class GraphBaseAccessMixin:
         if isinstance(v, Node):
             v = v.id
 
+        # the conditioning set may contain nodes or node ids
+        conditioning_set = {
+            node if isinstance(node, Node) else self.nodes[node]
+            for node in conditioning_set
+        }
+
         # u and v may not be in the conditioning set, throw error
-        if u in conditioning_set or v in conditioning_set:
+        if self.nodes[u] in conditioning_set or self.nodes[v] in conditioning_set:
             raise ValueError("Nodes u and v may not be in the conditioning set")
 
         # If there are no paths between u and v, they are d-separated
-- 
2.43.0


From 00677a0711d1b21308dde3d51c769496be53d9c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:59:22 +0000
Subject: [PATCH 06/62] fix: paths which are not of definite status do not
 connect nodes in a CPDAG

---
 causy/graph.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/causy/graph.py b/causy/graph.py
index 4d7969c..6190fa3 100644
--- a/causy/graph.py
+++ b/causy/graph.py
@@ -466,14 +466,16 @@ class GraphBaseAccessMixin:
             # If the path only has two nodes, it cannot be blocked and is open. Therefore, u and v are not d-separated
             if len(path) == 2:
                 return False
+            # only paths of definite status can connect u and v
+            if not self._is_path_of_definite_status(path):
+                continue
             is_path_blocked = False
-            if self._is_path_of_definite_status(path):
-                if self._is_definite_noncollider_in_conditioning_set(
-                    path, conditioning_set
-                ):
-                    is_path_blocked = True
-                if self._is_a_collider_blocking(path, conditioning_set):
-                    is_path_blocked = True
+            if self._is_definite_noncollider_in_conditioning_set(
+                path, conditioning_set
+            ):
+                is_path_blocked = True
+            if self._is_a_collider_blocking(path, conditioning_set):
+                is_path_blocked = True
             list_of_results_for_paths.append(is_path_blocked)
         if False in list_of_results_for_paths:
             return False
-- 
2.43.0


From 0e9ec7b1100949cad4efc6005b3d85f02b94cca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:59:22 +0000
Subject: [PATCH 07/62] fix: directed_path_exists terminates on cycles and
 ignores soft deleted edges

---
 causy/graph.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/causy/graph.py b/causy/graph.py
index 6190fa3..334d770 100644
--- a/causy/graph.py
+++ b/causy/graph.py
@@ -267,11 +267,16 @@ class GraphBaseAccessMixin:
         if isinstance(v, Node):
             v = v.id
 
-        if self.directed_edge_exists(u, v):
-            return True
-        for w in self.edges[u]:
-            if self.directed_path_exists(self.nodes[w], v):
+        visited = {u}
+        stack = [u]
+        while stack:
+            node = stack.pop()
+            if self.directed_edge_exists(node, v):
                 return True
+            for w in self.edges.get(node, {}):
+                if w not in visited and self.directed_edge_exists(node, w):
+                    visited.add(w)
+                    stack.append(w)
         return False
 
     def edge_of_type_exists(
-- 
2.43.0


From 3ac9df2cc3ccd5e6925af469d379ac2c5786688a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:59:22 +0000
Subject: [PATCH 08/62] fix: directed_paths returns every directed path and
 terminates on cycles

---
 causy/edge_types.py | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/causy/edge_types.py b/causy/edge_types.py
index f789fd2..d5b62e0 100644
--- a/causy/edge_types.py
+++ b/causy/edge_types.py
@@ -61,23 +61,30 @@ class DirectedEdge(EdgeTypeInterface, Generic[EdgeTypeInterfaceType]):
             return u, v
 
         def directed_paths(
-            self, u: Union[NodeInterface, str], v: Union[NodeInterface, str]
+            self,
+            u: Union[NodeInterface, str],
+            v: Union[NodeInterface, str],
+            visited: frozenset = frozenset(),
         ) -> List[List[Tuple[NodeInterface, NodeInterface]]]:
             """
-            Return all directed paths from u to v
+            Return all directed paths from u to v (paths do not visit a node twice)
             :param u: node u
             :param v: node v
+            :param visited: ids of the nodes which are already on the path
             :return: list of directed paths
             """
             u, v = self._resolve_node_references(u, v)
             # TODO: try a better data structure for this
-            if self.directed_edge_exists(u, v):
-                return [[(u, v)]]
+            visited = visited | {u.id}
             paths = []
-            for w in self.edges[u.id]:
-                if self.directed_edge_exists(u, self.nodes[w]):
-                    for path in self.directed_paths(self.nodes[w], v):
-                        paths.append([(u, self.nodes[w])] + path)
+            for w in self.edges.get(u.id, {}):
+                if w in visited or not self.directed_edge_exists(u, self.nodes[w]):
+                    continue
+                if w == v.id:
+                    paths.append([(u, v)])
+                    continue
+                for path in self.directed_paths(self.nodes[w], v, visited):
+                    paths.append([(u, self.nodes[w])] + path)
             return paths
 
 
-- 
2.43.0


From 3e61811b693fc307e74ee2da12529bd069c8da29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:59:22 +0000
Subject: [PATCH 09/62] fix: parents_of_node of a node without any edges is
 empty

---
 causy/graph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/causy/graph.py b/causy/graph.py
index 334d770..3f5d3ec 100644
--- a/causy/graph.py
+++ b/causy/graph.py
@@ -95,7 +95,7 @@ class GraphBaseAccessMixin:
 
         return [
             self.nodes[n]
-            for n in self._reverse_edges[u].keys()
+            for n in self._reverse_edges.get(u, {}).keys()
             if not self.directed_edge_is_soft_deleted(n, u)
         ]
 
-- 
2.43.0


From 6b77bed432d32ee5702c921684e0df29cea88433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:59:22 +0000
Subject: [PATCH 10/62] fix: the history of a pair which was never connected is
 empty

---
 causy/graph.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/causy/graph.py b/causy/graph.py
index 3f5d3ec..3ebd936 100644
--- a/causy/graph.py
+++ b/causy/graph.py
@@ -246,12 +246,12 @@ class GraphBaseAccessMixin:
         if isinstance(v, Node):
             v = v.id
 
-        if action is None:
-            return self.edge_history[(u, v)]
-
         if (u, v) not in self.edge_history:
             return []
 
+        if action is None:
+            return self.edge_history[(u, v)]
+
         return [i for i in self.edge_history[(u, v)] if i.action == action]
 
     def directed_path_exists(self, u: Union[Node, str], v: Union[Node, str]) -> bool:
-- 
2.43.0


From c88247a27480241967b3838c4112ddbeb64ab37b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:00:56 +0000
Subject: [PATCH 11/62] fix: orientation rules never propose both directions of
 an edge and thereby remove it

---
 .../constraint/orientation_rules/pc.py        | 47 ++++++++++++++++---
 1 file changed, 41 insertions(+), 6 deletions(-)

diff --git a/causy/causal_discovery/constraint/orientation_rules/pc.py b/causy/causal_discovery/constraint/orientation_rules/pc.py
index aa0e1c1..0149953 100644
--- a/causy/causal_discovery/constraint/orientation_rules/pc.py
+++ b/causy/causal_discovery/constraint/orientation_rules/pc.py
@@ -62,6 +62,23 @@ def generate_restores(unapplied_actions):
     return results
 
 
+def drop_contradicting_orientations(results, unapplied_actions):
+    """
+    Drop orientations of edges for which the opposite orientation was already proposed. Applying both would remove the
+    edge from the graph.
+    :param results: list of orientations proposed by a rule
+    :param unapplied_actions: list of actions that have not been applied to the graph yet
+    :return: list of orientations without contradictions
+    """
+    consistent_results = []
+    for result in results:
+        if not filter_unapplied_actions(
+            [*(unapplied_actions or []), consistent_results], result.v, result.u
+        ):
+            consistent_results.append(result)
+    return consistent_results
+
+
 class ColliderTestConflictResolutionStrategies(str, enum.Enum):
     """
     Enum for the conflict resolution strategies for the ColliderTest.
@@ -314,13 +331,19 @@ class FurtherOrientTripleTest(
     chunk_size_parallel_processing: IntegerParameter = 1
     parallel: BoolParameter = False
 
+    needs_unapplied_actions: BoolParameter = True
+
     def process(
-        self, nodes: Tuple[str], graph: BaseGraphInterface
+        self,
+        nodes: Tuple[str],
+        graph: BaseGraphInterface,
+        unapplied_actions: Optional[List[TestResult]] = None,
     ) -> Optional[List[TestResult] | TestResult]:
         """
         Further orientation rule.
         :param nodes: list of nodes
         :param graph: the current graph
+        :param unapplied_actions: list of actions that have not been applied to the graph yet
         :returns: list of actions that will be executed on graph
         """
 
@@ -360,7 +383,7 @@ class FurtherOrientTripleTest(
                         data={"between": {"x": x, "y": y, "z": z}},
                     )
                 )
-        return results
+        return drop_contradicting_orientations(results, unapplied_actions)
 
 
 class OrientQuadrupleTest(
@@ -372,13 +395,19 @@ class OrientQuadrupleTest(
     chunk_size_parallel_processing: IntegerParameter = 1
     parallel: BoolParameter = False
 
+    needs_unapplied_actions: BoolParameter = True
+
     def process(
-        self, nodes: Tuple[str], graph: BaseGraphInterface
+        self,
+        nodes: Tuple[str],
+        graph: BaseGraphInterface,
+        unapplied_actions: Optional[List[TestResult]] = None,
     ) -> Optional[List[TestResult] | TestResult]:
         """
         Further orientation rule.
         :param nodes: list of nodes
         :param graph: the current graph
+        :param unapplied_actions: list of actions that have not been applied to the graph yet
         :returns: list of actions that will be executed on graph
         """
 
@@ -428,7 +457,7 @@ class OrientQuadrupleTest(
                         data={},
                     )
                 )
-        return results
+        return drop_contradicting_orientations(results, unapplied_actions)
 
 
 class FurtherOrientQuadrupleTest(
@@ -440,13 +469,19 @@ class FurtherOrientQuadrupleTest(
     chunk_size_parallel_processing: int = 1
     parallel: bool = False
 
+    needs_unapplied_actions: BoolParameter = True
+
     def process(
-        self, nodes: Tuple[str], graph: BaseGraphInterface
+        self,
+        nodes: Tuple[str],
+        graph: BaseGraphInterface,
+        unapplied_actions: Optional[List[TestResult]] = None,
     ) -> Optional[List[TestResult] | TestResult]:
         """
         Further orientation rule.
         :param nodes: list of nodes
         :param graph: the current graph
+        :param unapplied_actions: list of actions that have not been applied to the graph yet
         :returns: list of actions that will be executed on graph
         """
 
@@ -528,4 +563,4 @@ class FurtherOrientQuadrupleTest(
                         data={},
                     )
                 )
-        return results
+        return drop_contradicting_orientations(results, unapplied_actions)
-- 
2.43.0


From a1a9fcd12735113bb93c02e6b250d0a898a35d7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:05:37 +0000
Subject: [PATCH 12/62] fix: neighbours are visited in graph order so results
 do not depend on the hash seed

---
 .../constraint/orientation_rules/pc.py           | 16 ++++++----------
 causy/generators.py                              | 12 +++++-------
 2 files changed, 11 insertions(+), 17 deletions(-)

diff --git a/causy/causal_discovery/constraint/orientation_rules/pc.py b/causy/causal_discovery/constraint/orientation_rules/pc.py
index 0149953..889ed7c 100644
--- a/causy/causal_discovery/constraint/orientation_rules/pc.py
+++ b/causy/causal_discovery/constraint/orientation_rules/pc.py
@@ -133,9 +133,7 @@ class ColliderTest(
             return
 
         # if u and v are NOT adjacent, store all shared adjacent nodes
-        potential_zs = set(graph.edges[x.id].keys()).intersection(
-            set(graph.edges[y.id].keys())
-        )
+        potential_zs = [z for z in graph.edges[x.id] if z in graph.edges[y.id]]
 
         actions = graph.retrieve_edge_history(
             x, y, TestResultAction.REMOVE_EDGE_UNDIRECTED
@@ -259,9 +257,7 @@ class NonColliderTest(
             return
 
         # if u and v are NOT adjacent, store all shared adjacent nodes
-        potential_zs = set(graph.edges[x.id].keys()).intersection(
-            set(graph.edges[y.id].keys())
-        )
+        potential_zs = [z for z in graph.edges[x.id] if z in graph.edges[y.id]]
         # if one edge has an arrowhead at z, orient the other one pointing away from z.
         # It cannot be a collider because we have already oriented all unshielded triples that contain colliders.
         for z in potential_zs:
@@ -414,13 +410,13 @@ class OrientQuadrupleTest(
         y = graph.nodes[nodes[0]]
         w = graph.nodes[nodes[1]]
 
-        potential_zs = set()
+        potential_zs = []
 
         # TODO: just iterate over edges
         for z in graph.nodes:
             z = graph.nodes[z]
             if graph.edge_exists(y, z) and graph.edge_exists(z, w):
-                potential_zs.add(z)
+                potential_zs.append(z)
 
         results = []
         for zs in itertools.combinations(potential_zs, 2):
@@ -488,13 +484,13 @@ class FurtherOrientQuadrupleTest(
         x = graph.nodes[nodes[0]]
         w = graph.nodes[nodes[1]]
 
-        potential_zs = set()
+        potential_zs = []
 
         # TODO: just iterate over edges
         for z in graph.nodes:
             z = graph.nodes[z]
             if graph.edge_exists(x, z) and graph.edge_exists(z, w):
-                potential_zs.add(z)
+                potential_zs.append(z)
 
         results = []
         for zs in itertools.combinations(potential_zs, 2):
diff --git a/causy/generators.py b/causy/generators.py
index 73a3219..eec7feb 100644
--- a/causy/generators.py
+++ b/causy/generators.py
@@ -153,13 +153,11 @@ class PairsWithNeighboursGenerator(GeneratorInterface):
                         yield [[node, neighbour]]
                         continue
 
-                    other_neighbours = set(
-                        [
-                            k
-                            for k, value in graph.edges[node].items()
-                            if graph.directed_edge_exists(k, node)
-                        ]
-                    )
+                    other_neighbours = [
+                        k
+                        for k, value in graph.edges[node].items()
+                        if graph.directed_edge_exists(k, node)
+                    ]
                     logger.info(f"other_neighbors before removal={other_neighbours}")
 
                     if neighbour in other_neighbours:
-- 
2.43.0


From 1c12c8f14a01c4167c944843488576cb5cae6527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:05:37 +0000
Subject: [PATCH 13/62] fix: independence tests handle perfect correlations and
 very small samples

---
 .../constraint/independence_tests/common.py   | 33 ++++---------------
 causy/math_utils.py                           | 25 ++++++++++++++
 2 files changed, 32 insertions(+), 26 deletions(-)

diff --git a/causy/causal_discovery/constraint/independence_tests/common.py b/causy/causal_discovery/constraint/independence_tests/common.py
index aa3f84b..f92a19b 100644
--- a/causy/causal_discovery/constraint/independence_tests/common.py
+++ b/causy/causal_discovery/constraint/independence_tests/common.py
@@ -1,13 +1,10 @@
-import itertools
-import math
 from typing import Tuple, List, Optional, Generic
 import logging
 
 import torch
-from scipy import stats
 
 from causy.generators import AllCombinationsGenerator, PairsWithNeighboursGenerator
-from causy.math_utils import get_t_and_critical_t
+from causy.math_utils import get_fisher_z_p_value, get_t_and_critical_t
 from causy.interfaces import (
     PipelineStepInterface,
     BaseGraphInterface,
@@ -46,14 +43,8 @@ class CorrelationCoefficientTest(
         sample_size = len(x.values)
         corr = graph.edge_value(x, y)["correlation"]
 
-        # Fisher's Z transformation
-        fisher_z = 0.5 * math.log((1 + corr) / (1 - corr))
-
-        # Use absolute value of fisher_z for a two-tailed test
-        z_value = abs(fisher_z) * math.sqrt(sample_size - 3)
-
         # Compute the p-value
-        p_value = 2 * (1 - stats.norm.cdf(z_value))
+        p_value = get_fisher_z_p_value(sample_size, 0, corr)
 
         # If the p value is smaller than the threshold, the null hypothesis (independence) is rejected, otherwise we accept it and delete the edge
         if p_value > self.threshold:
@@ -124,7 +115,7 @@ class PartialCorrelationTest(
 
             # Avoid division by zero
             if denominator == 0:
-                return
+                continue
 
             par_corr = numerator / denominator
 
@@ -132,14 +123,8 @@ class PartialCorrelationTest(
             sample_size = len(x.values)
             nb_of_control_vars = len(nodes) - 2
 
-            # Fisher's Z transformation
-            fisher_z = 0.5 * math.log((1 + par_corr) / (1 - par_corr))
-
-            # Use absolute value of fisher_z for a two-tailed test
-            z_value = abs(fisher_z) * math.sqrt(sample_size - nb_of_control_vars - 3)
-
             # Compute the p-value
-            p_value = 2 * (1 - stats.norm.cdf(z_value))
+            p_value = get_fisher_z_p_value(sample_size, nb_of_control_vars, par_corr)
 
             # If the p value is smaller than the threshold, the null hypothesis (conditional independence) is rejected, otherwise we accept it and delete the edge
             if p_value > self.threshold:
@@ -230,14 +215,10 @@ class ExtendedPartialCorrelationTestMatrix(
         sample_size = len(graph.nodes[nodes[0]].values)
         nb_of_control_vars = len(nodes) - 2
 
-        # Fisher's Z transformation
-        fisher_z = 0.5 * math.log((1 + par_corr) / (1 - par_corr))
-
-        # Use absolute value of fisher_z for a two-tailed test
-        z_value = abs(fisher_z) * math.sqrt(sample_size - nb_of_control_vars - 3)
-
         # Compute the p-value
-        p_value = 2 * (1 - stats.norm.cdf(z_value))
+        p_value = get_fisher_z_p_value(
+            sample_size, nb_of_control_vars, par_corr.item()
+        )
 
         # If the p value is smaller than the threshold, the null hypothesis (conditional independence) is rejected, otherwise we accept it and delete the edge
         nodes_set = set([graph.nodes[n] for n in nodes])
diff --git a/causy/math_utils.py b/causy/math_utils.py
index c679e66..e1f9105 100644
--- a/causy/math_utils.py
+++ b/causy/math_utils.py
@@ -14,12 +14,37 @@ def sum_lists(*lists):
     return list(map(sum, zip(*lists)))
 
 
+def get_fisher_z_p_value(sample_size, nb_of_control_vars, corr):
+    """
+    p-value of Fisher's Z test (two-tailed) for a (partial) correlation
+    :param sample_size: number of observations
+    :param nb_of_control_vars: number of variables we condition on
+    :param corr: the (partial) correlation
+    :return: p-value
+    """
+    # perfectly correlated variables are dependent (Fisher's Z transformation is not defined for them)
+    if abs(corr) >= 1:
+        return 0.0
+
+    # Fisher's Z transformation
+    fisher_z = 0.5 * math.log((1 + corr) / (1 - corr))
+
+    # Use absolute value of fisher_z for a two-tailed test
+    z_value = abs(fisher_z) * math.sqrt(max(sample_size - nb_of_control_vars - 3, 0))
+
+    # Compute the p-value
+    return 2 * (1 - scipy_stats.norm.cdf(z_value))
+
+
 def get_t_and_critical_t(sample_size, nb_of_control_vars, par_corr, threshold):
     # TODO: rewrite this function with torch
     # check if we have to normalize data
     deg_of_freedom = sample_size - 2 - nb_of_control_vars
     if abs(round(par_corr, 4)) == 1:
         return (1, 0)
+    # there are not enough observations to find a dependence
+    if deg_of_freedom <= 0:
+        return (0, math.inf)
     critical_t = scipy_stats.t.ppf(1 - threshold / 2, deg_of_freedom)
     t = par_corr * math.sqrt(deg_of_freedom / (1 - par_corr**2))
     return t, critical_t
-- 
2.43.0


From 18c03067462ffd0db2a51a2b8a36b5a9dbf70c02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:05:37 +0000
Subject: [PATCH 14/62] fix: a constant variable is uncorrelated instead of
 having a NaN correlation

---
 causy/common_pipeline_steps/calculation.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/causy/common_pipeline_steps/calculation.py b/causy/common_pipeline_steps/calculation.py
index 60e0ef5..ceeb5a0 100644
--- a/causy/common_pipeline_steps/calculation.py
+++ b/causy/common_pipeline_steps/calculation.py
@@ -37,9 +37,11 @@ class CalculatePearsonCorrelations(
         cov_xy = torch.mean((x_val - x_val.mean()) * (y_val - y_val.mean()))
         std_x = x_val.std(unbiased=False)
         std_y = y_val.std(unbiased=False)
-        pearson_correlation = cov_xy / (std_x * std_y)
-
-        correlation = pearson_correlation.item()
+        # a constant variable is uncorrelated with every other variable
+        if std_x == 0 or std_y == 0:
+            correlation = 0.0
+        else:
+            correlation = (cov_xy / (std_x * std_y)).item()
 
         # Clamp the correlation to -1 and 1 to avoid numerical errors
         if correlation < -1:
-- 
2.43.0


From 2afc6a7392b30188f2798a5a1dacd2c4503e0120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:05:37 +0000
Subject: [PATCH 15/62] fix: direct effects of variables which are not centered
 are estimated with an intercept

---
 .../causal_effect_estimation/multivariate_regression.py  | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/causy/causal_effect_estimation/multivariate_regression.py b/causy/causal_effect_estimation/multivariate_regression.py
index bda11b6..ade65d0 100644
--- a/causy/causal_effect_estimation/multivariate_regression.py
+++ b/causy/causal_effect_estimation/multivariate_regression.py
@@ -48,8 +48,15 @@ class ComputeDirectEffectsInDAGsMultivariateRegression(PipelineStepInterface):
             ],
             dim=1,
         )
+        # center the variables, otherwise the regression would be forced through the origin
+        effect_variable_parents_values = (
+            effect_variable_parents_values
+            - effect_variable_parents_values.mean(dim=0, keepdim=True)
+        )
         # multivariate regression via tridiagonal reduction and SVD, see torch documentation
-        reshaped_effect_variable_values = effect_variable.values.view(-1, 1)
+        reshaped_effect_variable_values = (
+            effect_variable.values - effect_variable.values.mean()
+        ).view(-1, 1)
 
         coefficients = torch.linalg.lstsq(
             effect_variable_parents_values,
-- 
2.43.0


From 7305e2f8f76d403fabbc92913aacfdfa146aefbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:05:37 +0000
Subject: [PATCH 16/62] fix: partial correlation via regression does not depend
 on the mean of the variables

---
 .../causal_discovery/constraint/independence_tests/common.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/causy/causal_discovery/constraint/independence_tests/common.py b/causy/causal_discovery/constraint/independence_tests/common.py
index f92a19b..4c193c7 100644
--- a/causy/causal_discovery/constraint/independence_tests/common.py
+++ b/causy/causal_discovery/constraint/independence_tests/common.py
@@ -271,6 +271,11 @@ def partial_correlation_regression(x, y, z):
     Returns:
     partial_corr : torch.Tensor : Partial correlation coefficient between x and y.
     """
+    # Center the variables, otherwise the regression would be forced through the origin
+    x = x - x.mean()
+    y = y - y.mean()
+    z = z - z.mean(dim=1, keepdim=True)
+
     # Define linear regression model
     model_x = torch.linalg.lstsq(z.T, x).solution
     model_y = torch.linalg.lstsq(z.T, y).solution
-- 
2.43.0


From e1172e03a763a5c76947013a2ffcb2fbe74e61d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:08:06 +0000
Subject: [PATCH 17/62] fix: test results can carry the edge type that
 UPDATE_EDGE_TYPE actions apply

---
 causy/models.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/causy/models.py b/causy/models.py
index 96f5f13..ede176f 100644
--- a/causy/models.py
+++ b/causy/models.py
@@ -57,6 +57,7 @@ class TestResult(TestResultInterface):
     v: NodeInterface
     action: TestResultAction
     data: Optional[Dict] = None
+    edge_type: Optional[EdgeTypeInterface] = None
 
 
 class AlgorithmReferenceType(str, enum.Enum):
-- 
2.43.0


From 96d427d01d15217b9a51ca153d444aa697129ab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:08:06 +0000
Subject: [PATCH 18/62] fix: dynamic data loaders can be loaded with and
 without options

---
 causy/data_loader.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/causy/data_loader.py b/causy/data_loader.py
index afe56e7..fc07925 100644
--- a/causy/data_loader.py
+++ b/causy/data_loader.py
@@ -111,16 +111,16 @@ class DynamicDataLoader(AbstractDataLoader):
 
     def __init__(self, reference: str, options: Optional[Dict[str, Any]] = None):
         self.reference = reference
-        self.data_loader = self._load_data_loader()
         self.options = options
+        self.data_loader = self._load_data_loader()
 
     reference: str
     data_loader: AbstractDataLoader
 
     def _load_data_loader(self) -> AbstractDataLoader:
-        module = importlib.import_module(self.reference)
+        module = importlib.import_module(self.reference.removesuffix(".DataLoader"))
         # todo: should the cls be referenced here?
-        return module.DataLoader(**self.options)
+        return module.DataLoader(**(self.options or {}))
 
     def load(self) -> Iterator[Dict[str, Union[float, int, str]]]:
         return self.data_loader.load()
-- 
2.43.0


From e01ccd3de49fed2aa11563817aecf80d8d501686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:08:06 +0000
Subject: [PATCH 19/62] fix: the jsonl loader skips blank lines

---
 causy/data_loader.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/causy/data_loader.py b/causy/data_loader.py
index fc07925..1a1fbe1 100644
--- a/causy/data_loader.py
+++ b/causy/data_loader.py
@@ -101,7 +101,8 @@ class JSONLDataLoader(FileDataLoader):
     def load(self) -> Iterator[Dict[str, Union[float, int, str]]]:
         with open(self.reference, "r") as f:
             for line in f:
-                yield json.loads(line)
+                if line.strip():
+                    yield json.loads(line)
 
 
 class DynamicDataLoader(AbstractDataLoader):
-- 
2.43.0


From 64237f7abd9401e6611ff04d2a255144cd9f6477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:08:06 +0000
Subject: [PATCH 20/62] fix: chunked pairs are generated once

---
 causy/generators.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/causy/generators.py b/causy/generators.py
index eec7feb..6e0115c 100644
--- a/causy/generators.py
+++ b/causy/generators.py
@@ -89,6 +89,7 @@ class PairsWithEdgesInBetweenGenerator(GeneratorInterface):
         if self.chunked:
             for i in range(0, len(edges), self.chunk_size):
                 yield edges[i : i + self.chunk_size]
+            return
 
         for edge in edges:
             yield edge
-- 
2.43.0


From f3d5be0e269b941bc62ce25a58b2735fa860b110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:08:06 +0000
Subject: [PATCH 21/62] fix: pairs without conditioning nodes are only wrapped
 into a chunk in chunked mode

---
 causy/generators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/causy/generators.py b/causy/generators.py
index 6e0115c..7b95cc0 100644
--- a/causy/generators.py
+++ b/causy/generators.py
@@ -151,7 +151,7 @@ class PairsWithNeighboursGenerator(GeneratorInterface):
 
                     checked_combinations.add((node, neighbour))
                     if range_size == 2:
-                        yield [[node, neighbour]]
+                        yield [[node, neighbour]] if self.chunked else [node, neighbour]
                         continue
 
                     other_neighbours = [
-- 
2.43.0


From 818fbe87129fc21cdccab27f0a067b1503e6a31a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:08:06 +0000
Subject: [PATCH 22/62] fix: pipeline steps use every setting they are
 configured with

---
 .../constraint/orientation_rules/pc.py              |  4 ++--
 causy/interfaces.py                                 | 13 +++++++++----
 2 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/causy/causal_discovery/constraint/orientation_rules/pc.py b/causy/causal_discovery/constraint/orientation_rules/pc.py
index 889ed7c..a32df8d 100644
--- a/causy/causal_discovery/constraint/orientation_rules/pc.py
+++ b/causy/causal_discovery/constraint/orientation_rules/pc.py
@@ -159,7 +159,7 @@ class ColliderTest(
                 if len(unapplied_actions_y_z) > 0 or len(unapplied_actions_x_z) > 0:
                     if (
                         ColliderTestConflictResolutionStrategies.KEEP_FIRST
-                        is self.conflict_resolution_strategy
+                        == self.conflict_resolution_strategy
                     ):
                         # We prioritize the first edge that was removed, we do nothing
                         if len(unapplied_actions_y_z) > 0:
@@ -189,7 +189,7 @@ class ColliderTest(
 
                     elif (
                         ColliderTestConflictResolutionStrategies.KEEP_LAST
-                        is self.conflict_resolution_strategy
+                        == self.conflict_resolution_strategy
                     ):
                         # We keep the last edge that was removed and restore the other edges
                         results.extend(generate_restores(unapplied_actions_x_z))
diff --git a/causy/interfaces.py b/causy/interfaces.py
index 0fbf88f..3d4a799 100644
--- a/causy/interfaces.py
+++ b/causy/interfaces.py
@@ -375,21 +375,26 @@ class PipelineStepInterface(ABC, BaseModel, Generic[PipelineStepInterfaceType]):
             else:
                 self.generator = generator
 
-        if chunk_size_parallel_processing:
+        if chunk_size_parallel_processing is not None:
             self.chunk_size_parallel_processing = chunk_size_parallel_processing
 
-        if apply_synchronous:
+        if apply_synchronous is not None:
             self.apply_synchronous = apply_synchronous
 
-        if parallel:
+        if parallel is not None:
             self.parallel = parallel
 
         if display_name:
             self.display_name = display_name
 
-        if threshold:
+        if threshold is not None:
             self.threshold = threshold
 
+        # settings which are specific to a pipeline step
+        for key, value in kwargs.items():
+            if key in self.model_fields:
+                setattr(self, key, value)
+
     @computed_field
     @property
     def name(self) -> str:
-- 
2.43.0


From 2395f0a4febcdb0a804e306c962dae579d798c6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:09:19 +0000
Subject: [PATCH 23/62] fix: serialized algorithms can be loaded and executed
 again

---
 causy/serialization.py | 6 ++++++
 causy/variables.py     | 3 ++-
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/causy/serialization.py b/causy/serialization.py
index b9f91ba..53f15ff 100644
--- a/causy/serialization.py
+++ b/causy/serialization.py
@@ -37,6 +37,12 @@ def load_algorithm_from_specification(algorithm_dict: Dict[str, Any]):
         )
     else:
         algorithm_dict["extensions"] = []
+    algorithm_dict["edge_types"] = [
+        EDGE_TYPES[edge_type["name"]](**edge_type)
+        if isinstance(edge_type, dict) and edge_type.get("name") in EDGE_TYPES
+        else edge_type
+        for edge_type in algorithm_dict.get("edge_types") or []
+    ]
     if "variables" not in algorithm_dict or algorithm_dict["variables"] is None:
         algorithm_dict["variables"] = []
 
diff --git a/causy/variables.py b/causy/variables.py
index bf59625..45aded8 100644
--- a/causy/variables.py
+++ b/causy/variables.py
@@ -256,7 +256,8 @@ def deserialize_variable_references(element: object) -> object:
         if isinstance(value, dict) and "type" in value and value["type"] == "reference":
             setattr(element, attribute, VariableReference(name=value["name"]))
 
-        if hasattr(value, "__dict__"):
+        # only models (e.g. generators) can contain references, enums for example can not
+        if isinstance(value, BaseModel):
             setattr(element, attribute, deserialize_variable_references(value))
 
     if hasattr(element, "pipeline_steps"):
-- 
2.43.0


From c63f5150493ab20505716940ccd3215e2ad8c2bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:10:04 +0000
Subject: [PATCH 24/62] fix: settings of a generator are part of the serialized
 pipeline step

---
 causy/interfaces.py | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/causy/interfaces.py b/causy/interfaces.py
index 3d4a799..5435fe5 100644
--- a/causy/interfaces.py
+++ b/causy/interfaces.py
@@ -4,7 +4,14 @@ from typing import List, Dict, Optional, Union, TypeVar, Generic, Any
 from typing_extensions import Annotated
 import logging
 
-from pydantic import BaseModel, computed_field, Field, PlainValidator, WithJsonSchema
+from pydantic import (
+    BaseModel,
+    computed_field,
+    Field,
+    field_serializer,
+    PlainValidator,
+    WithJsonSchema,
+)
 import torch
 
 from causy.graph_utils import (
@@ -332,6 +339,11 @@ class GeneratorInterface(ABC, BaseModel):
 
         self.comparison_settings = comparison_settings
 
+    @field_serializer("generator")
+    def serialize_generator(self, generator: Optional["GeneratorInterface"]):
+        # keep the settings which are specific to the generator
+        return generator.model_dump() if generator is not None else None
+
     @computed_field
     @property
     def name(self) -> str:
@@ -395,6 +407,11 @@ class PipelineStepInterface(ABC, BaseModel, Generic[PipelineStepInterfaceType]):
             if key in self.model_fields:
                 setattr(self, key, value)
 
+    @field_serializer("generator")
+    def serialize_generator(self, generator: Optional["GeneratorInterface"]):
+        # keep the settings which are specific to the generator
+        return generator.model_dump() if generator is not None else None
+
     @computed_field
     @property
     def name(self) -> str:
-- 
2.43.0


From 2d9e3c4d101d460563b2f6592778513064d52ed8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:10:04 +0000
Subject: [PATCH 25/62] fix: variables which are not set fall back to their
 default and do not leak into the algorithm definition

---
 causy/graph_model.py    | 10 ++++++----
 causy/workspaces/cli.py |  4 ++--
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/causy/graph_model.py b/causy/graph_model.py
index 51d410f..1ec1c9f 100644
--- a/causy/graph_model.py
+++ b/causy/graph_model.py
@@ -537,10 +537,12 @@ def graph_model_factory(
     :return: the graph model
     """
     original_algorithm = deepcopy(algorithm)
-    if variables is None and algorithm.variables is not None:
-        variables = resolve_variables(algorithm.variables, {})
-    elif variables is None:
-        variables = {}
+    # the algorithm which was passed in stays untouched, so it can be used again with other variables
+    algorithm = deepcopy(algorithm)
+    variables = {
+        **resolve_variables(algorithm.variables or [], {}),
+        **(variables or {}),
+    }
 
     if len(variables) > 0:
         algorithm.pipeline_steps = resolve_variables_to_algorithm_for_pipeline_steps(
diff --git a/causy/workspaces/cli.py b/causy/workspaces/cli.py
index f486b7b..5eae936 100644
--- a/causy/workspaces/cli.py
+++ b/causy/workspaces/cli.py
@@ -278,7 +278,7 @@ def _execute_experiment(workspace: Workspace, experiment: Experiment) -> Result:
 
     typer.echo(f"Loading Data: {experiment.dataloader}")
     data_loader = load_data_loader(workspace.dataloaders[experiment.dataloader])
-    model = graph_model_factory(pipeline, experiment.variables)()
+    model = graph_model_factory(pipeline, variables)()
     model.create_graph_from_data(data_loader)
     model.create_all_possible_edges()
     task_count = len(model.pipeline_steps)
@@ -309,7 +309,7 @@ def _execute_experiment(workspace: Workspace, experiment: Experiment) -> Result:
         nodes=model.graph.nodes,
         variables=variables,
         data_loader_hash=data_loader.hash(),
-        algorithm_hash=pipeline.hash(),
+        algorithm_hash=model.algorithm.hash(),
         variables_hash=hash_dictionary(variables),
     )
 
-- 
2.43.0


From 3f2326edd203cf3b51562a4acb38ac290553cb6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:11:22 +0000
Subject: [PATCH 26/62] fix: only files named after an experiment and a
 timestamp are versions of the experiment

---
 causy/workspaces/cli.py | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/causy/workspaces/cli.py b/causy/workspaces/cli.py
index 5eae936..06322d2 100644
--- a/causy/workspaces/cli.py
+++ b/causy/workspaces/cli.py
@@ -1,5 +1,6 @@
 import json
 import logging
+import re
 from collections import OrderedDict
 from datetime import datetime
 from typing import List, Dict
@@ -353,14 +354,9 @@ def _load_experiment_versions(workspace: Workspace, experiment_name: str) -> Lis
     for file in os.listdir():
         # check for files if they have the right prefix followed by a unix timestamp (int) and the file extension, e.g. experiment_123456789.json.
         # Extract the unix timestamp
-        if file.startswith(f"{experiment_name}_") and file.endswith(".json"):
-            segments = file.split("_")
-            timestamp = int(segments[-1].split(".")[0])
-            name = "_".join(segments[:-1])
-            if name != experiment_name:
-                # an experiment with a different name
-                continue
-            versions.append(timestamp)
+        match = re.fullmatch(rf"{re.escape(experiment_name)}_([0-9]+)\.json", file)
+        if match:
+            versions.append(int(match.group(1)))
     return sorted(versions, reverse=True)
 
 
-- 
2.43.0


From 65801d948b06baefb4de89b9a65be7b19e8e828a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:11:22 +0000
Subject: [PATCH 27/62] fix: file references to sibling directories with the
 same prefix are rejected

---
 causy/serialization.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/causy/serialization.py b/causy/serialization.py
index 53f15ff..9d0fa4d 100644
--- a/causy/serialization.py
+++ b/causy/serialization.py
@@ -60,8 +60,8 @@ def load_algorithm_by_reference(reference_type: str, algorithm: str):
         # validate if the reference points only in the same directory or subdirectory
         # to avoid security issues
         absolute_path = os.path.realpath(algorithm)
-        common_prefix = os.path.commonprefix([os.getcwd(), absolute_path])
-        if common_prefix != os.getcwd():
+        working_directory = os.path.realpath(os.getcwd())
+        if os.path.commonpath([working_directory, absolute_path]) != working_directory:
             raise ValueError("Invalid reference")
 
         with open(absolute_path, "r") as file:
-- 
2.43.0


From f0754d16f446899e66243d1174ab5449c14407ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:11:22 +0000
Subject: [PATCH 28/62] fix: python module references never call what is not an
 algorithm

---
 causy/serialization.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/causy/serialization.py b/causy/serialization.py
index 9d0fa4d..0fc22fa 100644
--- a/causy/serialization.py
+++ b/causy/serialization.py
@@ -87,9 +87,9 @@ def load_algorithm_by_reference(reference_type: str, algorithm: str):
         module_, ref_ = algorithm.rsplit(".", 1)
         module = importlib.import_module(module_)
         st_function = getattr(module, ref_)
-        if not st_function:
+        if not hasattr(st_function, "_original_algorithm"):
             raise ValueError(f"Algorithm {algorithm} not found")
-        return st_function()._original_algorithm
+        return copy.deepcopy(st_function._original_algorithm)
 
 
 class CausyJSONEncoder(JSONEncoder):
-- 
2.43.0


From 85d5ed46e459aea1e57b081e83158c3afe350347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:11:22 +0000
Subject: [PATCH 29/62] fix: update-variable parses bool values and rejects
 values a workspace can not store

---
 causy/workspaces/cli.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/causy/workspaces/cli.py b/causy/workspaces/cli.py
index 06322d2..9e99be3 100644
--- a/causy/workspaces/cli.py
+++ b/causy/workspaces/cli.py
@@ -1,5 +1,6 @@
 import json
 import logging
+import math
 import re
 from collections import OrderedDict
 from datetime import datetime
@@ -540,8 +541,16 @@ def update_experiment_variable(
 
     # try to cast the variable value to the correct type
     try:
-        variable_value = current_variable._PYTHON_TYPE(variable_value)
-    except ValueError:
+        if current_variable._PYTHON_TYPE is bool:
+            # bool("false") would be True
+            variable_value = {"true": True, "1": True, "false": False, "0": False}[
+                variable_value.strip().lower()
+            ]
+        else:
+            variable_value = current_variable._PYTHON_TYPE(variable_value)
+        if isinstance(variable_value, float) and not math.isfinite(variable_value):
+            raise ValueError("Values have to be finite.")
+    except (KeyError, ValueError):
         show_error(
             f'Variable {variable_name} should be {current_variable.type}. But got "{variable_value}" which is not a valid value.'
         )
-- 
2.43.0


From 636597ec000a3911d13e20299b396975e983ad8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:11:22 +0000
Subject: [PATCH 30/62] fix: the workspace file is written with the yaml
 flavour it is read with

---
 causy/workspaces/cli.py | 12 ++----------
 1 file changed, 2 insertions(+), 10 deletions(-)

diff --git a/causy/workspaces/cli.py b/causy/workspaces/cli.py
index 9e99be3..09aed9e 100644
--- a/causy/workspaces/cli.py
+++ b/causy/workspaces/cli.py
@@ -2,7 +2,6 @@ import json
 import logging
 import math
 import re
-from collections import OrderedDict
 from datetime import datetime
 from typing import List, Dict
 
@@ -12,7 +11,6 @@ import typer
 import os
 import sys
 
-import yaml
 from markdown.extensions.toc import slugify
 from pydantic_yaml import to_yaml_str
 from jinja2 import (
@@ -81,14 +79,8 @@ def show_success(message: str):
 
 def write_to_workspace(workspace: Workspace):
     workspace_path = os.path.join(os.getcwd(), WORKSPACE_FILE_NAME)
-    ordered_val = OrderedDict(json.loads(workspace.model_dump_json()))
-    yaml.add_representer(
-        OrderedDict,
-        lambda dumper, data: dumper.represent_mapping(
-            "tag:yaml.org,2002:map", data.items()
-        ),
-    )
-    output = yaml.dump(ordered_val)
+    # use the same yaml flavour for writing as for reading the workspace
+    output = to_yaml_str(workspace)
     with open(workspace_path, "w") as f:
         f.write(output)
 
-- 
2.43.0


From 38dc8ea2b72b1bd7433df159a565ccf7b569d401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:15:14 +0000
Subject: [PATCH 31/62] fix: bool variables of an experiment stay bools when
 the workspace is saved

---
 causy/variables.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/causy/variables.py b/causy/variables.py
index 45aded8..aaa376c 100644
--- a/causy/variables.py
+++ b/causy/variables.py
@@ -3,12 +3,13 @@ import enum
 from types import NoneType
 from typing import Any, Union, TypeVar, Generic, Optional, List, Dict
 
-from pydantic import BaseModel, computed_field
+from pydantic import BaseModel, StrictBool, computed_field
 
 
 VariableInterfaceType = TypeVar("VariableInterfaceType")
 
-VariableType = Union[str, int, float, bool]
+# bool comes first as pydantic would serialize bools as floats otherwise
+VariableType = Union[StrictBool, int, float, str]
 
 
 class VariableTypes(enum.Enum):
-- 
2.43.0


From c3e956af8bad46b53b0430d8e450275c51d9b812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:15:14 +0000
Subject: [PATCH 32/62] fix: an interrupted save never leaves a truncated
 workspace or result file

---
 causy/workspaces/cli.py | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/causy/workspaces/cli.py b/causy/workspaces/cli.py
index 09aed9e..d2bdd5b 100644
--- a/causy/workspaces/cli.py
+++ b/causy/workspaces/cli.py
@@ -77,12 +77,25 @@ def show_success(message: str):
     typer.echo(f"✅ {message}")
 
 
+def _write_file(path: str, content: str):
+    """
+    Write a file so that it contains either the previous or the complete new content, also if we get interrupted.
+    :param path: the path of the file
+    :param content: the new content
+    """
+    temporary_path = f"{path}.tmp"
+    with open(temporary_path, "w") as f:
+        f.write(content)
+        f.flush()
+        os.fsync(f.fileno())
+    os.replace(temporary_path, path)
+
+
 def write_to_workspace(workspace: Workspace):
     workspace_path = os.path.join(os.getcwd(), WORKSPACE_FILE_NAME)
     # use the same yaml flavour for writing as for reading the workspace
     output = to_yaml_str(workspace)
-    with open(workspace_path, "w") as f:
-        f.write(output)
+    _write_file(workspace_path, output)
 
 
 def _current_workspace(fail_if_none: bool = True) -> Workspace:
@@ -355,8 +368,10 @@ def _load_experiment_versions(workspace: Workspace, experiment_name: str) -> Lis
 
 def _save_experiment_result(workspace: Workspace, experiment_name: str, result: Result):
     timestamp = int(datetime.timestamp(result.created_at))
-    with open(f"{experiment_name}_{timestamp}.json", "w") as f:
-        f.write(json.dumps(result.model_dump(), cls=CausyJSONEncoder, indent=4))
+    _write_file(
+        f"{experiment_name}_{timestamp}.json",
+        json.dumps(result.model_dump(), cls=CausyJSONEncoder, indent=4),
+    )
 
 
 @pipeline_app.command(name="add")
@@ -697,8 +712,7 @@ def init():
         if configure_experiment:
             workspace = _create_experiment(workspace)
 
-    with open(workspace_path, "w") as f:
-        f.write(pydantic_yaml.to_yaml_str(workspace))
+    _write_file(workspace_path, pydantic_yaml.to_yaml_str(workspace))
 
     typer.echo(f"Workspace created in {workspace_path}")
 
-- 
2.43.0


From 9f62430f190afca6144dc53b602e424352b740eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:15:14 +0000
Subject: [PATCH 33/62] fix: the sample generator rejects cyclic edges instead
 of looping forever

---
 causy/sample_generator.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/causy/sample_generator.py b/causy/sample_generator.py
index 306b499..2eae866 100644
--- a/causy/sample_generator.py
+++ b/causy/sample_generator.py
@@ -155,6 +155,8 @@ class IIDSampleGenerator(AbstractSampleGenerator):
                     sorted_nodes.append(node)
                     nodes.remove(node)
                     break
+            else:
+                raise ValueError("The edges of the sample generator contain a cycle")
         return sorted_nodes
 
     def _generate_data(self, size):
-- 
2.43.0


From b19f70058ef3b57a586779f97cb11c88aa4fac79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:22:51 +0000
Subject: [PATCH 34/62] fix: removing a direction of an edge which does not
 exist is not counted as a taken action

---
 causy/graph_model.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/causy/graph_model.py b/causy/graph_model.py
index 1ec1c9f..e58416f 100644
--- a/causy/graph_model.py
+++ b/causy/graph_model.py
@@ -362,9 +362,7 @@ class AbstractGraphModel(GraphModelInterface, ABC):
                 elif i.action == TestResultAction.DO_NOTHING:
                     continue
                 elif i.action == TestResultAction.REMOVE_EDGE_DIRECTED:
-                    if not self.graph.directed_edge_exists(
-                        i.u, i.v
-                    ) and not self.graph.edge_exists(i.u, i.v):
+                    if not self.graph.directed_edge_exists(i.u, i.v):
                         logger.debug(
                             f"Tried to remove directed edge {i.u.name} -> {i.v.name}. But it does not exist."
                         )
-- 
2.43.0


From 4976ac905437bf560367f1984d3e753493462542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:24:00 +0000
Subject: [PATCH 35/62] fix: undirected updates of edges which are directed by
 now are skipped instead of failing

---
 causy/graph_model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/causy/graph_model.py b/causy/graph_model.py
index e58416f..bd6f1a0 100644
--- a/causy/graph_model.py
+++ b/causy/graph_model.py
@@ -338,7 +338,7 @@ class AbstractGraphModel(GraphModelInterface, ABC):
                     self.graph.add_edge_history(i.v, i.u, i)
                     self._execute_hook("post_edge_remove_hook", i)
                 elif i.action == TestResultAction.UPDATE_EDGE:
-                    if not self.graph.edge_exists(i.u, i.v):
+                    if not self.graph.undirected_edge_exists(i.u, i.v):
                         logger.debug(
                             f"Tried to update edge {i.u.name} -> {i.v.name}. But it does not exist."
                         )
@@ -379,7 +379,7 @@ class AbstractGraphModel(GraphModelInterface, ABC):
                     self.graph.add_edge_history(i.u, i.v, i)
                     self._execute_hook("post_edge_remove_hook", i)
                 elif i.action == TestResultAction.UPDATE_EDGE_TYPE:
-                    if not self.graph.edge_exists(i.u, i.v):
+                    if not self.graph.undirected_edge_exists(i.u, i.v):
                         logger.debug(
                             f"Tried to update edge type {i.u.name} <-> {i.v.name}. But it does not exist."
                         )
-- 
2.43.0


From e66ad13dd5a52824fa7a392047a8004ee9b3aa33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:25:13 +0000
Subject: [PATCH 36/62] fix: graph update hooks only see actions when they are
 applied and not when they are collected

---
 causy/graph_model.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/causy/graph_model.py b/causy/graph_model.py
index bd6f1a0..c69ddb1 100644
--- a/causy/graph_model.py
+++ b/causy/graph_model.py
@@ -312,6 +312,11 @@ class AbstractGraphModel(GraphModelInterface, ABC):
                 continue
             if not isinstance(result_items, list):
                 result_items = [result_items]
+            if dry_run:
+                # nothing is applied yet, so the graph update hooks are executed when the actions are taken
+                all_actions_taken.extend(result_items)
+                all_actions.extend(result_items)
+                continue
             result_items = self._execute_pre_graph_update_hooks(
                 self.algorithm.pre_graph_update_hooks, self.graph, result_items
             )
@@ -321,10 +326,6 @@ class AbstractGraphModel(GraphModelInterface, ABC):
                 if i.u is not None and i.v is not None:
                     logger.debug(f"Action: {i.action} on {i.u.name} and {i.v.name}")
 
-                if dry_run:
-                    actions_taken.append(i)
-                    continue
-
                 # execute the action returned by the test
                 if i.action == TestResultAction.REMOVE_EDGE_UNDIRECTED:
                     if not self.graph.undirected_edge_exists(i.u, i.v):
-- 
2.43.0


From 1fe99c4c44767ddd1934fb6b0f9485d96fce8929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:25:54 +0000
Subject: [PATCH 37/62] fix: the history of ApplyActionsTogether contains the
 actions which were taken instead of all collected ones

---
 causy/common_pipeline_steps/logic.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/causy/common_pipeline_steps/logic.py b/causy/common_pipeline_steps/logic.py
index 93b8f08..d0c037a 100644
--- a/causy/common_pipeline_steps/logic.py
+++ b/causy/common_pipeline_steps/logic.py
@@ -91,20 +91,21 @@ class ApplyActionsTogether(
             ) = graph_model_instance_.execute_pipeline_step(
                 pipeline_step, apply_to_graph=False
             )
+            # the actions are only collected here, so the steps did not take them yet
             steps.append(
                 ActionHistoryStep(
                     name=pipeline_step.name,
-                    actions=actions_taken,
                     all_proposed_actions=all_proposed_actions,
                     duration=time.time() - started,
                 )
             )
             actions.extend(actions_taken)
 
-        graph_model_instance_._take_action(actions)
+        actions_taken, _ = graph_model_instance_._take_action(actions)
 
         return ActionHistoryStep(
             name=self.name,
+            actions=actions_taken,
             steps=steps,
             duration=time.time() - loop_started,
         )
-- 
2.43.0


From d8200ec6ae4f947311e174deb1cf1ce0f0e14934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:43:43 +0000
Subject: [PATCH 38/62] fix: constant variables are recognised even if rounding
 gives them a tiny deviation

---
 causy/common_pipeline_steps/calculation.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/causy/common_pipeline_steps/calculation.py b/causy/common_pipeline_steps/calculation.py
index ceeb5a0..1e9b7e8 100644
--- a/causy/common_pipeline_steps/calculation.py
+++ b/causy/common_pipeline_steps/calculation.py
@@ -37,8 +37,9 @@ class CalculatePearsonCorrelations(
         cov_xy = torch.mean((x_val - x_val.mean()) * (y_val - y_val.mean()))
         std_x = x_val.std(unbiased=False)
         std_y = y_val.std(unbiased=False)
-        # a constant variable is uncorrelated with every other variable
-        if std_x == 0 or std_y == 0:
+        # a constant variable is uncorrelated with every other variable (rounding can make its std differ from zero)
+        is_constant = (x_val == x_val[0]).all() or (y_val == y_val[0]).all()
+        if is_constant or std_x == 0 or std_y == 0:
             correlation = 0.0
         else:
             correlation = (cov_xy / (std_x * std_y)).item()
-- 
2.43.0


From 24c851f0f39806f2de822e7355ddf33842ae968e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:51:18 +0000
Subject: [PATCH 39/62] fix: skipped collider proposals no longer block
 colliders they do not conflict with

---
 causy/causal_discovery/constraint/orientation_rules/pc.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/causy/causal_discovery/constraint/orientation_rules/pc.py b/causy/causal_discovery/constraint/orientation_rules/pc.py
index a32df8d..e56831b 100644
--- a/causy/causal_discovery/constraint/orientation_rules/pc.py
+++ b/causy/causal_discovery/constraint/orientation_rules/pc.py
@@ -35,7 +35,12 @@ def filter_unapplied_actions(actions, u, v):
         if result_set is None:
             continue
         for result in result_set:
-            if result.u == u and result.v == v:
+            # actions which do nothing do not orient the edge, so they can not be in conflict with anything
+            if (
+                result.u == u
+                and result.v == v
+                and result.action != TestResultAction.DO_NOTHING
+            ):
                 filtered.append(result)
     return filtered
 
-- 
2.43.0


From 0cc0c07dc8794c2971e71ff5467742eb27471de2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:07:37 +0000
Subject: [PATCH 40/62] fix: references in algorithms without any variables are
 rejected instead of staying unresolved

---
 causy/graph_model.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/causy/graph_model.py b/causy/graph_model.py
index c69ddb1..860285b 100644
--- a/causy/graph_model.py
+++ b/causy/graph_model.py
@@ -543,10 +543,9 @@ def graph_model_factory(
         **(variables or {}),
     }
 
-    if len(variables) > 0:
-        algorithm.pipeline_steps = resolve_variables_to_algorithm_for_pipeline_steps(
-            algorithm.pipeline_steps, variables
-        )
+    algorithm.pipeline_steps = resolve_variables_to_algorithm_for_pipeline_steps(
+        algorithm.pipeline_steps, variables
+    )
 
     bases = tuple()
     if algorithm.edge_types is not None:
-- 
2.43.0


From 042b220275e65218b488eba6929adb7a988e6c4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:10:54 +0000
Subject: [PATCH 41/62] fix: algorithm files are read in the yaml flavour in
 which they are written

---
 causy/serialization.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/causy/serialization.py b/causy/serialization.py
index 0fc22fa..a7eeb2d 100644
--- a/causy/serialization.py
+++ b/causy/serialization.py
@@ -7,8 +7,9 @@ from typing import Dict, Any, List
 import os
 
 import torch
-import yaml
 from pydantic import TypeAdapter
+from pydantic_yaml import parse_yaml_raw_as
+from ruamel.yaml.error import YAMLError
 
 
 from causy.edge_types import EDGE_TYPES
@@ -73,11 +74,11 @@ def load_algorithm_by_reference(reference_type: str, algorithm: str):
             except json.JSONDecodeError:
                 pass
             file.seek(0)
-            # then try yaml
+            # then try yaml (the flavour in which algorithms are written)
             try:
-                data = yaml.load(file.read(), Loader=yaml.FullLoader)
+                data = parse_yaml_raw_as(dict, file.read())
                 return load_algorithm_from_specification(data)
-            except yaml.YAMLError:
+            except YAMLError:
                 pass
             raise ValueError("Invalid file format")
 
-- 
2.43.0


From 4881616add996b9e1297ce55092c6923b9c0d03a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:12:05 +0000
Subject: [PATCH 42/62] fix: bool choices of variables keep their type when
 algorithms are written

---
 causy/variables.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/causy/variables.py b/causy/variables.py
index aaa376c..d7cd242 100644
--- a/causy/variables.py
+++ b/causy/variables.py
@@ -31,7 +31,7 @@ class BaseVariable(BaseModel, Generic[VariableInterfaceType]):
 
     name: str
     value: Union[str, int, float, bool]
-    choices: Optional[List[Union[str, int, float, bool]]] = None
+    choices: Optional[List[VariableType]] = None
 
     def is_valid(self):
         return self.is_valid_value(self.value)
-- 
2.43.0


From 05a6f6822e669c0e21980d6ae1a0f4036ee447ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:16:05 +0000
Subject: [PATCH 43/62] fix: results created within the same second no longer
 overwrite each other

---
 causy/workspaces/cli.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/causy/workspaces/cli.py b/causy/workspaces/cli.py
index d2bdd5b..6f1383f 100644
--- a/causy/workspaces/cli.py
+++ b/causy/workspaces/cli.py
@@ -368,6 +368,9 @@ def _load_experiment_versions(workspace: Workspace, experiment_name: str) -> Lis
 
 def _save_experiment_result(workspace: Workspace, experiment_name: str, result: Result):
     timestamp = int(datetime.timestamp(result.created_at))
+    # never overwrite a previous version which was created within the same second
+    while os.path.exists(f"{experiment_name}_{timestamp}.json"):
+        timestamp += 1
     _write_file(
         f"{experiment_name}_{timestamp}.json",
         json.dumps(result.model_dump(), cls=CausyJSONEncoder, indent=4),
-- 
2.43.0


From 56bb5c9923a13fc89207c5d31214eeb015b677b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:22:36 +0000
Subject: [PATCH 44/62] Revert "fix: partial correlation via regression does
 not depend on the mean of the variables"

This reverts commit 7305e2f8f76d403fabbc92913aacfdfa146aefbc.
---
 .../causal_discovery/constraint/independence_tests/common.py | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/causy/causal_discovery/constraint/independence_tests/common.py b/causy/causal_discovery/constraint/independence_tests/common.py
index 4c193c7..f92a19b 100644
--- a/causy/causal_discovery/constraint/independence_tests/common.py
+++ b/causy/causal_discovery/constraint/independence_tests/common.py
@@ -271,11 +271,6 @@ def partial_correlation_regression(x, y, z):
     Returns:
     partial_corr : torch.Tensor : Partial correlation coefficient between x and y.
     """
-    # Center the variables, otherwise the regression would be forced through the origin
-    x = x - x.mean()
-    y = y - y.mean()
-    z = z - z.mean(dim=1, keepdim=True)
-
     # Define linear regression model
     model_x = torch.linalg.lstsq(z.T, x).solution
     model_y = torch.linalg.lstsq(z.T, y).solution
-- 
2.43.0


From aee75ce05889d662985e14ddf0ff0fc67287014d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:22:36 +0000
Subject: [PATCH 45/62] Revert "fix: independence tests handle perfect
 correlations and very small samples"

This reverts commit 1c12c8f14a01c4167c944843488576cb5cae6527.
---
 .../constraint/independence_tests/common.py   | 33 +++++++++++++++----
 causy/math_utils.py                           | 25 --------------
 2 files changed, 26 insertions(+), 32 deletions(-)

diff --git a/causy/causal_discovery/constraint/independence_tests/common.py b/causy/causal_discovery/constraint/independence_tests/common.py
index f92a19b..aa3f84b 100644
--- a/causy/causal_discovery/constraint/independence_tests/common.py
+++ b/causy/causal_discovery/constraint/independence_tests/common.py
@@ -1,10 +1,13 @@
+import itertools
+import math
 from typing import Tuple, List, Optional, Generic
 import logging
 
 import torch
+from scipy import stats
 
 from causy.generators import AllCombinationsGenerator, PairsWithNeighboursGenerator
-from causy.math_utils import get_fisher_z_p_value, get_t_and_critical_t
+from causy.math_utils import get_t_and_critical_t
 from causy.interfaces import (
     PipelineStepInterface,
     BaseGraphInterface,
@@ -43,8 +46,14 @@ class CorrelationCoefficientTest(
         sample_size = len(x.values)
         corr = graph.edge_value(x, y)["correlation"]
 
+        # Fisher's Z transformation
+        fisher_z = 0.5 * math.log((1 + corr) / (1 - corr))
+
+        # Use absolute value of fisher_z for a two-tailed test
+        z_value = abs(fisher_z) * math.sqrt(sample_size - 3)
+
         # Compute the p-value
-        p_value = get_fisher_z_p_value(sample_size, 0, corr)
+        p_value = 2 * (1 - stats.norm.cdf(z_value))
 
         # If the p value is smaller than the threshold, the null hypothesis (independence) is rejected, otherwise we accept it and delete the edge
         if p_value > self.threshold:
@@ -115,7 +124,7 @@ class PartialCorrelationTest(
 
             # Avoid division by zero
             if denominator == 0:
-                continue
+                return
 
             par_corr = numerator / denominator
 
@@ -123,8 +132,14 @@ class PartialCorrelationTest(
             sample_size = len(x.values)
             nb_of_control_vars = len(nodes) - 2
 
+            # Fisher's Z transformation
+            fisher_z = 0.5 * math.log((1 + par_corr) / (1 - par_corr))
+
+            # Use absolute value of fisher_z for a two-tailed test
+            z_value = abs(fisher_z) * math.sqrt(sample_size - nb_of_control_vars - 3)
+
             # Compute the p-value
-            p_value = get_fisher_z_p_value(sample_size, nb_of_control_vars, par_corr)
+            p_value = 2 * (1 - stats.norm.cdf(z_value))
 
             # If the p value is smaller than the threshold, the null hypothesis (conditional independence) is rejected, otherwise we accept it and delete the edge
             if p_value > self.threshold:
@@ -215,10 +230,14 @@ class ExtendedPartialCorrelationTestMatrix(
         sample_size = len(graph.nodes[nodes[0]].values)
         nb_of_control_vars = len(nodes) - 2
 
+        # Fisher's Z transformation
+        fisher_z = 0.5 * math.log((1 + par_corr) / (1 - par_corr))
+
+        # Use absolute value of fisher_z for a two-tailed test
+        z_value = abs(fisher_z) * math.sqrt(sample_size - nb_of_control_vars - 3)
+
         # Compute the p-value
-        p_value = get_fisher_z_p_value(
-            sample_size, nb_of_control_vars, par_corr.item()
-        )
+        p_value = 2 * (1 - stats.norm.cdf(z_value))
 
         # If the p value is smaller than the threshold, the null hypothesis (conditional independence) is rejected, otherwise we accept it and delete the edge
         nodes_set = set([graph.nodes[n] for n in nodes])
diff --git a/causy/math_utils.py b/causy/math_utils.py
index e1f9105..c679e66 100644
--- a/causy/math_utils.py
+++ b/causy/math_utils.py
@@ -14,37 +14,12 @@ def sum_lists(*lists):
     return list(map(sum, zip(*lists)))
 
 
-def get_fisher_z_p_value(sample_size, nb_of_control_vars, corr):
-    """
-    p-value of Fisher's Z test (two-tailed) for a (partial) correlation
-    :param sample_size: number of observations
-    :param nb_of_control_vars: number of variables we condition on
-    :param corr: the (partial) correlation
-    :return: p-value
-    """
-    # perfectly correlated variables are dependent (Fisher's Z transformation is not defined for them)
-    if abs(corr) >= 1:
-        return 0.0
-
-    # Fisher's Z transformation
-    fisher_z = 0.5 * math.log((1 + corr) / (1 - corr))
-
-    # Use absolute value of fisher_z for a two-tailed test
-    z_value = abs(fisher_z) * math.sqrt(max(sample_size - nb_of_control_vars - 3, 0))
-
-    # Compute the p-value
-    return 2 * (1 - scipy_stats.norm.cdf(z_value))
-
-
 def get_t_and_critical_t(sample_size, nb_of_control_vars, par_corr, threshold):
     # TODO: rewrite this function with torch
     # check if we have to normalize data
     deg_of_freedom = sample_size - 2 - nb_of_control_vars
     if abs(round(par_corr, 4)) == 1:
         return (1, 0)
-    # there are not enough observations to find a dependence
-    if deg_of_freedom <= 0:
-        return (0, math.inf)
     critical_t = scipy_stats.t.ppf(1 - threshold / 2, deg_of_freedom)
     t = par_corr * math.sqrt(deg_of_freedom / (1 - par_corr**2))
     return t, critical_t
-- 
2.43.0


From 2da755b7d6be9d90d3dee593f025aad96b30e0ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:22:47 +0000
Subject: [PATCH 46/62] fix: pipeline skeletons are valid python for every
 pipeline name

---
 causy/workspaces/cli.py                    | 3 ++-
 causy/workspaces/templates/pipeline.py.tpl | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/causy/workspaces/cli.py b/causy/workspaces/cli.py
index 6f1383f..4ae59f8 100644
--- a/causy/workspaces/cli.py
+++ b/causy/workspaces/cli.py
@@ -178,8 +178,9 @@ def _create_pipeline(workspace: Workspace = None) -> Workspace:
     elif pipeline_creation == "SKELETON":
         pipeline_name = questionary.text("Enter the name of the pipeline").ask()
         pipeline_slug = slugify(pipeline_name, "_")
+        # the name becomes a python literal, it might contain quotes or backslashes
         JINJA_ENV.get_template("pipeline.py.tpl").stream(
-            pipeline_name=pipeline_name
+            pipeline_name=repr(pipeline_name)
         ).dump(f"{pipeline_slug}.py")
         pipeline = AlgorithmReference(
             reference=f"{pipeline_slug}.PIPELINE",
diff --git a/causy/workspaces/templates/pipeline.py.tpl b/causy/workspaces/templates/pipeline.py.tpl
index 39390ea..2ee736d 100644
--- a/causy/workspaces/templates/pipeline.py.tpl
+++ b/causy/workspaces/templates/pipeline.py.tpl
@@ -8,6 +8,6 @@ PIPELINE = graph_model_factory(
         edge_types=[],
         extensions=[],
         variables=[],
-        name="{{pipeline_name}}",
+        name={{pipeline_name}},
     )
 )
-- 
2.43.0


From 99d19731bc652d70a550ab65200410a38a1f90fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:26:58 +0000
Subject: [PATCH 47/62] fix: regression based test handles samples without
 degrees of freedom

---
 causy/math_utils.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/causy/math_utils.py b/causy/math_utils.py
index c679e66..015662e 100644
--- a/causy/math_utils.py
+++ b/causy/math_utils.py
@@ -20,6 +20,9 @@ def get_t_and_critical_t(sample_size, nb_of_control_vars, par_corr, threshold):
     deg_of_freedom = sample_size - 2 - nb_of_control_vars
     if abs(round(par_corr, 4)) == 1:
         return (1, 0)
+    # there are not enough observations to find a dependence
+    if deg_of_freedom <= 0:
+        return (0, math.inf)
     critical_t = scipy_stats.t.ppf(1 - threshold / 2, deg_of_freedom)
     t = par_corr * math.sqrt(deg_of_freedom / (1 - par_corr**2))
     return t, critical_t
-- 
2.43.0


From 2480c1498bd1639c2f080a485ba0bffc7090504e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:40:27 +0000
Subject: [PATCH 48/62] fix: bool values in metadata keep their type when
 results are served

---
 causy/interfaces.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/causy/interfaces.py b/causy/interfaces.py
index 5435fe5..46dfd18 100644
--- a/causy/interfaces.py
+++ b/causy/interfaces.py
@@ -5,6 +5,7 @@ from typing_extensions import Annotated
 import logging
 
 from pydantic import (
+    StrictBool,
     BaseModel,
     computed_field,
     Field,
@@ -32,9 +33,10 @@ DEFAULT_THRESHOLD = 0.01
 
 AS_MANY_AS_FIELDS = 0
 
-MetadataBaseType = Union[str, int, float, bool]
+# bool comes first as pydantic would serialize bools as floats otherwise
+MetadataBaseType = Union[StrictBool, int, float, str]
 MetadataType = Union[
-    str, int, float, bool, List[MetadataBaseType], Dict[str, MetadataBaseType]
+    StrictBool, int, float, str, List[MetadataBaseType], Dict[str, MetadataBaseType]
 ]
 
 
-- 
2.43.0


From bad04a406001eaca723b25ff67c82067e1645fa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:47:05 +0000
Subject: [PATCH 49/62] fix: python module references only resolve to algorithm
 definitions

---
 causy/serialization.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/causy/serialization.py b/causy/serialization.py
index a7eeb2d..ef67c98 100644
--- a/causy/serialization.py
+++ b/causy/serialization.py
@@ -88,9 +88,12 @@ def load_algorithm_by_reference(reference_type: str, algorithm: str):
         module_, ref_ = algorithm.rsplit(".", 1)
         module = importlib.import_module(module_)
         st_function = getattr(module, ref_)
-        if not hasattr(st_function, "_original_algorithm"):
+        from causy.models import Algorithm
+
+        definition = getattr(st_function, "_original_algorithm", None)
+        if not isinstance(definition, Algorithm):
             raise ValueError(f"Algorithm {algorithm} not found")
-        return copy.deepcopy(st_function._original_algorithm)
+        return copy.deepcopy(definition)
 
 
 class CausyJSONEncoder(JSONEncoder):
-- 
2.43.0


From 13bc124d4b955da85508e2cc63fddccd5213a56b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:47:05 +0000
Subject: [PATCH 50/62] fix: file references through symlink loops can not
 leave the working directory

---
 causy/serialization.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/causy/serialization.py b/causy/serialization.py
index ef67c98..59bdcbb 100644
--- a/causy/serialization.py
+++ b/causy/serialization.py
@@ -60,7 +60,8 @@ def load_algorithm_by_reference(reference_type: str, algorithm: str):
     if reference_type == AlgorithmReferenceType.FILE:
         # validate if the reference points only in the same directory or subdirectory
         # to avoid security issues
-        absolute_path = os.path.realpath(algorithm)
+        # (strict: after a symlink loop the rest of the path would stay unresolved)
+        absolute_path = os.path.realpath(algorithm, strict=True)
         working_directory = os.path.realpath(os.getcwd())
         if os.path.commonpath([working_directory, absolute_path]) != working_directory:
             raise ValueError("Invalid reference")
-- 
2.43.0


From d7c3a2f6274fc26dc7cfa031606532d3cd6eae00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:08:41 +0000
Subject: [PATCH 51/62] fix: names with square brackets or colons are shown
 unchanged when results are compared

---
 causy/workspaces/cli.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/causy/workspaces/cli.py b/causy/workspaces/cli.py
index 4ae59f8..4f173e8 100644
--- a/causy/workspaces/cli.py
+++ b/causy/workspaces/cli.py
@@ -23,6 +23,7 @@ from jinja2 import (
 from rich.console import Console
 from rich.progress import Progress, SpinnerColumn, TextColumn
 from rich.table import Table
+from rich.text import Text
 
 from causy.graph_model import graph_model_factory
 from causy.graph_utils import hash_dictionary
@@ -852,7 +853,8 @@ def diff(experiment_names: List[str], only_differences: bool = False):
         if only_differences and all_elements_same:
             continue
         table.add_row(
-            *[f"{first_element.u.name} - {first_element.v.name}"]
+            # names are no markup
+            *[Text(f"{first_element.u.name} - {first_element.v.name}")]
             + [
                 f"{row[experiment].edge_type.STR_REPRESENTATION}"
                 if row[experiment]
-- 
2.43.0


From dae2f5eb08fca22dfe64a2d5318c05800d2d18d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:10:17 +0000
Subject: [PATCH 52/62] fix: lists are not accepted as the value of a variable

---
 causy/graph.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/causy/graph.py b/causy/graph.py
index 3ebd936..c20328d 100644
--- a/causy/graph.py
+++ b/causy/graph.py
@@ -1027,6 +1027,10 @@ class GraphManager(GraphBaseAccessMixin, BaseGraphInterface):
                 tensor_values = torch.tensor(values, dtype=torch.float64)
             except TypeError as e:
                 raise ValueError(f"Currently only numeric values are supported. {e}")
+            if tensor_values.dim() != 1:
+                raise ValueError(
+                    f"Currently only numeric values are supported. Every value of {name} has to be a single number."
+                )
 
         if metadata is None:
             metadata = {}
-- 
2.43.0


From 30532417756fe2b25e8a33d9ca4e1930930619ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:13:34 +0000
Subject: [PATCH 53/62] fix: tables with a column named _dict can be loaded
 from files

---
 causy/graph_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/causy/graph_model.py b/causy/graph_model.py
index 860285b..01d7480 100644
--- a/causy/graph_model.py
+++ b/causy/graph_model.py
@@ -144,7 +144,7 @@ class AbstractGraphModel(GraphModelInterface, ABC):
 
         # load nodes into node dict
         for row in data_loader.load():
-            if isinstance(row, dict) and "_dict" in row:
+            if isinstance(row, dict) and isinstance(row.get("_dict"), dict):
                 # edge case for when data is in a dict of lists
                 return self.__create_graph_from_dict(row["_dict"])
 
-- 
2.43.0


From 0d079f10aa5a8025ed9a9e4fa5ed26bcf772fbd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:32:20 +0000
Subject: [PATCH 54/62] fix: causy eject keeps the variable references of the
 algorithm

---
 causy/cli.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/causy/cli.py b/causy/cli.py
index caa2cc8..574f6f9 100644
--- a/causy/cli.py
+++ b/causy/cli.py
@@ -10,7 +10,7 @@ from causy.models import (
     AlgorithmReferenceType,
 )
 from causy.serialization import (
-    serialize_algorithm,
+    load_algorithm_by_reference,
     load_algorithm_from_specification,
     CausyJSONEncoder,
     load_json,
@@ -35,8 +35,10 @@ def eject(algorithm: str, output_file: str):
     )
 
     typer.echo(f"💾 Loading algorithm {algorithm}")
-    model = AVAILABLE_ALGORITHMS[algorithm]()
-    result = serialize_algorithm(model, algorithm_name=algorithm)
+    # the definition with its variable references, not the resolved one of a model
+    result = load_algorithm_by_reference(
+        AlgorithmReferenceType.NAME, algorithm
+    ).model_dump()
     typer.echo(f"💾 Saving algorithm {algorithm} to {output_file}")
     with open(output_file, "w") as file:
         file.write(json.dumps(result, indent=4))
-- 
2.43.0


From d36d076d5db55f251c393afa593fc67f5dde90d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:20:31 +0000
Subject: [PATCH 55/62] fix: restore_edge gives each direction its own value
 and type back

---
 causy/graph.py | 30 +++++++++++++-----------------
 1 file changed, 13 insertions(+), 17 deletions(-)

diff --git a/causy/graph.py b/causy/graph.py
index c20328d..e890c33 100644
--- a/causy/graph.py
+++ b/causy/graph.py
@@ -813,23 +813,17 @@ class GraphManager(GraphBaseAccessMixin, BaseGraphInterface):
         if v.id not in self.nodes:
             raise GraphError(f"Node {v} does not exist")
 
-        if u.id in self.edges and v.id in self.edges[u.id]:
-            self.edges[u.id][v.id].deleted = False
-            self._reverse_edges[v.id][u.id].deleted = False
-        else:
-            deleted_edge = self._deleted_edges[u.id].pop(v.id)
-            self.add_edge(
-                u, v, deleted_edge.metadata, edge_type=deleted_edge.edge_type
-            )
+        restored = False
+        for a, b in ((u, v), (v, u)):
+            # each direction gets its own value and type back
+            if b.id in self.edges.get(a.id, {}) or b.id in self._deleted_edges.get(
+                a.id, {}
+            ):
+                self.restore_directed_edge(a, b)
+                restored = True
 
-        if v.id in self.edges and u.id in self.edges[v.id]:
-            self.edges[v.id][u.id].deleted = False
-            self._reverse_edges[u.id][v.id].deleted = False
-        else:
-            deleted_edge = self._deleted_edges[v.id].pop(u.id)
-            self.add_edge(
-                v, u, deleted_edge.metadata, edge_type=deleted_edge.edge_type
-            )
+        if not restored:
+            raise GraphError(f"There is no edge between {u} and {v} to restore")
 
     def remove_directed_edge(self, u: Node, v: Node, soft_delete: bool = False):
         """
@@ -873,11 +867,13 @@ class GraphManager(GraphBaseAccessMixin, BaseGraphInterface):
         if u.id in self.edges and v.id in self.edges[u.id]:
             self.edges[u.id][v.id].deleted = False
             self._reverse_edges[v.id][u.id].deleted = False
-        else:
+        elif v.id in self._deleted_edges.get(u.id, {}):
             deleted_edge = self._deleted_edges[u.id].pop(v.id)
             self.add_directed_edge(
                 u, v, deleted_edge.metadata, edge_type=deleted_edge.edge_type
             )
+        else:
+            raise GraphError(f"There is no edge from {u} to {v} to restore")
 
     def update_edge(
         self,
-- 
2.43.0


From d659ff02ad6b9aa2687525bb008f1f2b91a16ee2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:20:31 +0000
Subject: [PATCH 56/62] fix: restoring an edge which was never removed is not
 applied instead of failing

---
 causy/graph_model.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/causy/graph_model.py b/causy/graph_model.py
index 01d7480..e598022 100644
--- a/causy/graph_model.py
+++ b/causy/graph_model.py
@@ -408,7 +408,13 @@ class AbstractGraphModel(GraphModelInterface, ABC):
                         )
                         continue
 
-                    self.graph.restore_edge(i.u, i.v)
+                    try:
+                        self.graph.restore_edge(i.u, i.v)
+                    except GraphError:
+                        logger.debug(
+                            f"Tried to restore edge {i.u.name} <-> {i.v.name}. But it was never removed."
+                        )
+                        continue
                     self.graph.add_edge_history(i.u, i.v, i)
                     self.graph.add_edge_history(i.v, i.u, i)
 
@@ -419,7 +425,13 @@ class AbstractGraphModel(GraphModelInterface, ABC):
                         )
                         continue
 
-                    self.graph.restore_directed_edge(i.u, i.v)
+                    try:
+                        self.graph.restore_directed_edge(i.u, i.v)
+                    except GraphError:
+                        logger.debug(
+                            f"Tried to restore edge {i.u.name} -> {i.v.name}. But it was never removed."
+                        )
+                        continue
                     self.graph.add_edge_history(i.u, i.v, i)
                 # add the action to the actions history
                 actions_taken.append(i)
-- 
2.43.0


From 1e705d9a582dc4f96f7c4531392b7d8cdffc1bf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:22:14 +0000
Subject: [PATCH 57/62] fix: the latest result of an experiment is served under
 its own version number

---
 causy/ui/server.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/causy/ui/server.py b/causy/ui/server.py
index 202f3bb..ba579a4 100644
--- a/causy/ui/server.py
+++ b/causy/ui/server.py
@@ -16,7 +16,6 @@ from causy.models import (
 from causy.serialization import load_algorithm_by_reference
 from causy.ui.models import ExtendedResult, ExtendedExperiment, ExperimentVersion
 from causy.workspaces.cli import (
-    _load_latest_experiment_result,
     _load_experiment_versions,
     _load_experiment_result,
 )
@@ -66,13 +65,19 @@ async def get_latest_experiment(experiment_name: str):
     if experiment_name not in WORKSPACE.experiments:
         raise HTTPException(404, "Experiment not found")
 
+    # look up the version only once, as another one may be stored or removed in the meantime
+    versions = _load_experiment_versions(WORKSPACE, experiment_name)
+    if len(versions) == 0:
+        raise HTTPException(
+            400, f"Experiment {experiment_name} not found in the file system"
+        )
+    version = versions[0]
+
     try:
-        experiment = _load_latest_experiment_result(WORKSPACE, experiment_name)
+        experiment = _load_experiment_result(WORKSPACE, experiment_name, version)
     except Exception as e:
         raise HTTPException(400, str(e))
 
-    version = _load_experiment_versions(WORKSPACE, experiment_name)[0]
-
     experiment["algorithm"] = AlgorithmReference(**experiment["algorithm"])
     experiment["version"] = version
     experiment = ExtendedResult(**experiment)
-- 
2.43.0


From e287d6b9192e6424bc7653a33f61804764dfe7ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:46:01 +0000
Subject: [PATCH 58/62] fix: direct effects of parents in very different units

The least-squares solver drops singular values relative to the largest one,
so the coefficient of a parent in small units was lost (or wrong in its first
digits) next to a parent in large units. The parents are brought to the same
scale before the regression.
---
 causy/causal_effect_estimation/multivariate_regression.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/causy/causal_effect_estimation/multivariate_regression.py b/causy/causal_effect_estimation/multivariate_regression.py
index ade65d0..4f20a4c 100644
--- a/causy/causal_effect_estimation/multivariate_regression.py
+++ b/causy/causal_effect_estimation/multivariate_regression.py
@@ -53,6 +53,10 @@ class ComputeDirectEffectsInDAGsMultivariateRegression(PipelineStepInterface):
             effect_variable_parents_values
             - effect_variable_parents_values.mean(dim=0, keepdim=True)
         )
+        # bring the variables to the same scale, otherwise the ones in small units are lost
+        scale = effect_variable_parents_values.abs().amax(dim=0)
+        scale = torch.where(scale > 0, scale, torch.ones_like(scale))
+        effect_variable_parents_values = effect_variable_parents_values / scale
         # multivariate regression via tridiagonal reduction and SVD, see torch documentation
         reshaped_effect_variable_values = (
             effect_variable.values - effect_variable.values.mean()
@@ -64,7 +68,7 @@ class ComputeDirectEffectsInDAGsMultivariateRegression(PipelineStepInterface):
             driver="gelsd",
         ).solution
 
-        edge_data["direct_effect"] = coefficients[0][0].item()
+        edge_data["direct_effect"] = (coefficients[0][0] / scale[0]).item()
 
         return TestResult(
             u=graph.nodes[nodes[0]],
-- 
2.43.0


From 7d6337100f6a56041d6bea0a49ec4efb0e55e59b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:53:29 +0000
Subject: [PATCH 59/62] fix: orient graphs with nodes which never had an edge

The collider and non-collider rules failed with a KeyError on skeletons with
isolated nodes, unless an edge of these nodes was removed earlier.
---
 .../constraint/orientation_rules/pc.py                 | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/causy/causal_discovery/constraint/orientation_rules/pc.py b/causy/causal_discovery/constraint/orientation_rules/pc.py
index e56831b..3627700 100644
--- a/causy/causal_discovery/constraint/orientation_rules/pc.py
+++ b/causy/causal_discovery/constraint/orientation_rules/pc.py
@@ -138,7 +138,10 @@ class ColliderTest(
             return
 
         # if u and v are NOT adjacent, store all shared adjacent nodes
-        potential_zs = [z for z in graph.edges[x.id] if z in graph.edges[y.id]]
+        # (a node which never had an edge does not share any)
+        potential_zs = [
+            z for z in graph.edges.get(x.id, {}) if z in graph.edges.get(y.id, {})
+        ]
 
         actions = graph.retrieve_edge_history(
             x, y, TestResultAction.REMOVE_EDGE_UNDIRECTED
@@ -262,7 +265,10 @@ class NonColliderTest(
             return
 
         # if u and v are NOT adjacent, store all shared adjacent nodes
-        potential_zs = [z for z in graph.edges[x.id] if z in graph.edges[y.id]]
+        # (a node which never had an edge does not share any)
+        potential_zs = [
+            z for z in graph.edges.get(x.id, {}) if z in graph.edges.get(y.id, {})
+        ]
         # if one edge has an arrowhead at z, orient the other one pointing away from z.
         # It cannot be a collider because we have already oriented all unshielded triples that contain colliders.
         for z in potential_zs:
-- 
2.43.0


From c711d4cf460f907a086ec2f8a8db201e7d12dc5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:53:29 +0000
Subject: [PATCH 60/62] fix: correlations of graphs which are not complete

The correlation step failed with a TypeError on pairs without an edge and
with a KeyError on edges with a single direction, and did not record
the correlation of such an edge.
---
 causy/common_pipeline_steps/calculation.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/causy/common_pipeline_steps/calculation.py b/causy/common_pipeline_steps/calculation.py
index 1e9b7e8..c9bed95 100644
--- a/causy/common_pipeline_steps/calculation.py
+++ b/causy/common_pipeline_steps/calculation.py
@@ -29,7 +29,17 @@ class CalculatePearsonCorrelations(
         """
         x = graph.nodes[nodes[0]]
         y = graph.nodes[nodes[1]]
-        edge_value = graph.edge_value(graph.nodes[nodes[0]], graph.nodes[nodes[1]])
+
+        # there is nothing to store the correlation to without an edge
+        if not graph.edge_exists(x, y):
+            return
+
+        action = TestResultAction.UPDATE_EDGE
+        if not graph.undirected_edge_exists(x, y):
+            action = TestResultAction.UPDATE_EDGE_DIRECTED
+            if not graph.directed_edge_exists(x, y):
+                x, y = y, x
+        edge_value = graph.edge_value(x, y)
 
         x_val = x.values
         y_val = y.values
@@ -55,6 +65,6 @@ class CalculatePearsonCorrelations(
         return TestResult(
             u=x,
             v=y,
-            action=TestResultAction.UPDATE_EDGE,
+            action=action,
             data=edge_value,
         )
-- 
2.43.0


From 716b36b1cb766716c9c203e564ec4c04e9789ef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:57:10 +0000
Subject: [PATCH 61/62] fix: the collider rule skips pairs with an edge which
 is already directed

Two nodes joined by a directed edge are adjacent, so what they have in common
is no unshielded triple. The rule took it for one without a separating set
and oriented all of their common neighbours as colliders.
---
 causy/causal_discovery/constraint/orientation_rules/pc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/causy/causal_discovery/constraint/orientation_rules/pc.py b/causy/causal_discovery/constraint/orientation_rules/pc.py
index 3627700..1e6a223 100644
--- a/causy/causal_discovery/constraint/orientation_rules/pc.py
+++ b/causy/causal_discovery/constraint/orientation_rules/pc.py
@@ -134,7 +134,7 @@ class ColliderTest(
         y = graph.nodes[nodes[1]]
 
         # if u and v are adjacent, do nothing
-        if graph.undirected_edge_exists(x, y):
+        if graph.edge_exists(x, y):
             return
 
         # if u and v are NOT adjacent, store all shared adjacent nodes
-- 
2.43.0


From c95e100433220e03aa5f88af9ee1c8e80ee45827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:09:09 +0000
Subject: [PATCH 62/62] fix: fingerprint the data before the pipeline is
 executed

The data loader was hashed after the pipeline had run. If the data was edited
in the meantime, the stored result of the old data carried the fingerprint of
the new data, and the experiment was skipped from then on.
---
 causy/workspaces/cli.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/causy/workspaces/cli.py b/causy/workspaces/cli.py
index 4f173e8..cd8fa93 100644
--- a/causy/workspaces/cli.py
+++ b/causy/workspaces/cli.py
@@ -287,6 +287,8 @@ def _execute_experiment(workspace: Workspace, experiment: Experiment) -> Result:
 
     typer.echo(f"Loading Data: {experiment.dataloader}")
     data_loader = load_data_loader(workspace.dataloaders[experiment.dataloader])
+    # the data might change while the pipeline is executed
+    data_loader_hash = data_loader.hash()
     model = graph_model_factory(pipeline, variables)()
     model.create_graph_from_data(data_loader)
     model.create_all_possible_edges()
@@ -317,7 +319,7 @@ def _execute_experiment(workspace: Workspace, experiment: Experiment) -> Result:
         edges=model.graph.retrieve_edges(),
         nodes=model.graph.nodes,
         variables=variables,
-        data_loader_hash=data_loader.hash(),
+        data_loader_hash=data_loader_hash,
         algorithm_hash=model.algorithm.hash(),
         variables_hash=hash_dictionary(variables),
     )
-- 
2.43.0

