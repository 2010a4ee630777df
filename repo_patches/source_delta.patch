From e7eb31780ae381254e13d99e4150a064717cb46d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:03:37 +0000
Subject: [PATCH 01/12] fix: cancel the pending alarm when a timed function
 raises

---
 Python/research/scripts/demo/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Python/research/scripts/demo/util.py b/Python/research/scripts/demo/util.py
index d81667f..306b7e4 100644
--- a/Python/research/scripts/demo/util.py
+++ b/Python/research/scripts/demo/util.py
@@ -630,8 +630,8 @@ class TimeoutFunction:
             try:
                 result = self.function(*args, **keyArgs)
             finally:
+                signal.alarm(0)
                 signal.signal(signal.SIGALRM, old)
-            signal.alarm(0)
         else:
             startTime = time.time()
             result = self.function(*args, **keyArgs)
-- 
2.43.0


From 8dcc03c174618f9b92e715f36381a62b4e57ce96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:03:37 +0000
Subject: [PATCH 02/12] fix: restore the working directory when loading a
 layout fails

---
 Python/research/scripts/demo/layout.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Python/research/scripts/demo/layout.py b/Python/research/scripts/demo/layout.py
index ebba32a..ee6ef5d 100644
--- a/Python/research/scripts/demo/layout.py
+++ b/Python/research/scripts/demo/layout.py
@@ -139,8 +139,8 @@ def getLayout(name, back = 2):
     if layout == None and back >= 0:
         curdir = os.path.abspath('.')
         os.chdir('..')
-        layout = getLayout(name, back -1)
-        os.chdir(curdir)
+        try: layout = getLayout(name, back -1)
+        finally: os.chdir(curdir)
     return layout
 
 def tryToLoad(fullname):
-- 
2.43.0


From 65fa5ae8be6e29746446bafc072fe8a0c79d91bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:03:37 +0000
Subject: [PATCH 03/12] fix: compare every variable when deciding whether
 samples can be joined

---
 Python/research/scripts/relnet/sample_set.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/Python/research/scripts/relnet/sample_set.py b/Python/research/scripts/relnet/sample_set.py
index c83f684..5c97937 100644
--- a/Python/research/scripts/relnet/sample_set.py
+++ b/Python/research/scripts/relnet/sample_set.py
@@ -175,10 +175,7 @@ class SampleSet(Samples):
         In case result sample graph will not connected AssertionError will be raise.
         :return: (new_sample, list_of_counts)
         """
-        for var in frozenset.intersection(*[s.included_variables for s in self.samples()]):
-            if len({s.value_for_variable(var) for s in self.samples()}) > 1:
-                return False
-        return True
+        return bool(self._samples) and self.is_all_values_match()
 
     def make_joined_sample(self) -> Tuple[SampleGraph, List[int]]:
         """
-- 
2.43.0


From 76d0206dbbd3cb0cfb59f21ebc332e144774548a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:03:37 +0000
Subject: [PATCH 04/12] fix: similarity of two empty samples divided by zero

---
 Python/research/scripts/relnet/sample_graph.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/Python/research/scripts/relnet/sample_graph.py b/Python/research/scripts/relnet/sample_graph.py
index cd4e8e3..ce4918c 100644
--- a/Python/research/scripts/relnet/sample_graph.py
+++ b/Python/research/scripts/relnet/sample_graph.py
@@ -431,6 +431,8 @@ class SampleGraph:
         """
         intersect_hash = self.hash.intersection(other.hash)
         differ_hash = self.hash.symmetric_difference(other.hash)
+        if not intersect_hash and not differ_hash:
+            return 1.0  # Both samples are empty
         return len(intersect_hash) / (len(intersect_hash) + len(differ_hash))
 
     def belt_nodes(
-- 
2.43.0


From c4589bdf5849be126612275bfbf3b908163e9758 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:03:37 +0000
Subject: [PATCH 05/12] fix: sample builder modified the sets of its caller

---
 Python/research/scripts/relnet/sample_graph.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Python/research/scripts/relnet/sample_graph.py b/Python/research/scripts/relnet/sample_graph.py
index ce4918c..afa15d6 100644
--- a/Python/research/scripts/relnet/sample_graph.py
+++ b/Python/research/scripts/relnet/sample_graph.py
@@ -77,8 +77,8 @@ class SampleGraphBuilder:
     ):
         self._components_provider: SampleGraphComponentsProvider = components_provider
         self._name: Optional[str] = name
-        self._nodes: Set[ValueNode] = nodes if nodes else set([])
-        self._edges: Set[RelationEdge] = edges if edges else set([])
+        self._nodes: Set[ValueNode] = set(nodes) if nodes else set([])
+        self._edges: Set[RelationEdge] = set(edges) if edges else set([])
         self._endpoints: Dict[frozenset[ValueNode], RelationEdge] = {e.endpoints: e for e in self._edges}
 
     def __copy__(self):
-- 
2.43.0


From 221f08abb570d0739175b237b39b49ea46086857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:03:37 +0000
Subject: [PATCH 06/12] fix: vocabulary changed when the caller changed the
 passed declarations

---
 Python/research/scripts/relnet/graph_components.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Python/research/scripts/relnet/graph_components.py b/Python/research/scripts/relnet/graph_components.py
index d6b9d08..7a5ee14 100644
--- a/Python/research/scripts/relnet/graph_components.py
+++ b/Python/research/scripts/relnet/graph_components.py
@@ -169,8 +169,8 @@ class BuilderComponentsProvider(SampleGraphComponentsProvider):
         assert relations, \
             f"[BuilderComponentsProvider.__init__] Set of relations should not be empty."
 
-        self._variables: Dict[Any, Set[Any]] = variables
-        self._relations: Set[Any] = relations
+        self._variables: Dict[Any, Set[Any]] = {var: set(values) for var, values in variables.items()}
+        self._relations: Set[Any] = set(relations)
         self.nodes: Dict[Tuple[Any, Any], ValueNode] = {}
         self.edges: Dict[Tuple[frozenset[ValueNode], Any], RelationEdge] = {}
 
-- 
2.43.0


From aa2a5577768e5c70972290f1873f29995d80fb7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:03:37 +0000
Subject: [PATCH 07/12] fix: folded node changed when the caller changed the
 passed counts

---
 Python/research/scripts/relnet/folded_graph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Python/research/scripts/relnet/folded_graph.py b/Python/research/scripts/relnet/folded_graph.py
index 8d63adc..ead5ef9 100644
--- a/Python/research/scripts/relnet/folded_graph.py
+++ b/Python/research/scripts/relnet/folded_graph.py
@@ -34,7 +34,7 @@ class FoldedNode(VariableNode):
         super().__init__(variable)
         self.values: frozenset[Any] = frozenset(values)
         self.value_nodes: frozenset[(ValueNode, int)] = frozenset(value_nodes.items())
-        self._value_nodes_dict: Dict[ValueNode, int] = value_nodes
+        self._value_nodes_dict: Dict[ValueNode, int] = value_nodes.copy()
         self._number_of_outcomes: int = number_of_outcomes
 
     def __repr__(self):
-- 
2.43.0


From 31c6e73dcd3cb8477d83fc986b663895bd567932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:05:39 +0000
Subject: [PATCH 08/12] fix: refused edges left a sample builder half built,
 two relations over the same endpoints were accepted

---
 Python/research/scripts/relnet/sample_graph.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/Python/research/scripts/relnet/sample_graph.py b/Python/research/scripts/relnet/sample_graph.py
index afa15d6..55c17d5 100644
--- a/Python/research/scripts/relnet/sample_graph.py
+++ b/Python/research/scripts/relnet/sample_graph.py
@@ -137,13 +137,19 @@ class SampleGraphBuilder:
             assert self.is_edges_connected(edges), \
                 f"[SampleGraphBuilder.build_from_edges] Passed edges are not form connected graph, edges: {edges}"
 
+        new_edges: Dict[frozenset[ValueNode], RelationEdge] = {}
         for endpoints, relation in edges:
             self.validate_endpoints(endpoints)
             nodes = {self._components_provider.get_node(var, val) for var, val in endpoints}
             edge = self._components_provider.get_edge(frozenset(nodes), relation)
+            assert edge.endpoints not in new_edges and self._endpoints.get(edge.endpoints, edge) == edge, \
+                f"[SampleGraphBuilder.build_from_edges] Endpoints of {edge} already have another relation"
+            new_edges[edge.endpoints] = edge
+
+        for endpoints, edge in new_edges.items():
             self._edges.add(edge)
-            self._endpoints[edge.endpoints] = edge
-            self._nodes.update(nodes)
+            self._endpoints[endpoints] = edge
+            self._nodes.update(endpoints)
 
         return self.build()
 
-- 
2.43.0


From 531589d129b1f52a05c4df70b8c6dd346778c593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:02 +0000
Subject: [PATCH 09/12] fix: a refused join left a sample builder partly
 modified

---
 .../research/scripts/relnet/sample_graph.py   | 20 +++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/Python/research/scripts/relnet/sample_graph.py b/Python/research/scripts/relnet/sample_graph.py
index 55c17d5..302f05f 100644
--- a/Python/research/scripts/relnet/sample_graph.py
+++ b/Python/research/scripts/relnet/sample_graph.py
@@ -213,8 +213,11 @@ class SampleGraphBuilder:
         assert sample.is_compatible(self._components_provider), \
             f"[SampleGraphBuilder.join_sample] Incompatible sample {sample}"
 
+        new_nodes, new_edges = set(self._nodes), set(self._edges)
+        new_endpoints = dict(self._endpoints)
+
         def is_connected(edge: RelationEdge) -> bool:
-            return not edge.endpoints.isdisjoint(self._nodes) or not self._nodes
+            return not edge.endpoints.isdisjoint(new_nodes) or not new_nodes
 
         def join_edges(edges: Set[RelationEdge]) -> None:
             not_connected = set({})
@@ -222,29 +225,30 @@ class SampleGraphBuilder:
             for edge in edges:
                 if is_connected(edge):
                     assert \
-                        edge.endpoints not in self._endpoints \
-                        or edge.relation == self._endpoints[edge.endpoints].relation, \
+                        edge.endpoints not in new_endpoints \
+                        or edge.relation == new_endpoints[edge.endpoints].relation, \
                         f"[SampleGraphBuilder.join_sample] Sample can't be joined since have conflicting edge {edge}"
                     for ep in edge.endpoints:
                         assert \
-                            ep.variable not in {n.variable for n in self._nodes} or ep in self._nodes, \
+                            ep.variable not in {n.variable for n in new_nodes} or ep in new_nodes, \
                             f"[SampleGraphBuilder.join_sample] Endpoint {ep} can't be added since sample already " \
                             f"have another value of variable '{ep.variable}'"
-                    self._edges.add(edge)
-                    self._endpoints[edge.endpoints] = edge
-                    self._nodes.update(edge.endpoints)
+                    new_edges.add(edge)
+                    new_endpoints[edge.endpoints] = edge
+                    new_nodes.update(edge.endpoints)
                 else:
                     not_connected.add(edge)
 
             assert edges != not_connected, \
                 f"[SampleGraphBuilder.join_sample] One or both endpoint should be previously added, " \
-                f"to keep graph connected, got not connected edges  {edges} where previously added {self._nodes}"
+                f"to keep graph connected, got not connected edges  {edges} where previously added {new_nodes}"
 
             if not_connected:
                 join_edges(not_connected)
 
         if sample.edges:
             join_edges(set(sample.edges))
+            self._nodes, self._edges, self._endpoints = new_nodes, new_edges, new_endpoints
         else:  # Single node graph
             assert len(sample.nodes) == 1 and (sample.nodes.issubset(self._nodes) or not self._nodes), \
                 f"[SampleGraphBuilder.join_sample] Single node sample can be joined only " \
-- 
2.43.0


From 599baec4d92a27eb57ccfa97aa427b7e1d2a984a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:53:49 +0000
Subject: [PATCH 10/12] fix: a space could only be turned into a builder when
 the package was imported as scripts.relnet

---
 Python/research/scripts/relnet/sample_space.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Python/research/scripts/relnet/sample_space.py b/Python/research/scripts/relnet/sample_space.py
index 70cf7a4..a57b5eb 100644
--- a/Python/research/scripts/relnet/sample_space.py
+++ b/Python/research/scripts/relnet/sample_space.py
@@ -64,7 +64,7 @@ class SampleSpace:
         Construct new relation graph builder which contains all outcomes from this inference graph
         :return: new builder instance
         """
-        from scripts.relnet.relation_graph import RelationGraphBuilder
+        from .relation_graph import RelationGraphBuilder
         return RelationGraphBuilder(
             None,
             None,
-- 
2.43.0


From bd1a0784896aef0d6bca7306a571be78e0fa6830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:07:29 +0000
Subject: [PATCH 11/12] fix: a ghost's successor marked the ghost as eaten in
 the state it started from

---
 Python/research/scripts/demo/game.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Python/research/scripts/demo/game.py b/Python/research/scripts/demo/game.py
index 3950f27..0139d2c 100644
--- a/Python/research/scripts/demo/game.py
+++ b/Python/research/scripts/demo/game.py
@@ -381,7 +381,7 @@ class GameStateData:
             self.capsules = prevState.capsules[:]
             self.agentStates = self.copyAgentStates( prevState.agentStates )
             self.layout = prevState.layout
-            self._eaten = prevState._eaten
+            self._eaten = prevState._eaten[:]
             self.score = prevState.score
 
         self._foodEaten = None
-- 
2.43.0


From 71a327a8bbd098c2696fca57717273cb8e63b206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:41:08 +0000
Subject: [PATCH 12/12] fix: group single node samples under their variable,
 not under its characters

---
 Python/research/scripts/relnet/sample_set.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Python/research/scripts/relnet/sample_set.py b/Python/research/scripts/relnet/sample_set.py
index 5c97937..9e429be 100644
--- a/Python/research/scripts/relnet/sample_set.py
+++ b/Python/research/scripts/relnet/sample_set.py
@@ -144,7 +144,7 @@ class SampleSet(Samples):
             if sample.edges:
                 key = sample.edges_endpoint_variables()
             else:
-                key = frozenset(sample.included_variables)  # Singe node graph
+                key = frozenset({frozenset(sample.included_variables)})  # Singe node graph
             if key in sample_acc:
                 sample_acc[key][sample] = count
             else:
-- 
2.43.0

