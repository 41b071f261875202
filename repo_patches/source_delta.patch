From c07e3ca1d3527df1150ad89d8da5c0345b9711e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:27 +0000
Subject: [PATCH 01/37] fix: treat a string given to the directed cut/ncut as
 one node, not as its characters

---
 pytimize/graphs/_directed.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pytimize/graphs/_directed.py b/pytimize/graphs/_directed.py
index b0b7b67..1e8d2cb 100644
--- a/pytimize/graphs/_directed.py
+++ b/pytimize/graphs/_directed.py
@@ -196,7 +196,7 @@ class DirectedGraph:
 
         """
         if not isinstance(nodes, set):
-            nodes = set(nodes)
+            nodes = {nodes} if isinstance(nodes, str) else set(nodes)
 
         return set(
             filter(
@@ -221,7 +221,7 @@ class DirectedGraph:
         """
 
         if not isinstance(nodes, set):
-            nodes = set(nodes)
+            nodes = {nodes} if isinstance(nodes, str) else set(nodes)
 
         return list(
             filter(
-- 
2.43.0


From 0a54329573885539aa439267925de189a732f087 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:30 +0000
Subject: [PATCH 02/37] fix: treat a string given to the undirected cut as one
 vertex, not as its characters

---
 pytimize/graphs/_undirected.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytimize/graphs/_undirected.py b/pytimize/graphs/_undirected.py
index 5ceebbe..e7c7bc2 100644
--- a/pytimize/graphs/_undirected.py
+++ b/pytimize/graphs/_undirected.py
@@ -385,7 +385,7 @@ class UndirectedGraph:
 
     """
         if not isinstance(vertices, set):
-            vertices = set(vertices)
+            vertices = {vertices} if isinstance(vertices, str) else set(vertices)
 
         return set(
             filter(
-- 
2.43.0


From 275098d3acf5407154147917f309b52bb308f764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:33 +0000
Subject: [PATCH 03/37] fix: remove_edge also drops the edge and its weight,
 not just the adjacency

---
 pytimize/graphs/_undirected.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pytimize/graphs/_undirected.py b/pytimize/graphs/_undirected.py
index e7c7bc2..cda8b68 100644
--- a/pytimize/graphs/_undirected.py
+++ b/pytimize/graphs/_undirected.py
@@ -139,6 +139,7 @@ class UndirectedGraph:
         if not self.has_edge(edge):
             raise ValueError("The given edge is not in graph.")
 
+        del self._edges[tuple(sorted(edge))]
         self._graph[edge[0]].remove(edge[1])
         self._graph[edge[1]].remove(edge[0])
 
-- 
2.43.0


From 9dd4d0f4a17771c6c21d1cc485f3aeeea6322fe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:35 +0000
Subject: [PATCH 04/37] fix: graph and copy no longer share adjacency sets with
 the original

---
 pytimize/graphs/_undirected.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytimize/graphs/_undirected.py b/pytimize/graphs/_undirected.py
index cda8b68..2cf5058 100644
--- a/pytimize/graphs/_undirected.py
+++ b/pytimize/graphs/_undirected.py
@@ -734,7 +734,7 @@ class UndirectedGraph:
       vertices that are connected to that vertex.
 
     """
-        return self._graph.copy()
+        return {vertex: set(ends) for vertex, ends in self._graph.items()}
 
     @property
     def vertices(self) -> Dict[str, float]:
-- 
2.43.0


From 92120f95373dc2be6aa011a13cec072dc1020b96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:37 +0000
Subject: [PATCH 05/37] fix: is_cyclic no longer takes the edge it arrived by
 for a cycle

---
 pytimize/graphs/_undirected.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytimize/graphs/_undirected.py b/pytimize/graphs/_undirected.py
index 2cf5058..15dcd9b 100644
--- a/pytimize/graphs/_undirected.py
+++ b/pytimize/graphs/_undirected.py
@@ -527,7 +527,7 @@ class UndirectedGraph:
                     return True
 
                 visited.add(current)
-                queue.extend(self._graph[current])
+                queue.extend(set(self._graph[current]).difference(visited))
 
             unexplored = unexplored.difference(visited)
 
-- 
2.43.0


From 94a2c11bf0bbfd274da416531a9259b17a354fed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:40 +0000
Subject: [PATCH 06/37] fix: partition works on the adjacency sets the graph
 actually stores

---
 pytimize/graphs/_undirected.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/pytimize/graphs/_undirected.py b/pytimize/graphs/_undirected.py
index 15dcd9b..4c18f91 100644
--- a/pytimize/graphs/_undirected.py
+++ b/pytimize/graphs/_undirected.py
@@ -577,15 +577,14 @@ class UndirectedGraph:
                 if current in visited:
                     continue
 
-                for vertex, connections in self._graph[current].items():
-                    for connection in connections:
-                        edge = tuple(sorted((vertex, connection)))
+                for connection in self._graph[current]:
+                    edge = tuple(sorted((current, connection)))
 
-                        subedges.setdefault(edge, self._edges[edge])
+                    subedges.setdefault(edge, self._edges[edge])
 
                 visited.add(current)
                 queue.extend(self._graph[current])
-                subgraph.setdefault(current, self._graph.copy())
+                subgraph.setdefault(current, self._graph[current].copy())
                 subvertices.setdefault(current, self._vertices[current])
 
             g = UndirectedGraph()
-- 
2.43.0


From 66d7d215c6b2c24afa05896bd694dfc188bbf1bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:42 +0000
Subject: [PATCH 07/37] fix: random traversal yields the vertices instead of
 nothing

---
 pytimize/graphs/_undirected.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pytimize/graphs/_undirected.py b/pytimize/graphs/_undirected.py
index 4c18f91..e4ac281 100644
--- a/pytimize/graphs/_undirected.py
+++ b/pytimize/graphs/_undirected.py
@@ -473,7 +473,9 @@ class UndirectedGraph:
 
             random.shuffle(vertices)
 
-            return iter(vertices)
+            yield from vertices
+
+            return
 
         visited = set()
         queue = deque([start])
-- 
2.43.0


From bd35c8f71b8240310dcc19b21de26f5bd60bb53d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:45 +0000
Subject: [PATCH 08/37] fix: formulate_max_stable_set supports graphs without
 edges

---
 pytimize/graphs/_undirected.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytimize/graphs/_undirected.py b/pytimize/graphs/_undirected.py
index e4ac281..2600e98 100644
--- a/pytimize/graphs/_undirected.py
+++ b/pytimize/graphs/_undirected.py
@@ -403,7 +403,7 @@ class UndirectedGraph:
         mapping = {vertex: i for i, vertex in enumerate(self._vertices)}
         rows = len(self._edges)
         columns = len(mapping)
-        A = np.empty(columns)
+        A = np.empty((1, columns))
 
         for a, b in self._edges:
             row = np.zeros(columns)
-- 
2.43.0


From 7cd2b0fde192e0f7470d996df3a5922b59650d5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:49 +0000
Subject: [PATCH 09/37] fix: add_arc accepts a single demand and leaves the
 digraph untouched when it rejects

---
 pytimize/graphs/_directed.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/pytimize/graphs/_directed.py b/pytimize/graphs/_directed.py
index 1e8d2cb..1c76a87 100644
--- a/pytimize/graphs/_directed.py
+++ b/pytimize/graphs/_directed.py
@@ -97,9 +97,6 @@ class DirectedGraph:
         if arc[0] == arc[1]:
             raise ValueError("Cannot create an arc with the same endpoints.")
 
-        self._graph.setdefault(arc[0], set()).add(arc[1])
-        self._arcs.setdefault(arc, weight)
-
         a_exists = self.has_node(arc[0])
         b_exists = self.has_node(arc[1])
 
@@ -112,9 +109,14 @@ class DirectedGraph:
             self.add_node(arc[0], demands[0] if demands else 0)
             self.add_node(arc[1], demands[1] if demands else 0)
         elif not a_exists:
-            self.add_node(arc[0], demands[0] if demands else 0)
+            demand = demands[0] if isinstance(demands, tuple) else demands
+            self.add_node(arc[0], demand if demand else 0)
         elif not b_exists:
-            self.add_node(arc[1], demands[1] if demands else 0)
+            demand = demands[1] if isinstance(demands, tuple) else demands
+            self.add_node(arc[1], demand if demand else 0)
+
+        self._graph.setdefault(arc[0], set()).add(arc[1])
+        self._arcs.setdefault(arc, weight)
 
     def add_node(self, node, demand=0):
         """
-- 
2.43.0


From 71beb298992efb70491b2c14d40bfab5c6008a9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:16 +0000
Subject: [PATCH 10/37] fix: preflow_push returns a value when there are no
 nodes besides source and sink

---
 pytimize/graphs/_directed.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pytimize/graphs/_directed.py b/pytimize/graphs/_directed.py
index 1c76a87..605afc4 100644
--- a/pytimize/graphs/_directed.py
+++ b/pytimize/graphs/_directed.py
@@ -459,8 +459,8 @@ class DirectedGraph:
             else:
                 index += 1
 
-            value = sum(flow[arc] for arc in self.cut(source))
-            value -= sum(flow[arc] for arc in self.ncut(source))
+        value = sum(flow[arc] for arc in self.cut(source))
+        value -= sum(flow[arc] for arc in self.ncut(source))
 
         return value, flow
 
-- 
2.43.0


From 4476892cfad26e5f00ce1c5002dad38f9d704014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:18 +0000
Subject: [PATCH 11/37] fix: max flow keeps the residual right for reversed and
 antiparallel arcs

---
 pytimize/graphs/_directed.py | 92 ++++++++++++++++--------------------
 1 file changed, 41 insertions(+), 51 deletions(-)

diff --git a/pytimize/graphs/_directed.py b/pytimize/graphs/_directed.py
index 605afc4..4f13757 100644
--- a/pytimize/graphs/_directed.py
+++ b/pytimize/graphs/_directed.py
@@ -347,13 +347,50 @@ class DirectedGraph:
                 raise ArithmeticError("Given flow is infeasible.")
 
             if capacity > value:
-                residual.setdefault(u, {})[v] = capacity - value
+                endpoints = residual.setdefault(u, {})
+                endpoints[v] = endpoints.get(v, 0) + capacity - value
 
             if value > 0:
-                residual.setdefault(v, {})[u] = value
+                endpoints = residual.setdefault(v, {})
+                endpoints[u] = endpoints.get(u, 0) + value
 
         return residual
 
+    def _push_flow(
+        self,
+        flow: Dict[Tuple[str, str], float],
+        residual: Dict[str, Dict[str, float]],
+        u: str,
+        v: str,
+        amount: float,
+    ) -> None:
+        """
+        Sends `amount` units from `u` to `v`: first cancels flow on the arc from `v` to `u`, 
+        then increases flow on the arc from `u` to `v`. Updates `residual` accordingly.
+
+        """
+        cancelled = min(amount, flow.get((v, u), 0))
+
+        if cancelled > 0:
+            flow[(v, u)] -= cancelled
+
+        if amount > cancelled:
+            flow[(u, v)] += amount - cancelled
+
+        for a, b in ((u, v), (v, u)):
+            available = flow.get((b, a), 0)
+
+            if (a, b) in flow:
+                available += self._arcs[(a, b)] - flow[(a, b)]
+
+            if available > 0:
+                residual.setdefault(a, {})[b] = available
+            elif b in residual.get(a, {}):
+                del residual[a][b]
+
+                if len(residual[a]) == 0:
+                    del residual[a]
+
     def preflow_push(
         self, source: str, sink: str
     ) -> Tuple[float, Dict[Tuple[str, str], float]]:
@@ -409,35 +446,9 @@ class DirectedGraph:
                 for endpoint, value in residual[node].items():
                     if height[endpoint] == height[node] - 1:
                         pushed = True
-                        is_reversed = False
-                        arc = (node, endpoint)
                         push_value = min(excess[node], value)
-                        u, v = node, endpoint
-
-                        if arc not in flow:
-                            is_reversed = True
-                            arc = (endpoint, node)
-                            flow[arc] -= push_value
-                        else:
-                            flow[arc] += push_value
 
-                        if is_reversed:
-                            u, v = v, u
-
-                        residual.setdefault(u, {})[v] = self._arcs[arc] - flow[arc]
-                        residual.setdefault(v, {})[u] = flow[arc]
-
-                        if residual[u][v] == 0:
-                            del residual[u][v]
-
-                        if residual[v][u] == 0:
-                            del residual[v][u]
-
-                        if len(residual[u]) == 0:
-                            del residual[u]
-
-                        if len(residual[v]) == 0:
-                            del residual[v]
+                        self._push_flow(flow, residual, node, endpoint, push_value)
 
                         if not node == source and not node == sink:
                             excess[node] -= push_value
@@ -534,28 +545,7 @@ class DirectedGraph:
             v = sink
 
             while u is not None:
-                arc = (u, v)
-
-                if arc not in flow:
-                    arc = (v, u)
-                    flow[arc] -= min_residual
-                else:
-                    flow[arc] += min_residual
-
-                residual.setdefault(u, {})[v] = self._arcs[arc] - flow[arc]
-                residual.setdefault(v, {})[u] = flow[arc]
-
-                if residual[u][v] == 0:
-                    del residual[u][v]
-
-                if residual[v][u] == 0:
-                    del residual[v][u]
-
-                if len(residual[u]) == 0:
-                    del residual[u]
-
-                if len(residual[v]) == 0:
-                    del residual[v]
+                self._push_flow(flow, residual, u, v, min_residual)
 
                 v = u
                 u = path.get(u, None)
-- 
2.43.0


From 375351349cef232481eb31a0445567f8d72ad89d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:28 +0000
Subject: [PATCH 12/37] fix: a linear program owns its data instead of sharing
 the caller's arrays

---
 pytimize/programs/_linear.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pytimize/programs/_linear.py b/pytimize/programs/_linear.py
index 94e9de5..149e8bb 100644
--- a/pytimize/programs/_linear.py
+++ b/pytimize/programs/_linear.py
@@ -63,9 +63,9 @@ class LinearProgram:
             Indices of where the variables are negative (x <= 0). Use math indexing (first position starts at 1).
 
         """
-        A = self.__to_ndarray(A)
-        b = self.__to_ndarray(b)
-        c = self.__to_ndarray(c)
+        A = self.__to_ndarray(A).copy()
+        b = self.__to_ndarray(b).copy()
+        c = self.__to_ndarray(c).copy()
         # TODO allow unconstrained
         if not A.ndim == 2:
             raise ValueError("The given `A` is not a matrix.")
-- 
2.43.0


From 90502777971063a5b042d85ce825ce511294d64e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:30 +0000
Subject: [PATCH 13/37] fix: comparing linear programs compares the arrays as a
 whole

---
 pytimize/programs/_linear.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pytimize/programs/_linear.py b/pytimize/programs/_linear.py
index 149e8bb..9e36466 100644
--- a/pytimize/programs/_linear.py
+++ b/pytimize/programs/_linear.py
@@ -393,9 +393,9 @@ class LinearProgram:
     def __eq__(self, other: "LinearProgram") -> bool:
         # TODO Work in progress
         return (
-            other._A == self._A
-            and other._b == self._b
-            and other._c == self._c
+            np.array_equal(other._A, self._A)
+            and np.array_equal(other._b, self._b)
+            and np.array_equal(other._c, self._c)
             and other._z == self._z
             and other._objective == self._objective
             and other._inequality_indices == self._inequality_indices
-- 
2.43.0


From 4701f25be33c1e9435008095792261e8f6c06121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:32 +0000
Subject: [PATCH 14/37] fix: is_canonical_form_for looks at the columns of the
 basis

---
 pytimize/programs/_linear.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pytimize/programs/_linear.py b/pytimize/programs/_linear.py
index 9e36466..3bb6207 100644
--- a/pytimize/programs/_linear.py
+++ b/pytimize/programs/_linear.py
@@ -531,13 +531,15 @@ class LinearProgram:
             Whether or not the model is in canonical form for the basis.
 
         """
+        if not self.is_basis(basis):
+            return False
+
         basis = self.__array_like_to_list(basis)
         basis = self.__convert_indices(basis, 0, self._c.shape[0])
 
         return all(
             [
-                self.is_basis(basis),
-                np.allclose(self._A[basis], np.eye(len(basis))),
+                np.allclose(self._A[:, basis], np.eye(len(basis))),
                 np.allclose(self._c[basis], 0),
             ]
         )
-- 
2.43.0


From 34e0bfdac9c8a5c8233db9cc218079a04720a04a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:36 +0000
Subject: [PATCH 15/37] fix: is_feasible_basic_solution compares the vector
 with the number of variables

---
 pytimize/programs/_linear.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytimize/programs/_linear.py b/pytimize/programs/_linear.py
index 3bb6207..2505fae 100644
--- a/pytimize/programs/_linear.py
+++ b/pytimize/programs/_linear.py
@@ -622,7 +622,7 @@ class LinearProgram:
         """
         x = self.__to_ndarray(x)
 
-        if not self.__is_vector_of_size(x, self._c):
+        if not self.__is_vector_of_size(x, self._c.shape[0]):
             raise ValueError()
 
         return Comparator.is_close_compare(x, ">=", 0) and self.is_basic_solution(
-- 
2.43.0


From e01e33c4caea41f786c64c19e4a3c835dd8377ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:40 +0000
Subject: [PATCH 16/37] fix: compute_basic_solution keeps components with their
 columns for unsorted bases

---
 pytimize/programs/_linear.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/pytimize/programs/_linear.py b/pytimize/programs/_linear.py
index 2505fae..a4b007f 100644
--- a/pytimize/programs/_linear.py
+++ b/pytimize/programs/_linear.py
@@ -1708,8 +1708,6 @@ class LinearProgram:
         components = np.linalg.inv(self._A[:, basis]) @ self._b
         solution = np.zeros(self._c.shape[0])
 
-        basis.sort()  # TODO copy? To prevent reference
-
         for index, value in zip(basis, components):
             solution[index] = value
 
-- 
2.43.0


From 4afee714003b8c16a6ffb3f373e21af276d6748d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:44 +0000
Subject: [PATCH 17/37] fix: clear_steps on a copy no longer recurses forever

---
 pytimize/programs/_linear.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytimize/programs/_linear.py b/pytimize/programs/_linear.py
index a4b007f..b26bb4c 100644
--- a/pytimize/programs/_linear.py
+++ b/pytimize/programs/_linear.py
@@ -1646,7 +1646,7 @@ class LinearProgram:
 
         """
         if not in_place:
-            return self.copy().clear_steps()
+            return self.copy().clear_steps(True)
 
         self._steps = []
 
-- 
2.43.0


From 6f99529a4bfd8b7119cdc3af62cc3490053a28de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:47 +0000
Subject: [PATCH 18/37] fix: add_variable leaves the program untouched when the
 column does not fit

---
 pytimize/programs/_linear.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pytimize/programs/_linear.py b/pytimize/programs/_linear.py
index b26bb4c..7b6c40f 100644
--- a/pytimize/programs/_linear.py
+++ b/pytimize/programs/_linear.py
@@ -501,6 +501,9 @@ class LinearProgram:
         if free and negative:
             raise ValueError()
 
+        # TODO validation checks are needed
+        A = np.c_[self._A, column if column is not None else [0] * self._A.shape[0]]
+
         if free:
             self._free_variables.append(self._c.shape[0])
             self._is_sef = False
@@ -508,10 +511,7 @@ class LinearProgram:
             self._negative_variables.append(self._c.shape[0])
             self._is_sef = False
 
-        # TODO validation checks are needed
-        self._A = np.c_[
-            self._A, column if column is not None else [0] * self._A.shape[0]
-        ]
+        self._A = A
         self._c = np.r_[self._c, coefficient]
 
         return self
-- 
2.43.0


From 6288dcdbd5398253aaeb50d27177718d72a0ac9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:51 +0000
Subject: [PATCH 19/37] fix: solve starts simplex from the slack basis only
 when that basis is feasible

---
 pytimize/programs/_linear.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytimize/programs/_linear.py b/pytimize/programs/_linear.py
index 7b6c40f..bd92c24 100644
--- a/pytimize/programs/_linear.py
+++ b/pytimize/programs/_linear.py
@@ -928,7 +928,7 @@ class LinearProgram:
 
         if columns >= rows:
             basis_candidate = [i for i in range(rows + 1, columns + 1)]
-            if sef.is_basis(basis_candidate):
+            if sef.is_basis_feasible(basis_candidate):
                 try:
                     solution = sef.simplex(basis_candidate, show_steps)[0]
 
-- 
2.43.0


From 57281d01fa4703c499e5ec3abd3916318322333d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:54 +0000
Subject: [PATCH 20/37] fix: the simplex ratio test takes the smallest ratio,
 not one merely close to it

---
 pytimize/programs/_linear.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytimize/programs/_linear.py b/pytimize/programs/_linear.py
index bd92c24..fe4c66f 100644
--- a/pytimize/programs/_linear.py
+++ b/pytimize/programs/_linear.py
@@ -1185,7 +1185,7 @@ class LinearProgram:
             if Comparator.is_positive(Ak[i]):
                 ratio = self._b[i] / Ak[i]
 
-                if Comparator.is_close_compare(ratio, "<", t):
+                if ratio < t:
                     t = ratio
                     leave = i
 
-- 
2.43.0


From 6908ea57e3579b99d8728e336f1d5cb3e1994fc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:58 +0000
Subject: [PATCH 21/37] fix: the unboundedness certificate uses the column the
 simplex iteration entered on

---
 pytimize/programs/_linear.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytimize/programs/_linear.py b/pytimize/programs/_linear.py
index fe4c66f..6b01b46 100644
--- a/pytimize/programs/_linear.py
+++ b/pytimize/programs/_linear.py
@@ -1091,7 +1091,7 @@ class LinearProgram:
 
         if basis is None:
             certificate = updated_lp._feasible_solution, np.zeros(self._c.shape[0])
-            k = np.argmax(updated_lp.c > 0)
+            k = np.argmax([Comparator.is_positive(i) for i in updated_lp.c])
             certificate[1][updated_lp._feasible_basis] = -updated_lp.A[:, k]
             certificate[1][k] = 1
 
-- 
2.43.0


From 28af1aabb3322ef17bdded10d1806bb9007f3834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:01 +0000
Subject: [PATCH 22/37] fix: simplex does not certify unboundedness with an
 infeasible point

---
 pytimize/programs/_linear.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pytimize/programs/_linear.py b/pytimize/programs/_linear.py
index 6b01b46..7567789 100644
--- a/pytimize/programs/_linear.py
+++ b/pytimize/programs/_linear.py
@@ -1176,6 +1176,9 @@ class LinearProgram:
         t = math.inf
 
         if Comparator.is_close_compare(Ak, "<=", 0):
+            if any(Comparator.is_negative(i) for i in x):
+                raise ArithmeticError("The given basis is infeasible.")
+
             self._feasible_solution = x
             self._feasible_basis = basis
 
-- 
2.43.0


From bbb838f8d5fb8ba1d791c125fcbf8de1f5a6d963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:04 +0000
Subject: [PATCH 23/37] fix: simplex leaves the program as it was, also when it
 raises

---
 pytimize/programs/_linear.py | 8 --------
 1 file changed, 8 deletions(-)

diff --git a/pytimize/programs/_linear.py b/pytimize/programs/_linear.py
index 7567789..b8a8095 100644
--- a/pytimize/programs/_linear.py
+++ b/pytimize/programs/_linear.py
@@ -1074,10 +1074,6 @@ class LinearProgram:
         certificate = None
         updated_lp = None
         counter = 0
-        negative_indices = np.where(self._b < 0)
-
-        self._b[negative_indices] *= -1
-        self._A[negative_indices] *= -1
 
         show_steps and self.__append_to_steps(("5.02", counter))
         show_steps and self.__append_to_steps(("5.01", self))
@@ -1101,15 +1097,11 @@ class LinearProgram:
             certificate = (
                 np.linalg.inv(self._A[:, converted_basis].T) @ self._c[converted_basis]
             )
-            certificate[negative_indices] *= -1
 
             show_steps and self.__append_to_steps(("5.03", solution))
             show_steps and self.__append_to_steps(("5.04", basis))
             show_steps and self.__append_to_steps(("5.06", certificate))
 
-        self._b[negative_indices] *= -1
-        self._A[negative_indices] *= -1
-
         return solution, basis, certificate
 
     def simplex_iteration(
-- 
2.43.0


From b8f5528cac6248001108a123ec88615521b58f67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:06 +0000
Subject: [PATCH 24/37] fix: branch and bound keeps free and negative variables
 in its branches

---
 pytimize/programs/_integer.py | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/pytimize/programs/_integer.py b/pytimize/programs/_integer.py
index d47d31a..06818d7 100644
--- a/pytimize/programs/_integer.py
+++ b/pytimize/programs/_integer.py
@@ -107,7 +107,14 @@ class IntegerProgram(LinearProgram):
                 new_b = np.append(copy_b, np.floor(value))
                 new_inequalities.append("<=")
                 lp_lower = LinearProgram(
-                    new_A, new_b, lp.c, lp.z, lp.objective, new_inequalities
+                    new_A,
+                    new_b,
+                    lp.c,
+                    lp.z,
+                    lp.objective,
+                    new_inequalities,
+                    lp.free_variables,
+                    lp.negative_variables,
                 )
 
                 lower_result = self.__branch(lp_lower)
@@ -116,7 +123,14 @@ class IntegerProgram(LinearProgram):
                 new_b[len(lp.b)] = np.ceil(value)
                 new_inequalities[len(new_inequalities) - 1] = ">="
                 lp_higher = LinearProgram(
-                    new_A, new_b, lp.c, lp.z, lp.objective, new_inequalities
+                    new_A,
+                    new_b,
+                    lp.c,
+                    lp.z,
+                    lp.objective,
+                    new_inequalities,
+                    lp.free_variables,
+                    lp.negative_variables,
                 )
 
                 higher_result = self.__branch(lp_higher)
-- 
2.43.0


From 422de0ddb2f104e296370affde7c09bea2f1a6a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:08 +0000
Subject: [PATCH 25/37] fix: branch and bound keeps the smaller value when
 minimising

---
 pytimize/programs/_integer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytimize/programs/_integer.py b/pytimize/programs/_integer.py
index 06818d7..c0243b3 100644
--- a/pytimize/programs/_integer.py
+++ b/pytimize/programs/_integer.py
@@ -150,7 +150,7 @@ class IntegerProgram(LinearProgram):
                     if higher_result[1] > lower_result[1]:
                         return higher_result
                     return lower_result
-                elif higher_result[1] > lower_result[1]:
+                elif higher_result[1] < lower_result[1]:
                     return higher_result
                 return lower_result
 
-- 
2.43.0


From 3aa8edc9fe47f0acf54498f0c6010c5a84defc54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:10 +0000
Subject: [PATCH 26/37] fix: integral_variables uses math indexing like every
 other index list

---
 pytimize/programs/_integer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytimize/programs/_integer.py b/pytimize/programs/_integer.py
index c0243b3..e9c1d20 100644
--- a/pytimize/programs/_integer.py
+++ b/pytimize/programs/_integer.py
@@ -88,7 +88,7 @@ class IntegerProgram(LinearProgram):
             # if value is not integer, make sure it is has the integral constraint before branching - not working atm
             if (
                 self._integral_variables is not None
-                and position not in self._integral_variables
+                and position + 1 not in self._integral_variables
             ):
                 position += 1
                 continue
-- 
2.43.0


From 7819ac0e52c047b09f81c61253af7fb1b319c0f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:13 +0000
Subject: [PATCH 27/37] fix: maximising an unconstrained program ascends the
 target and returns the point itself

---
 pytimize/programs/_unconstrained.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/pytimize/programs/_unconstrained.py b/pytimize/programs/_unconstrained.py
index 3b53e2e..aab3d65 100644
--- a/pytimize/programs/_unconstrained.py
+++ b/pytimize/programs/_unconstrained.py
@@ -22,10 +22,8 @@ class UnconstrainedProgram:
             The objective of the program. Must be either `max` or `min`.
 
         """
-        if objective == "max":
-            self._f = lambda x: -f(x)
-        self._f = f
         self._minimize = objective == "min"
+        self._f = f if self._minimize else lambda x: -f(x)
 
     def steepest_descent(
         self,
@@ -65,11 +63,13 @@ class UnconstrainedProgram:
             The maximum number of iterations.
 
         """
+        gradient = df if self._minimize else lambda x: -df(x)
+
         for _ in range(int(max_iteration)):
-            d = -df(x)
+            d = -gradient(x)
             a = alpha
 
-            while self._f(x + a * d) > self._f(x) + c * a * df(x) @ d:
+            while self._f(x + a * d) > self._f(x) + c * a * gradient(x) @ d:
                 a *= p
 
             x += a * d
@@ -77,7 +77,7 @@ class UnconstrainedProgram:
             if np.linalg.norm(df(x)) <= tolerance:
                 break
 
-        return x if self._minimize else -x
+        return x
 
     def newton_method(
         self,
@@ -116,4 +116,4 @@ class UnconstrainedProgram:
             if np.linalg.norm(df(x)) <= tolerance:
                 break
 
-        return x if self._minimize else -x
+        return x
-- 
2.43.0


From 100b66952035e28a740a98f267e7afb997f140af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:15 +0000
Subject: [PATCH 28/37] fix: descent methods leave the caller's starting point
 alone

---
 pytimize/programs/_unconstrained.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pytimize/programs/_unconstrained.py b/pytimize/programs/_unconstrained.py
index aab3d65..0a203c5 100644
--- a/pytimize/programs/_unconstrained.py
+++ b/pytimize/programs/_unconstrained.py
@@ -72,7 +72,7 @@ class UnconstrainedProgram:
             while self._f(x + a * d) > self._f(x) + c * a * gradient(x) @ d:
                 a *= p
 
-            x += a * d
+            x = x + a * d
 
             if np.linalg.norm(df(x)) <= tolerance:
                 break
@@ -111,7 +111,7 @@ class UnconstrainedProgram:
 
         for _ in range(int(max_iteration)):
             d = np.linalg.solve(d2f(x), -df(x))
-            x += d
+            x = x + d
 
             if np.linalg.norm(df(x)) <= tolerance:
                 break
-- 
2.43.0


From e9daf05481fef9fd3dd3a6d969097e7600f9a5c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:53 +0000
Subject: [PATCH 29/37] fix: negating or scaling an expression also negates or
 scales its constant

---
 pytimize/formulations/linear/_equation.py | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/pytimize/formulations/linear/_equation.py b/pytimize/formulations/linear/_equation.py
index 50b75f1..3c4ab43 100644
--- a/pytimize/formulations/linear/_equation.py
+++ b/pytimize/formulations/linear/_equation.py
@@ -13,11 +13,7 @@ class LinearEquation:
         self._constant = constant
 
     def __neg__(self) -> "LinearEquation":
-        self._terms = {
-            label: -coefficient for label, coefficient in self._terms.items()
-        }
-
-        return self
+        return self * -1
 
     def __pos__(self) -> "LinearEquation":
         return self
@@ -54,11 +50,13 @@ class LinearEquation:
 
     def __mul__(self, other: float) -> "LinearEquation":
         if isinstance(other, float) or isinstance(other, int):
-            self._terms = {
-                label: coefficient * other for label, coefficient in self._terms.items()
-            }
-
-            return self
+            return LinearEquation(
+                {
+                    label: coefficient * other
+                    for label, coefficient in self._terms.items()
+                },
+                self._constant * other,
+            )
 
     def __rmul__(self, other) -> "LinearEquation":
         return self * other
-- 
2.43.0


From 43855d7a07f7c2b93a47a3c403ef79b9e3571106 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:55 +0000
Subject: [PATCH 30/37] fix: adding expressions builds a new one and adds the
 constants too

---
 pytimize/formulations/linear/_equation.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/pytimize/formulations/linear/_equation.py b/pytimize/formulations/linear/_equation.py
index 3c4ab43..926cc49 100644
--- a/pytimize/formulations/linear/_equation.py
+++ b/pytimize/formulations/linear/_equation.py
@@ -19,19 +19,23 @@ class LinearEquation:
         return self
 
     def __add__(self, other) -> "LinearEquation":
+        result = LinearEquation(dict(self._terms), self._constant)
+
         if isinstance(other, LinearEquation):
+            result._constant += other.constant
+
             for label, coefficient in other.terms.items():
-                self._terms.setdefault(label, 0)
+                result._terms.setdefault(label, 0)
 
-                self._terms[label] += coefficient
+                result._terms[label] += coefficient
         elif isinstance(other, float) or isinstance(other, int):
-            self._constant += other
+            result._constant += other
         elif hasattr(other, "key"):
-            self._terms.setdefault(other.key, 0)
+            result._terms.setdefault(other.key, 0)
 
-            self._terms[other.key] += 1
+            result._terms[other.key] += 1
 
-        return self
+        return result
 
     def __radd__(self, other) -> "LinearEquation":
         return self + other
-- 
2.43.0


From 35eef320ce5d4ea09992cfd5c355c7906b937dd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:57 +0000
Subject: [PATCH 31/37] fix: a constraint with a constant left side moves the
 right side over with its sign

---
 pytimize/formulations/linear/_equation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytimize/formulations/linear/_equation.py b/pytimize/formulations/linear/_equation.py
index 926cc49..f90c8b1 100644
--- a/pytimize/formulations/linear/_equation.py
+++ b/pytimize/formulations/linear/_equation.py
@@ -95,7 +95,7 @@ class LinearEquation:
         self, array_one: Optional[np.ndarray], array_two: Optional[np.ndarray]
     ) -> Optional[np.ndarray]:
         if array_one is None:
-            return array_two
+            return None if array_two is None else -array_two
 
         if array_two is None:
             return array_one
-- 
2.43.0


From b0d68da9dfd1598311ea96f90b79b0d56f9136a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:59 +0000
Subject: [PATCH 32/37] fix: an objective may use variables that no constraint
 mentions

---
 pytimize/formulations/linear/_objective.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pytimize/formulations/linear/_objective.py b/pytimize/formulations/linear/_objective.py
index 1102556..e30ca8b 100644
--- a/pytimize/formulations/linear/_objective.py
+++ b/pytimize/formulations/linear/_objective.py
@@ -24,6 +24,10 @@ class ObjectiveFunction:
 
         inequalities = []
         length = max(constraint.coefficients.shape[0] for constraint in constraints)
+
+        if self._c is not None:
+            length = max(length, self._c.shape[0])
+
         A = np.empty(length)
         b = np.empty(1)
 
-- 
2.43.0


From d8c882c49b7125ff9c485b5c5fdad9513ef0ee89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:01 +0000
Subject: [PATCH 33/37] fix: the linear parser no longer takes | for a sign

---
 pytimize/parsers/_linear.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytimize/parsers/_linear.py b/pytimize/parsers/_linear.py
index d71e7ed..cd09ec0 100644
--- a/pytimize/parsers/_linear.py
+++ b/pytimize/parsers/_linear.py
@@ -42,6 +42,6 @@ class LinearParser:
 
     @staticmethod
     def validate_expression(candidate):
-        validation = re.compile(r"^-?\d+(?:\.\d+)?x_\d+(?:[+|-]\d+(?:\.\d+)?x_\d+)*$")
+        validation = re.compile(r"^-?\d+(?:\.\d+)?x_\d+(?:[+-]\d+(?:\.\d+)?x_\d+)*$")
 
         return validation.match(candidate) is not None
-- 
2.43.0


From e8562b8f89ded124060e74e81b325b1999119215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:03 +0000
Subject: [PATCH 34/37] fix: the linear parser rejects variable index 0 instead
 of writing the last entry

---
 pytimize/parsers/_linear.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pytimize/parsers/_linear.py b/pytimize/parsers/_linear.py
index cd09ec0..9095128 100644
--- a/pytimize/parsers/_linear.py
+++ b/pytimize/parsers/_linear.py
@@ -15,6 +15,9 @@ class LinearParser:
             for sign, coefficient, index in term.findall(expression):
                 index = int(index) - 1
 
+                if index < 0:
+                    raise Exception()
+
                 if index in data:
                     raise Exception()
                 else:
-- 
2.43.0


From 2a0f6e2d3bee0885367d4ab2597817cce4dddafc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:31 +0000
Subject: [PATCH 35/37] fix: a constraint may have a bare variable on its right
 side

---
 pytimize/formulations/linear/_equation.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pytimize/formulations/linear/_equation.py b/pytimize/formulations/linear/_equation.py
index f90c8b1..cef02c6 100644
--- a/pytimize/formulations/linear/_equation.py
+++ b/pytimize/formulations/linear/_equation.py
@@ -82,6 +82,8 @@ class LinearEquation:
     ) -> LinearConstraint:
         if isinstance(other, float) or isinstance(other, int):
             other = LinearEquation({}, other)
+        elif hasattr(other, "key"):
+            other = other.equation
 
         constant = other.constant - self._constant
         coefficients = self._broadcast_subtract(self.coefficients, other.coefficients)
-- 
2.43.0


From 5ac473ae7f35564dd14c66b85f40d532b143833c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:33 +0000
Subject: [PATCH 36/37] fix: an objective may be a bare variable

---
 pytimize/formulations/linear/_objective.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pytimize/formulations/linear/_objective.py b/pytimize/formulations/linear/_objective.py
index e30ca8b..e09896e 100644
--- a/pytimize/formulations/linear/_objective.py
+++ b/pytimize/formulations/linear/_objective.py
@@ -10,6 +10,9 @@ from ._utilities import pad_right
 
 class ObjectiveFunction:
     def __init__(self, equation: LinearEquation, objective: str):
+        if hasattr(equation, "key"):
+            equation = equation.equation
+
         self._c = equation.coefficients
         self._z = equation.constant
         self._objective = objective
-- 
2.43.0


From 216a5e5ae6375d37bfdab6f96666added4cb80c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:02 +0000
Subject: [PATCH 37/37] fix: IntegerProgram keeps its own list of integral
 variables

---
 pytimize/programs/_integer.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pytimize/programs/_integer.py b/pytimize/programs/_integer.py
index e9c1d20..120e2ea 100644
--- a/pytimize/programs/_integer.py
+++ b/pytimize/programs/_integer.py
@@ -28,7 +28,9 @@ class IntegerProgram(LinearProgram):
             A, b, c, z, objective, inequalities, free_variables, negative_variables
         )
 
-        self._integral_variables = integral_variables
+        self._integral_variables = (
+            list(integral_variables) if integral_variables is not None else None
+        )
 
     def __repr__(self) -> str:  # TODO add integral constraint
         output = super().__repr__().rstrip("\n")
-- 
2.43.0

