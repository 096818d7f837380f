From 30219519805196c3865b1d95443f2a273b88afc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:53 +0000
Subject: [PATCH 01/38] fix: simplex no longer edits the program while it runs

---
 pytimize/programs/_linear.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/pytimize/programs/_linear.py b/pytimize/programs/_linear.py
index 94e9de5..6fd0712 100644
--- a/pytimize/programs/_linear.py
+++ b/pytimize/programs/_linear.py
@@ -1073,15 +1073,16 @@ class LinearProgram:
         updated_lp = None
         counter = 0
         negative_indices = np.where(self._b < 0)
+        program = self.copy()
 
-        self._b[negative_indices] *= -1
-        self._A[negative_indices] *= -1
+        program._b[negative_indices] *= -1
+        program._A[negative_indices] *= -1
 
         show_steps and self.__append_to_steps(("5.02", counter))
-        show_steps and self.__append_to_steps(("5.01", self))
+        show_steps and self.__append_to_steps(("5.01", program))
 
         while solution is None and basis is not None:
-            solution, basis, updated_lp = self.simplex_iteration(basis, show_steps)
+            solution, basis, updated_lp = program.simplex_iteration(basis, show_steps)
             counter += 1
 
             show_steps and self.__append_to_steps(("5.02", counter))
@@ -1097,7 +1098,8 @@ class LinearProgram:
         else:
             converted_basis = self.__to_array_indexing(basis)
             certificate = (
-                np.linalg.inv(self._A[:, converted_basis].T) @ self._c[converted_basis]
+                np.linalg.inv(program._A[:, converted_basis].T)
+                @ program._c[converted_basis]
             )
             certificate[negative_indices] *= -1
 
@@ -1105,9 +1107,6 @@ class LinearProgram:
             show_steps and self.__append_to_steps(("5.04", basis))
             show_steps and self.__append_to_steps(("5.06", certificate))
 
-        self._b[negative_indices] *= -1
-        self._A[negative_indices] *= -1
-
         return solution, basis, certificate
 
     def simplex_iteration(
-- 
2.43.0


From ccd0d31e144ddf4da2f1495dbf5852e23e981530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:27 +0000
Subject: [PATCH 02/38] fix: programs no longer share arrays with the caller or
 with their duals

---
 pytimize/programs/_linear.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pytimize/programs/_linear.py b/pytimize/programs/_linear.py
index 6fd0712..5e344e8 100644
--- a/pytimize/programs/_linear.py
+++ b/pytimize/programs/_linear.py
@@ -1663,9 +1663,9 @@ class LinearProgram:
                 raise ValueError()
 
             if not np.issubdtype(source.dtype, np.floating):
-                source = source.astype(float)
+                return source.astype(float)
 
-            return source
+            return source.copy()
 
         if isinstance(source, list):
             length = None
-- 
2.43.0


From 1574875c62cbc9f2306a3761ce3ed4e225066cee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:31 +0000
Subject: [PATCH 03/38] fix: rejected constraints and variables leave the
 program unchanged

---
 pytimize/programs/_linear.py | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/pytimize/programs/_linear.py b/pytimize/programs/_linear.py
index 5e344e8..5e90d7d 100644
--- a/pytimize/programs/_linear.py
+++ b/pytimize/programs/_linear.py
@@ -448,14 +448,17 @@ class LinearProgram:
         if not inequality in ["=", ">=", "<="]:
             raise ValueError()
 
+        # TODO check for linearly dependent rows
+
+        A = np.r_[self._A, [coefficients]]
+        b = np.r_[self._b, value]
+
         if inequality == ">=" or inequality == "<=":
             self._inequality_indices[self._A.shape[0]] = inequality
             self._is_sef = False
 
-        # TODO check for linearly dependent rows
-
-        self._A = np.r_[self._A, [coefficients]]
-        self._b = np.r_[self._b, value]
+        self._A = A
+        self._b = b
 
         return self
 
@@ -501,6 +504,10 @@ class LinearProgram:
         if free and negative:
             raise ValueError()
 
+        # TODO validation checks are needed
+        A = np.c_[self._A, column if column is not None else [0] * self._A.shape[0]]
+        c = np.r_[self._c, coefficient]
+
         if free:
             self._free_variables.append(self._c.shape[0])
             self._is_sef = False
@@ -508,11 +515,8 @@ class LinearProgram:
             self._negative_variables.append(self._c.shape[0])
             self._is_sef = False
 
-        # TODO validation checks are needed
-        self._A = np.c_[
-            self._A, column if column is not None else [0] * self._A.shape[0]
-        ]
-        self._c = np.r_[self._c, coefficient]
+        self._A = A
+        self._c = c
 
         return self
 
-- 
2.43.0


From 59e472d338dd48420a6dba3f4e95ede36478a5e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:34 +0000
Subject: [PATCH 04/38] fix: a simplex step that fails leaves the program
 unchanged

---
 pytimize/programs/_linear.py | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/pytimize/programs/_linear.py b/pytimize/programs/_linear.py
index 5e90d7d..3e139d7 100644
--- a/pytimize/programs/_linear.py
+++ b/pytimize/programs/_linear.py
@@ -1142,9 +1142,23 @@ class LinearProgram:
         if not self._is_sef:
             raise ArithmeticError("Linear program must be in SEF.")
 
+        program = self.copy()
+        solution, basis, _ = program.__simplex_iteration(basis, show_steps)
+
         if not in_place:
-            return self.copy().simplex_iteration(basis, show_steps, True)
+            return solution, basis, program
+
+        self.__dict__.update(program.__dict__)
+
+        return solution, basis, self
 
+    def __simplex_iteration(
+        self, basis: List[int], show_steps: bool
+    ) -> Tuple[Optional[np.ndarray], Optional[List[int]], "LinearProgram"]:
+        """
+        Helper function for computing a single iteration of the simplex algorithm on this program.
+
+        """
         if not self.is_basis(basis):
             raise ValueError("The given basis is invalid.")
 
-- 
2.43.0


From ad39046a23fa978e4b8ab9a81ec0f97aebea9623 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:37 +0000
Subject: [PATCH 05/38] fix: clear_steps on a copy no longer recurses forever

---
 pytimize/programs/_linear.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytimize/programs/_linear.py b/pytimize/programs/_linear.py
index 3e139d7..3842d8e 100644
--- a/pytimize/programs/_linear.py
+++ b/pytimize/programs/_linear.py
@@ -1661,7 +1661,7 @@ class LinearProgram:
 
         """
         if not in_place:
-            return self.copy().clear_steps()
+            return self.copy().clear_steps(True)
 
         self._steps = []
 
-- 
2.43.0


From 311bd3a1f4bb4a253bd92f1c2b0b6fee426bbe0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:40 +0000
Subject: [PATCH 06/38] fix: solve starts from the slack basis only if it is
 feasible and reports failures

---
 pytimize/programs/_linear.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/pytimize/programs/_linear.py b/pytimize/programs/_linear.py
index 3842d8e..eab4160 100644
--- a/pytimize/programs/_linear.py
+++ b/pytimize/programs/_linear.py
@@ -930,13 +930,10 @@ class LinearProgram:
 
         if columns >= rows:
             basis_candidate = [i for i in range(rows + 1, columns + 1)]
-            if sef.is_basis(basis_candidate):
-                try:
-                    solution = sef.simplex(basis_candidate, show_steps)[0]
+            if sef.is_basis_feasible(basis_candidate):
+                solution = sef.simplex(basis_candidate, show_steps)[0]
 
-                    if solution is None:
-                        return None
-                except ArithmeticError:
+                if solution is None:
                     return None
 
         if solution is None:
-- 
2.43.0


From 0e19960a288cdf77c9cdbee64500e639885bd7bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:44 +0000
Subject: [PATCH 07/38] fix: solve and verify_unboundedness respect show_steps

---
 pytimize/programs/_linear.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pytimize/programs/_linear.py b/pytimize/programs/_linear.py
index eab4160..61f8e81 100644
--- a/pytimize/programs/_linear.py
+++ b/pytimize/programs/_linear.py
@@ -922,7 +922,7 @@ class LinearProgram:
 
         """
         if self._is_sef:
-            return self.two_phase_simplex()[0]
+            return self.two_phase_simplex(show_steps)[0]
 
         sef = self.to_sef(show_steps)
         rows, columns = sef.A.shape
@@ -1270,7 +1270,7 @@ class LinearProgram:
         certificate = self.__to_ndarray(certificate)
         x = self.__to_ndarray(x)
 
-        if not self.is_feasible(x):
+        if not self.is_feasible(x, show_steps):
             return False
 
         if Comparator.is_close_compare(self._c @ certificate, "<=", 0):
-- 
2.43.0


From 2a8a4a55f097597d999feaae2458f3f5383bf705 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:24 +0000
Subject: [PATCH 08/38] fix: graph_polyhedron neither edits the program nor
 truncates coefficients

---
 pytimize/programs/_linear.py | 25 ++++++++++---------------
 1 file changed, 10 insertions(+), 15 deletions(-)

diff --git a/pytimize/programs/_linear.py b/pytimize/programs/_linear.py
index 61f8e81..54d01a5 100644
--- a/pytimize/programs/_linear.py
+++ b/pytimize/programs/_linear.py
@@ -1414,14 +1414,15 @@ class LinearProgram:
             copy_b, [graph_limit, -graph_limit, graph_limit, -graph_limit]
         )
 
-        num_inequalities = len(self._inequality_indices)
-        self._inequality_indices[num_inequalities] = "<="
-        self._inequality_indices[num_inequalities + 1] = ">="
-        self._inequality_indices[num_inequalities + 2] = "<="
-        self._inequality_indices[num_inequalities + 3] = ">="
+        inequality_indices = self._inequality_indices.copy()
+        num_inequalities = len(inequality_indices)
+        inequality_indices[num_inequalities] = "<="
+        inequality_indices[num_inequalities + 1] = ">="
+        inequality_indices[num_inequalities + 2] = "<="
+        inequality_indices[num_inequalities + 3] = ">="
 
-        A = np.array([[0, 0], [0, 0]])
-        b = np.array([0, 0])
+        A = np.zeros((2, 2))
+        b = np.zeros(2)
 
         shape = copy_A.shape
         points = []
@@ -1456,10 +1457,10 @@ class LinearProgram:
             for i in range(len(copy_A)):
                 value = point[0] * copy_A[i, 0] + point[1] * copy_A[i, 1]
 
-                if self._inequality_indices[i] == "<=":
+                if inequality_indices[i] == "<=":
                     if value > copy_b[i] and not math.isclose(value, copy_b[i]):
                         valid_point = False
-                elif self._inequality_indices[i] == ">=":
+                elif inequality_indices[i] == ">=":
                     if value < copy_b[i] and not math.isclose(value, copy_b[i]):
                         valid_point = False
 
@@ -1490,12 +1491,6 @@ class LinearProgram:
         # prepare the points for plotting
         xs, ys = zip(*points)
 
-        # remove added boundary inequalities so data isn't mutated
-        del self._inequality_indices[num_inequalities + 3]
-        del self._inequality_indices[num_inequalities + 2]
-        del self._inequality_indices[num_inequalities + 1]
-        del self._inequality_indices[num_inequalities]
-
         # plot and display the feasible region
         plt.figure()
         plt.plot(xs, ys)
-- 
2.43.0


From 9629cf2cce6ed762407f21b7c8208a2b101d701d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:27 +0000
Subject: [PATCH 09/38] fix: branch and bound keeps variable signs and
 minimises when asked to

---
 pytimize/programs/_integer.py | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/pytimize/programs/_integer.py b/pytimize/programs/_integer.py
index d47d31a..c0243b3 100644
--- a/pytimize/programs/_integer.py
+++ b/pytimize/programs/_integer.py
@@ -107,7 +107,14 @@ class IntegerProgram(LinearProgram):
                 new_b = np.append(copy_b, np.floor(value))
                 new_inequalities.append("<=")
                 lp_lower = LinearProgram(
-                    new_A, new_b, lp.c, lp.z, lp.objective, new_inequalities
+                    new_A,
+                    new_b,
+                    lp.c,
+                    lp.z,
+                    lp.objective,
+                    new_inequalities,
+                    lp.free_variables,
+                    lp.negative_variables,
                 )
 
                 lower_result = self.__branch(lp_lower)
@@ -116,7 +123,14 @@ class IntegerProgram(LinearProgram):
                 new_b[len(lp.b)] = np.ceil(value)
                 new_inequalities[len(new_inequalities) - 1] = ">="
                 lp_higher = LinearProgram(
-                    new_A, new_b, lp.c, lp.z, lp.objective, new_inequalities
+                    new_A,
+                    new_b,
+                    lp.c,
+                    lp.z,
+                    lp.objective,
+                    new_inequalities,
+                    lp.free_variables,
+                    lp.negative_variables,
                 )
 
                 higher_result = self.__branch(lp_higher)
@@ -136,7 +150,7 @@ class IntegerProgram(LinearProgram):
                     if higher_result[1] > lower_result[1]:
                         return higher_result
                     return lower_result
-                elif higher_result[1] > lower_result[1]:
+                elif higher_result[1] < lower_result[1]:
                     return higher_result
                 return lower_result
 
-- 
2.43.0


From 4e3756016a20c2d202c515c10f4978b36a17de64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:04 +0000
Subject: [PATCH 10/38] fix: copies of an undirected graph no longer share
 adjacency sets

---
 pytimize/graphs/_undirected.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pytimize/graphs/_undirected.py b/pytimize/graphs/_undirected.py
index 5ceebbe..31cbf3a 100644
--- a/pytimize/graphs/_undirected.py
+++ b/pytimize/graphs/_undirected.py
@@ -733,7 +733,9 @@ class UndirectedGraph:
       vertices that are connected to that vertex.
 
     """
-        return self._graph.copy()
+        return {
+            vertex: connections.copy() for vertex, connections in self._graph.items()
+        }
 
     @property
     def vertices(self) -> Dict[str, float]:
-- 
2.43.0


From d4d184943719aadcf5cfa190784344a9daa0dba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:08 +0000
Subject: [PATCH 11/38] fix: removing an edge removes it from the edges of the
 graph

---
 pytimize/graphs/_undirected.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pytimize/graphs/_undirected.py b/pytimize/graphs/_undirected.py
index 31cbf3a..b92b614 100644
--- a/pytimize/graphs/_undirected.py
+++ b/pytimize/graphs/_undirected.py
@@ -139,6 +139,7 @@ class UndirectedGraph:
         if not self.has_edge(edge):
             raise ValueError("The given edge is not in graph.")
 
+        del self._edges[tuple(sorted(edge))]
         self._graph[edge[0]].remove(edge[1])
         self._graph[edge[1]].remove(edge[0])
 
-- 
2.43.0


From 8f0b860f0dc7b353b90f6f1e18f4ad650317d188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:11 +0000
Subject: [PATCH 12/38] fix: cuts treat a string as one node, whatever its
 length

---
 pytimize/graphs/_directed.py   | 8 ++++++--
 pytimize/graphs/_undirected.py | 4 +++-
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/pytimize/graphs/_directed.py b/pytimize/graphs/_directed.py
index b0b7b67..94665fa 100644
--- a/pytimize/graphs/_directed.py
+++ b/pytimize/graphs/_directed.py
@@ -195,7 +195,9 @@ class DirectedGraph:
             The list of arcs that satisfies the above condition.
 
         """
-        if not isinstance(nodes, set):
+        if isinstance(nodes, str):
+            nodes = {nodes}
+        elif not isinstance(nodes, set):
             nodes = set(nodes)
 
         return set(
@@ -220,7 +222,9 @@ class DirectedGraph:
 
         """
 
-        if not isinstance(nodes, set):
+        if isinstance(nodes, str):
+            nodes = {nodes}
+        elif not isinstance(nodes, set):
             nodes = set(nodes)
 
         return list(
diff --git a/pytimize/graphs/_undirected.py b/pytimize/graphs/_undirected.py
index b92b614..bab7c9e 100644
--- a/pytimize/graphs/_undirected.py
+++ b/pytimize/graphs/_undirected.py
@@ -385,7 +385,9 @@ class UndirectedGraph:
       The set of edges that satisfies the above condition.
 
     """
-        if not isinstance(vertices, set):
+        if isinstance(vertices, str):
+            vertices = {vertices}
+        elif not isinstance(vertices, set):
             vertices = set(vertices)
 
         return set(
-- 
2.43.0


From f4542724603d15a22ba0e86f5a540431d45c0fed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:14 +0000
Subject: [PATCH 13/38] fix: is_cyclic no longer takes an edge for a cycle

---
 pytimize/graphs/_undirected.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/pytimize/graphs/_undirected.py b/pytimize/graphs/_undirected.py
index bab7c9e..fe7cd6c 100644
--- a/pytimize/graphs/_undirected.py
+++ b/pytimize/graphs/_undirected.py
@@ -519,17 +519,21 @@ class UndirectedGraph:
         unexplored = set(self._vertices.keys())
 
         while len(unexplored) > 0:
-            queue = deque([next(iter(unexplored))])
+            queue = deque([(next(iter(unexplored)), None)])
             visited = set()
 
             while len(queue) > 0:
-                current = queue.popleft()
+                current, previous = queue.popleft()
 
                 if current in visited:
                     return True
 
                 visited.add(current)
-                queue.extend(self._graph[current])
+                queue.extend(
+                    (vertex, current)
+                    for vertex in self._graph[current]
+                    if not vertex == previous
+                )
 
             unexplored = unexplored.difference(visited)
 
-- 
2.43.0


From 8ea0eabeac79c92216d484db104949ca1c124115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:18 +0000
Subject: [PATCH 14/38] fix: partition returns the connected subgraphs

---
 pytimize/graphs/_undirected.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/pytimize/graphs/_undirected.py b/pytimize/graphs/_undirected.py
index fe7cd6c..ebe3f45 100644
--- a/pytimize/graphs/_undirected.py
+++ b/pytimize/graphs/_undirected.py
@@ -583,15 +583,14 @@ class UndirectedGraph:
                 if current in visited:
                     continue
 
-                for vertex, connections in self._graph[current].items():
-                    for connection in connections:
-                        edge = tuple(sorted((vertex, connection)))
+                for connection in self._graph[current]:
+                    edge = tuple(sorted((current, connection)))
 
-                        subedges.setdefault(edge, self._edges[edge])
+                    subedges.setdefault(edge, self._edges[edge])
 
                 visited.add(current)
                 queue.extend(self._graph[current])
-                subgraph.setdefault(current, self._graph.copy())
+                subgraph.setdefault(current, self._graph[current].copy())
                 subvertices.setdefault(current, self._vertices[current])
 
             g = UndirectedGraph()
-- 
2.43.0


From 91ed113e2100f0f80c4ba3d4918bb8ff6e779fe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:21 +0000
Subject: [PATCH 15/38] fix: add_arc accepts one demand for one new node and
 rejects before changing anything

---
 pytimize/graphs/_directed.py | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/pytimize/graphs/_directed.py b/pytimize/graphs/_directed.py
index 94665fa..4e8845e 100644
--- a/pytimize/graphs/_directed.py
+++ b/pytimize/graphs/_directed.py
@@ -97,9 +97,6 @@ class DirectedGraph:
         if arc[0] == arc[1]:
             raise ValueError("Cannot create an arc with the same endpoints.")
 
-        self._graph.setdefault(arc[0], set()).add(arc[1])
-        self._arcs.setdefault(arc, weight)
-
         a_exists = self.has_node(arc[0])
         b_exists = self.has_node(arc[1])
 
@@ -109,12 +106,19 @@ class DirectedGraph:
                     "Demands must be a tuple of floats when both endpoints are new nodes."
                 )
 
-            self.add_node(arc[0], demands[0] if demands else 0)
-            self.add_node(arc[1], demands[1] if demands else 0)
-        elif not a_exists:
-            self.add_node(arc[0], demands[0] if demands else 0)
-        elif not b_exists:
-            self.add_node(arc[1], demands[1] if demands else 0)
+        if isinstance(demands, tuple) and demands:
+            a_demand, b_demand = demands
+        else:
+            a_demand = b_demand = demands or 0
+
+        self._graph.setdefault(arc[0], set()).add(arc[1])
+        self._arcs.setdefault(arc, weight)
+
+        if not a_exists:
+            self.add_node(arc[0], a_demand)
+
+        if not b_exists:
+            self.add_node(arc[1], b_demand)
 
     def add_node(self, node, demand=0):
         """
-- 
2.43.0


From b1ca4a6d6400692ffe73a416aaf71a08cfa0a407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:24 +0000
Subject: [PATCH 16/38] fix: maximum flow handles opposite arcs and digraphs
 without inner nodes

---
 pytimize/graphs/_directed.py | 91 +++++++++++++++---------------------
 1 file changed, 38 insertions(+), 53 deletions(-)

diff --git a/pytimize/graphs/_directed.py b/pytimize/graphs/_directed.py
index 4e8845e..2ac81d6 100644
--- a/pytimize/graphs/_directed.py
+++ b/pytimize/graphs/_directed.py
@@ -353,13 +353,45 @@ class DirectedGraph:
                 raise ArithmeticError("Given flow is infeasible.")
 
             if capacity > value:
-                residual.setdefault(u, {})[v] = capacity - value
+                endpoints = residual.setdefault(u, {})
+                endpoints[v] = endpoints.get(v, 0) + capacity - value
 
             if value > 0:
-                residual.setdefault(v, {})[u] = value
+                endpoints = residual.setdefault(v, {})
+                endpoints[u] = endpoints.get(u, 0) + value
 
         return residual
 
+    def _push_flow(
+        self,
+        flow: Dict[Tuple[str, str], float],
+        residual: Dict[str, Dict[str, float]],
+        arc: Tuple[str, str],
+        value: float,
+    ) -> None:
+        """
+        Sends `value` units of flow along a residual arc. Flow on the opposite
+        arc is cancelled before flow on the arc itself is increased.
+
+        """
+        u, v = arc
+        cancelled = min(value, flow.get((v, u), 0))
+
+        if cancelled > 0:
+            flow[(v, u)] -= cancelled
+
+        if value > cancelled:
+            flow[arc] += value - cancelled
+
+        residual.setdefault(v, {})[u] = residual.get(v, {}).get(u, 0) + value
+        residual[u][v] -= value
+
+        if residual[u][v] == 0:
+            del residual[u][v]
+
+        if len(residual[u]) == 0:
+            del residual[u]
+
     def preflow_push(
         self, source: str, sink: str
     ) -> Tuple[float, Dict[Tuple[str, str], float]]:
@@ -415,35 +447,9 @@ class DirectedGraph:
                 for endpoint, value in residual[node].items():
                     if height[endpoint] == height[node] - 1:
                         pushed = True
-                        is_reversed = False
-                        arc = (node, endpoint)
                         push_value = min(excess[node], value)
-                        u, v = node, endpoint
-
-                        if arc not in flow:
-                            is_reversed = True
-                            arc = (endpoint, node)
-                            flow[arc] -= push_value
-                        else:
-                            flow[arc] += push_value
-
-                        if is_reversed:
-                            u, v = v, u
 
-                        residual.setdefault(u, {})[v] = self._arcs[arc] - flow[arc]
-                        residual.setdefault(v, {})[u] = flow[arc]
-
-                        if residual[u][v] == 0:
-                            del residual[u][v]
-
-                        if residual[v][u] == 0:
-                            del residual[v][u]
-
-                        if len(residual[u]) == 0:
-                            del residual[u]
-
-                        if len(residual[v]) == 0:
-                            del residual[v]
+                        self._push_flow(flow, residual, (node, endpoint), push_value)
 
                         if not node == source and not node == sink:
                             excess[node] -= push_value
@@ -465,8 +471,8 @@ class DirectedGraph:
             else:
                 index += 1
 
-            value = sum(flow[arc] for arc in self.cut(source))
-            value -= sum(flow[arc] for arc in self.ncut(source))
+        value = sum(flow[arc] for arc in self.cut(source))
+        value -= sum(flow[arc] for arc in self.ncut(source))
 
         return value, flow
 
@@ -540,28 +546,7 @@ class DirectedGraph:
             v = sink
 
             while u is not None:
-                arc = (u, v)
-
-                if arc not in flow:
-                    arc = (v, u)
-                    flow[arc] -= min_residual
-                else:
-                    flow[arc] += min_residual
-
-                residual.setdefault(u, {})[v] = self._arcs[arc] - flow[arc]
-                residual.setdefault(v, {})[u] = flow[arc]
-
-                if residual[u][v] == 0:
-                    del residual[u][v]
-
-                if residual[v][u] == 0:
-                    del residual[v][u]
-
-                if len(residual[u]) == 0:
-                    del residual[u]
-
-                if len(residual[v]) == 0:
-                    del residual[v]
+                self._push_flow(flow, residual, (u, v), min_residual)
 
                 v = u
                 u = path.get(u, None)
-- 
2.43.0


From 1449c47c140154987f7df3b6c501a649788fae00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:54 +0000
Subject: [PATCH 17/38] fix: composing expressions no longer alters the
 operands or loses constants

---
 pytimize/formulations/linear/_equation.py | 31 +++++++++++++----------
 1 file changed, 18 insertions(+), 13 deletions(-)

diff --git a/pytimize/formulations/linear/_equation.py b/pytimize/formulations/linear/_equation.py
index 50b75f1..0734d7f 100644
--- a/pytimize/formulations/linear/_equation.py
+++ b/pytimize/formulations/linear/_equation.py
@@ -13,29 +13,30 @@ class LinearEquation:
         self._constant = constant
 
     def __neg__(self) -> "LinearEquation":
-        self._terms = {
-            label: -coefficient for label, coefficient in self._terms.items()
-        }
+        terms = {label: -coefficient for label, coefficient in self._terms.items()}
 
-        return self
+        return LinearEquation(terms, -self._constant)
 
     def __pos__(self) -> "LinearEquation":
         return self
 
     def __add__(self, other) -> "LinearEquation":
+        terms = self._terms.copy()
+        constant = self._constant
+
         if isinstance(other, LinearEquation):
             for label, coefficient in other.terms.items():
-                self._terms.setdefault(label, 0)
+                terms[label] = terms.get(label, 0) + coefficient
 
-                self._terms[label] += coefficient
+            constant += other.constant
         elif isinstance(other, float) or isinstance(other, int):
-            self._constant += other
+            constant += other
         elif hasattr(other, "key"):
-            self._terms.setdefault(other.key, 0)
-
-            self._terms[other.key] += 1
+            terms[other.key] = terms.get(other.key, 0) + 1
+        else:
+            return NotImplemented
 
-        return self
+        return LinearEquation(terms, constant)
 
     def __radd__(self, other) -> "LinearEquation":
         return self + other
@@ -54,11 +55,13 @@ class LinearEquation:
 
     def __mul__(self, other: float) -> "LinearEquation":
         if isinstance(other, float) or isinstance(other, int):
-            self._terms = {
+            terms = {
                 label: coefficient * other for label, coefficient in self._terms.items()
             }
 
-            return self
+            return LinearEquation(terms, self._constant * other)
+
+        return NotImplemented
 
     def __rmul__(self, other) -> "LinearEquation":
         return self * other
@@ -80,6 +83,8 @@ class LinearEquation:
     ) -> LinearConstraint:
         if isinstance(other, float) or isinstance(other, int):
             other = LinearEquation({}, other)
+        elif hasattr(other, "key"):
+            other = other.equation
 
         constant = other.constant - self._constant
         coefficients = self._broadcast_subtract(self.coefficients, other.coefficients)
-- 
2.43.0


From 6fe7f263ae819c4615df2518aa61e17f51f0650a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:57 +0000
Subject: [PATCH 18/38] fix: objectives may be a bare variable or mention
 variables without constraints

---
 pytimize/formulations/linear/_objective.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pytimize/formulations/linear/_objective.py b/pytimize/formulations/linear/_objective.py
index 1102556..010eb9c 100644
--- a/pytimize/formulations/linear/_objective.py
+++ b/pytimize/formulations/linear/_objective.py
@@ -24,6 +24,10 @@ class ObjectiveFunction:
 
         inequalities = []
         length = max(constraint.coefficients.shape[0] for constraint in constraints)
+
+        if self._c is not None:
+            length = max(length, self._c.shape[0])
+
         A = np.empty(length)
         b = np.empty(1)
 
@@ -59,6 +63,8 @@ class ObjectiveFunction:
 def minimize(equation: Union[LinearEquation, float]) -> ObjectiveFunction:
     if isinstance(equation, float) or isinstance(equation, int):
         equation = LinearEquation({}, equation)
+    elif hasattr(equation, "key"):
+        equation = equation.equation
 
     return ObjectiveFunction(equation, "min")
 
@@ -66,5 +72,7 @@ def minimize(equation: Union[LinearEquation, float]) -> ObjectiveFunction:
 def maximize(equation: Union[LinearEquation, float]) -> ObjectiveFunction:
     if isinstance(equation, float) or isinstance(equation, int):
         equation = LinearEquation({}, equation)
+    elif hasattr(equation, "key"):
+        equation = equation.equation
 
     return ObjectiveFunction(equation, "max")
-- 
2.43.0


From 86e8dcac9844adfffd14663c064b1915a4067b9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:00 +0000
Subject: [PATCH 19/38] fix: a rejected variable declaration leaves the
 formulated program unchanged

---
 pytimize/formulations/linear/_abstract.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/pytimize/formulations/linear/_abstract.py b/pytimize/formulations/linear/_abstract.py
index 8af7a6b..fa9271f 100644
--- a/pytimize/formulations/linear/_abstract.py
+++ b/pytimize/formulations/linear/_abstract.py
@@ -34,25 +34,30 @@ class AbstractLinearProgram:
         return getattr(self.program, key)
 
     def where(self, *constraints: VariableConstraint) -> "AbstractLinearProgram":
+        positive_variables = self._positive_variables.copy()
+        negative_variables = self._negative_variables.copy()
+
         for constraint in constraints:
             self._add_variable_constraint(
-                constraint.positive_variables, self._positive_variables
+                constraint.positive_variables, positive_variables
             )
             self._add_variable_constraint(
-                constraint.negative_variables, self._negative_variables
+                constraint.negative_variables, negative_variables
             )
 
-        positive_set = set(self._positive_variables)
-        negative_set = set(self._negative_variables)
+        positive_set = set(positive_variables)
+        negative_set = set(negative_variables)
 
-        if not len(positive_set) == len(self._positive_variables) or not len(
+        if not len(positive_set) == len(positive_variables) or not len(
             negative_set
-        ) == len(self._negative_variables):
+        ) == len(negative_variables):
             raise ValueError("Duplicated variable constraints detected.")
 
         if len(positive_set.intersection(negative_set)) > 0:
             raise ValueError("Variable cannot be both positive and negative.")
 
+        self._positive_variables = positive_variables
+        self._negative_variables = negative_variables
         self._recompile = True
 
         return self
-- 
2.43.0


From a80f7f63a53a44f78c223f688def37a38abed57d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:03 +0000
Subject: [PATCH 20/38] fix: descent methods leave the starting point alone and
 can maximise

---
 pytimize/programs/_unconstrained.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/pytimize/programs/_unconstrained.py b/pytimize/programs/_unconstrained.py
index 3b53e2e..65d81ce 100644
--- a/pytimize/programs/_unconstrained.py
+++ b/pytimize/programs/_unconstrained.py
@@ -22,10 +22,8 @@ class UnconstrainedProgram:
             The objective of the program. Must be either `max` or `min`.
 
         """
-        if objective == "max":
-            self._f = lambda x: -f(x)
-        self._f = f
-        self._minimize = objective == "min"
+        self._f = f if objective == "min" else lambda x: -f(x)
+        self._sign = 1 if objective == "min" else -1
 
     def steepest_descent(
         self,
@@ -65,11 +63,13 @@ class UnconstrainedProgram:
             The maximum number of iterations.
 
         """
+        x = np.array(x, dtype=float)
+
         for _ in range(int(max_iteration)):
-            d = -df(x)
+            d = -self._sign * df(x)
             a = alpha
 
-            while self._f(x + a * d) > self._f(x) + c * a * df(x) @ d:
+            while self._f(x + a * d) > self._f(x) + c * a * self._sign * df(x) @ d:
                 a *= p
 
             x += a * d
@@ -77,7 +77,7 @@ class UnconstrainedProgram:
             if np.linalg.norm(df(x)) <= tolerance:
                 break
 
-        return x if self._minimize else -x
+        return x
 
     def newton_method(
         self,
@@ -108,6 +108,7 @@ class UnconstrainedProgram:
             The maximum number of iterations.
 
         """
+        x = np.array(x, dtype=float)
 
         for _ in range(int(max_iteration)):
             d = np.linalg.solve(d2f(x), -df(x))
@@ -116,4 +117,4 @@ class UnconstrainedProgram:
             if np.linalg.norm(df(x)) <= tolerance:
                 break
 
-        return x if self._minimize else -x
+        return x
-- 
2.43.0


From 76805f76d21845a371138f2755d5a4e6458eef49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:06 +0000
Subject: [PATCH 21/38] fix: depth first traversal visits vertices depth first

---
 pytimize/graphs/_undirected.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pytimize/graphs/_undirected.py b/pytimize/graphs/_undirected.py
index ebe3f45..721a1a1 100644
--- a/pytimize/graphs/_undirected.py
+++ b/pytimize/graphs/_undirected.py
@@ -466,7 +466,6 @@ class UndirectedGraph:
       The iterator giving the current vertex of the walk.
 
     """
-        # TODO Add dfs
         if not self.has_vertex(start):
             raise ValueError("The starting vertex is not in graph.")
 
@@ -481,13 +480,14 @@ class UndirectedGraph:
         queue = deque([start])
 
         while len(queue) > 0:
-            current = queue.popleft()
+            current = queue.pop() if method == "dfs" else queue.popleft()
 
             if current in visited:
                 continue
 
             visited.add(current)
-            queue.extend(sorted(self._graph[current], key=order))
+            connections = sorted(self._graph[current], key=order)
+            queue.extend(reversed(connections) if method == "dfs" else connections)
 
             yield current
 
-- 
2.43.0


From a26d7b9566cf4be1acf27918867b45121eef6728 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:26 +0000
Subject: [PATCH 22/38] fix: random traversal yields the vertices

---
 pytimize/graphs/_undirected.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pytimize/graphs/_undirected.py b/pytimize/graphs/_undirected.py
index 721a1a1..e1b22d8 100644
--- a/pytimize/graphs/_undirected.py
+++ b/pytimize/graphs/_undirected.py
@@ -474,7 +474,9 @@ class UndirectedGraph:
 
             random.shuffle(vertices)
 
-            return iter(vertices)
+            yield from vertices
+
+            return
 
         visited = set()
         queue = deque([start])
-- 
2.43.0


From cab0e95b3a274581c83b3c6c89146b1d5a2cbe79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:09 +0000
Subject: [PATCH 23/38] fix: the certificate of unboundedness no longer follows
 rounding noise

---
 pytimize/programs/_linear.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytimize/programs/_linear.py b/pytimize/programs/_linear.py
index 54d01a5..2eac54e 100644
--- a/pytimize/programs/_linear.py
+++ b/pytimize/programs/_linear.py
@@ -1091,7 +1091,7 @@ class LinearProgram:
 
         if basis is None:
             certificate = updated_lp._feasible_solution, np.zeros(self._c.shape[0])
-            k = np.argmax(updated_lp.c > 0)
+            k = np.argmax([Comparator.is_positive(i) for i in updated_lp.c])
             certificate[1][updated_lp._feasible_basis] = -updated_lp.A[:, k]
             certificate[1][k] = 1
 
-- 
2.43.0


From a28d1627a2579ef648dad0df06f32ae5afd4ce53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:53 +0000
Subject: [PATCH 24/38] fix: preflow push copes with rounding of fractional
 capacities

---
 pytimize/graphs/_directed.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/pytimize/graphs/_directed.py b/pytimize/graphs/_directed.py
index 2ac81d6..884f849 100644
--- a/pytimize/graphs/_directed.py
+++ b/pytimize/graphs/_directed.py
@@ -444,7 +444,7 @@ class DirectedGraph:
             if excess[node] > 0:
                 pushed = False
 
-                for endpoint, value in residual[node].items():
+                for endpoint, value in residual.get(node, {}).items():
                     if height[endpoint] == height[node] - 1:
                         pushed = True
                         push_value = min(excess[node], value)
@@ -462,10 +462,14 @@ class DirectedGraph:
                 if not pushed:
                     max_height = math.inf
 
-                    for endpoint in residual[node]:
+                    for endpoint in residual.get(node, {}):
                         max_height = min(height[endpoint], max_height)
 
-                    height[node] = max_height + 1
+                    # Excess that can no longer reach the source is a rounding remainder
+                    if max_height + 1 < 2 * len(self._nodes):
+                        height[node] = max_height + 1
+                    else:
+                        excess[node] = 0
 
                 index = 0
             else:
-- 
2.43.0


From bda8564ef8dc488d081c8e08dedbed1f1ec53a6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:38 +0000
Subject: [PATCH 25/38] fix: graph_polyhedron skips parallel boundary lines
 that are not axis-aligned

---
 pytimize/programs/_linear.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/pytimize/programs/_linear.py b/pytimize/programs/_linear.py
index 2eac54e..7278e36 100644
--- a/pytimize/programs/_linear.py
+++ b/pytimize/programs/_linear.py
@@ -1438,11 +1438,9 @@ class LinearProgram:
                     b[0] = copy_b[i]
                     b[1] = copy_b[j]
 
-                    # if both lines are horizontal/vertical, skip point
+                    # if both lines are parallel, skip point
                     # (these lines will never intersect and thus solving will cause an error)
-                    if A[0][0] == 0 and A[1][0] == 0:
-                        continue
-                    elif A[0][1] == 0 and A[1][1] == 0:
+                    if math.isclose(A[0][0] * A[1][1], A[0][1] * A[1][0]):
                         continue
 
                     point = np.linalg.solve(A, b)
-- 
2.43.0


From b3b7b2e94c81323b7d6f0a9043a4f52c2bb6a2c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:43 +0000
Subject: [PATCH 26/38] fix: graph_polyhedron keeps corner points on boundary
 lines through the origin

---
 pytimize/programs/_linear.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pytimize/programs/_linear.py b/pytimize/programs/_linear.py
index 7278e36..f7457a7 100644
--- a/pytimize/programs/_linear.py
+++ b/pytimize/programs/_linear.py
@@ -1456,10 +1456,14 @@ class LinearProgram:
                 value = point[0] * copy_A[i, 0] + point[1] * copy_A[i, 1]
 
                 if inequality_indices[i] == "<=":
-                    if value > copy_b[i] and not math.isclose(value, copy_b[i]):
+                    if value > copy_b[i] and not math.isclose(
+                        value, copy_b[i], abs_tol=1e-9
+                    ):
                         valid_point = False
                 elif inequality_indices[i] == ">=":
-                    if value < copy_b[i] and not math.isclose(value, copy_b[i]):
+                    if value < copy_b[i] and not math.isclose(
+                        value, copy_b[i], abs_tol=1e-9
+                    ):
                         valid_point = False
 
             if valid_point:
-- 
2.43.0


From eec2029394283a273e990bebd807a9e17e724f9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:46 +0000
Subject: [PATCH 27/38] fix: is_feasible_basic_solution compares the vector
 with the number of variables

---
 pytimize/programs/_linear.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytimize/programs/_linear.py b/pytimize/programs/_linear.py
index f7457a7..a44b2b2 100644
--- a/pytimize/programs/_linear.py
+++ b/pytimize/programs/_linear.py
@@ -624,7 +624,7 @@ class LinearProgram:
         """
         x = self.__to_ndarray(x)
 
-        if not self.__is_vector_of_size(x, self._c):
+        if not self.__is_vector_of_size(x, self._c.shape[0]):
             raise ValueError()
 
         return Comparator.is_close_compare(x, ">=", 0) and self.is_basic_solution(
-- 
2.43.0


From bed62fd9fc4987df14808fe978982aa07a002c3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:51 +0000
Subject: [PATCH 28/38] fix: is_canonical_form_for examines the columns of the
 basis

---
 pytimize/programs/_linear.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/pytimize/programs/_linear.py b/pytimize/programs/_linear.py
index a44b2b2..0a41a9d 100644
--- a/pytimize/programs/_linear.py
+++ b/pytimize/programs/_linear.py
@@ -536,14 +536,15 @@ class LinearProgram:
 
         """
         basis = self.__array_like_to_list(basis)
+
+        if not self.is_basis(basis):
+            return False
+
         basis = self.__convert_indices(basis, 0, self._c.shape[0])
+        basis.sort()
 
-        return all(
-            [
-                self.is_basis(basis),
-                np.allclose(self._A[basis], np.eye(len(basis))),
-                np.allclose(self._c[basis], 0),
-            ]
+        return np.allclose(self._A[:, basis], np.eye(len(basis))) and np.allclose(
+            self._c[basis], 0
         )
 
     def optimal_value(self):
-- 
2.43.0


From 6247739aca1af7ea12985eb97c0b523c68020c06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:56 +0000
Subject: [PATCH 29/38] fix: is_feasible tolerates rounding for every kind of
 constraint

---
 pytimize/programs/_linear.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/pytimize/programs/_linear.py b/pytimize/programs/_linear.py
index 0a41a9d..f5ea0d8 100644
--- a/pytimize/programs/_linear.py
+++ b/pytimize/programs/_linear.py
@@ -1359,10 +1359,10 @@ class LinearProgram:
 
         for i, entry in enumerate(x):  # TODO free vars and negative vars should be set
             if i in self._negative_variables:
-                if not entry <= 0:
+                if not Comparator.is_close_compare(entry, "<=", 0):
                     is_feasible = False
             elif i not in self._free_variables:
-                if not entry >= 0:
+                if not Comparator.is_close_compare(entry, ">=", 0):
                     is_feasible = False
 
         for i, row in enumerate(self._A):
@@ -1371,11 +1371,9 @@ class LinearProgram:
             if i in self._inequality_indices:
                 current = self._inequality_indices[i]
 
-                if current == "<=" and value > self._b[i]:
+                if not Comparator.is_close_compare(value, current, self._b[i]):
                     is_feasible = False
-                elif current == ">=" and value < self._b[i]:
-                    is_feasible = False
-            elif not math.isclose(value, self._b[i]):
+            elif not np.isclose(value, self._b[i]):
                 is_feasible = False
         # TODO Add steps back
         if is_feasible:
-- 
2.43.0


From 3a745af2a1574e52da8646cbc8849d19ea671f02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:34 +0000
Subject: [PATCH 30/38] fix: basic solutions of a basis given in any order

---
 pytimize/programs/_linear.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pytimize/programs/_linear.py b/pytimize/programs/_linear.py
index f5ea0d8..90936fd 100644
--- a/pytimize/programs/_linear.py
+++ b/pytimize/programs/_linear.py
@@ -1713,11 +1713,10 @@ class LinearProgram:
             The basic solution corresponding to the basis.
 
         """
+        basis = sorted(basis)
         components = np.linalg.inv(self._A[:, basis]) @ self._b
         solution = np.zeros(self._c.shape[0])
 
-        basis.sort()  # TODO copy? To prevent reference
-
         for index, value in zip(basis, components):
             solution[index] = value
 
-- 
2.43.0


From 8fe3359520977759afc607033454c2ccef81de99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:24 +0000
Subject: [PATCH 31/38] fix: is_canonical_form_for takes the basis in the order
 to_canonical_form does

---
 pytimize/programs/_linear.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/pytimize/programs/_linear.py b/pytimize/programs/_linear.py
index 90936fd..7d29f84 100644
--- a/pytimize/programs/_linear.py
+++ b/pytimize/programs/_linear.py
@@ -541,7 +541,6 @@ class LinearProgram:
             return False
 
         basis = self.__convert_indices(basis, 0, self._c.shape[0])
-        basis.sort()
 
         return np.allclose(self._A[:, basis], np.eye(len(basis))) and np.allclose(
             self._c[basis], 0
-- 
2.43.0


From 88433e74fd7da5cb645b39d763ab88e4de443f3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:00 +0000
Subject: [PATCH 32/38] fix: backtracking ends when the step length can shrink
 no further

---
 pytimize/programs/_unconstrained.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pytimize/programs/_unconstrained.py b/pytimize/programs/_unconstrained.py
index 65d81ce..229822a 100644
--- a/pytimize/programs/_unconstrained.py
+++ b/pytimize/programs/_unconstrained.py
@@ -70,6 +70,9 @@ class UnconstrainedProgram:
             a = alpha
 
             while self._f(x + a * d) > self._f(x) + c * a * self._sign * df(x) @ d:
+                if a * p == a:
+                    break
+
                 a *= p
 
             x += a * d
-- 
2.43.0


From c33593b14a97fffa20c9ca0b476935b027b71d45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:53 +0000
Subject: [PATCH 33/38] fix: integer programs kept the caller's list of
 integral variables

---
 pytimize/programs/_integer.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pytimize/programs/_integer.py b/pytimize/programs/_integer.py
index c0243b3..a956533 100644
--- a/pytimize/programs/_integer.py
+++ b/pytimize/programs/_integer.py
@@ -28,7 +28,9 @@ class IntegerProgram(LinearProgram):
             A, b, c, z, objective, inequalities, free_variables, negative_variables
         )
 
-        self._integral_variables = integral_variables
+        self._integral_variables = (
+            list(integral_variables) if integral_variables is not None else None
+        )
 
     def __repr__(self) -> str:  # TODO add integral constraint
         output = super().__repr__().rstrip("\n")
-- 
2.43.0


From 50f3f71684ffe5fb8e38eb9d22325f5fa1dfd6d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:10 +0000
Subject: [PATCH 34/38] fix: integer objectives rejected a bare variable

---
 pytimize/formulations/integer/_objective.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pytimize/formulations/integer/_objective.py b/pytimize/formulations/integer/_objective.py
index 384e34c..69d44a8 100644
--- a/pytimize/formulations/integer/_objective.py
+++ b/pytimize/formulations/integer/_objective.py
@@ -11,6 +11,8 @@ class ObjectiveFunction(LinearObjective):
 def minimize(equation: Union[LinearEquation, float]) -> ObjectiveFunction:
     if isinstance(equation, float) or isinstance(equation, int):
         equation = LinearEquation({}, equation)
+    elif hasattr(equation, "key"):
+        equation = equation.equation
 
     return ObjectiveFunction(equation, "min")
 
@@ -18,5 +20,7 @@ def minimize(equation: Union[LinearEquation, float]) -> ObjectiveFunction:
 def maximize(equation: Union[LinearEquation, float]) -> ObjectiveFunction:
     if isinstance(equation, float) or isinstance(equation, int):
         equation = LinearEquation({}, equation)
+    elif hasattr(equation, "key"):
+        equation = equation.equation
 
     return ObjectiveFunction(equation, "max")
-- 
2.43.0


From e3080c977def1556b72f2e4a3d85a1459aecd759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:13 +0000
Subject: [PATCH 35/38] fix: constraints and variables were added with values
 of any length

---
 pytimize/programs/_linear.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pytimize/programs/_linear.py b/pytimize/programs/_linear.py
index 7d29f84..346b8d6 100644
--- a/pytimize/programs/_linear.py
+++ b/pytimize/programs/_linear.py
@@ -453,6 +453,9 @@ class LinearProgram:
         A = np.r_[self._A, [coefficients]]
         b = np.r_[self._b, value]
 
+        if not b.shape[0] == A.shape[0]:
+            raise ValueError()
+
         if inequality == ">=" or inequality == "<=":
             self._inequality_indices[self._A.shape[0]] = inequality
             self._is_sef = False
@@ -508,6 +511,9 @@ class LinearProgram:
         A = np.c_[self._A, column if column is not None else [0] * self._A.shape[0]]
         c = np.r_[self._c, coefficient]
 
+        if not c.shape[0] == A.shape[1]:
+            raise ValueError()
+
         if free:
             self._free_variables.append(self._c.shape[0])
             self._is_sef = False
-- 
2.43.0


From 109058061d636bd69b4230e6b3989a6d782d5033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:16 +0000
Subject: [PATCH 36/38] fix: arrays of single precision were computed with in
 single precision

---
 pytimize/programs/_linear.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytimize/programs/_linear.py b/pytimize/programs/_linear.py
index 346b8d6..c6bdaeb 100644
--- a/pytimize/programs/_linear.py
+++ b/pytimize/programs/_linear.py
@@ -1678,7 +1678,7 @@ class LinearProgram:
             if not np.issubdtype(source.dtype, np.number):
                 raise ValueError()
 
-            if not np.issubdtype(source.dtype, np.floating):
+            if not source.dtype == float:
                 return source.astype(float)
 
             return source.copy()
-- 
2.43.0


From 53966044d757e21cc029c297452d64b2d910c1ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:54 +0000
Subject: [PATCH 37/38] fix: complex arrays were accepted and their imaginary
 parts dropped

---
 pytimize/programs/_linear.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pytimize/programs/_linear.py b/pytimize/programs/_linear.py
index c6bdaeb..e4f9ab3 100644
--- a/pytimize/programs/_linear.py
+++ b/pytimize/programs/_linear.py
@@ -1678,6 +1678,9 @@ class LinearProgram:
             if not np.issubdtype(source.dtype, np.number):
                 raise ValueError()
 
+            if np.issubdtype(source.dtype, np.complexfloating):
+                raise ValueError()
+
             if not source.dtype == float:
                 return source.astype(float)
 
-- 
2.43.0


From d91ca2dc418a552a14e43e66dc9afb221d19c7c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:58 +0000
Subject: [PATCH 38/38] fix: matrices were accepted as certificates

---
 pytimize/programs/_linear.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/pytimize/programs/_linear.py b/pytimize/programs/_linear.py
index e4f9ab3..999e19f 100644
--- a/pytimize/programs/_linear.py
+++ b/pytimize/programs/_linear.py
@@ -1238,6 +1238,10 @@ class LinearProgram:
             raise ArithmeticError("Linear program must be in SEF.")
 
         certificate = self.__to_ndarray(certificate)
+
+        if not self.__is_vector_of_size(certificate, self._b.shape[0]):
+            raise ValueError()
+
         yA = certificate @ self._A
         yb = certificate @ self._b
 
@@ -1276,6 +1280,9 @@ class LinearProgram:
         certificate = self.__to_ndarray(certificate)
         x = self.__to_ndarray(x)
 
+        if not self.__is_vector_of_size(certificate, self._c.shape[0]):
+            raise ValueError()
+
         if not self.is_feasible(x, show_steps):
             return False
 
@@ -1312,6 +1319,10 @@ class LinearProgram:
             raise ArithmeticError("Linear program must be in SEF.")
 
         certificate = self.__to_ndarray(certificate)
+
+        if not self.__is_vector_of_size(certificate, self._b.shape[0]):
+            raise ValueError()
+
         test = self._c - certificate @ self._A
 
         return Comparator.is_close_compare(test, "<=", 0)
-- 
2.43.0

