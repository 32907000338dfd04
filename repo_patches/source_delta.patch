From 4a551396631a3614fb1087b9da92e5be30b6a7fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:14:32 +0000
Subject: [PATCH 01/53] fix: reject topological orders that list a vertex twice

---
 pads/partial_order.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pads/partial_order.py b/pads/partial_order.py
index 630744f..f151579 100644
--- a/pads/partial_order.py
+++ b/pads/partial_order.py
@@ -13,7 +13,7 @@ def isTopologicalOrder(G, L):
     """Check that L is a topological ordering of directed graph G."""
     vnum = {}
     for i in range(len(L)):
-        if L[i] not in G:
+        if L[i] not in G or L[i] in vnum:
             return False
         vnum[L[i]] = i
     for v in G:
-- 
2.43.0


From f1dd1be2f156eb1110c0cbcffe00b65188f4a293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:14:32 +0000
Subject: [PATCH 02/53] fix: trace whole paths whatever the topological order

TracePaths assumed that the vertices of a path are consecutive in the
topological order, and cut paths in two when they were not.
---
 pads/partial_order.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/pads/partial_order.py b/pads/partial_order.py
index f151579..adbe8b8 100644
--- a/pads/partial_order.py
+++ b/pads/partial_order.py
@@ -57,14 +57,14 @@ def TracePaths(G):
     """
     Turn a DAG with indegree and outdegree <= 1 into a sequence of lists.
     """
-    L = []
-    for v in TopologicalOrder(G):
-        if L and v not in G[L[-1]]:
+    order = TopologicalOrder(G)
+    nonstarts = {w for v in order for w in G[v]}
+    for v in order:
+        if v not in nonstarts:
+            L = [v]
+            while len(G[L[-1]]):
+                L.extend(G[L[-1]])
             yield L
-            L = []
-        L.append(v)
-    if L:
-        yield L
 
 
 def MinimumPathDecomposition(G):
-- 
2.43.0


From 6e59f3842b882933c6403a76ba1120298f4b0e9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:14:32 +0000
Subject: [PATCH 03/53] fix: keep minimal elements in maximum antichains

---
 pads/partial_order.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pads/partial_order.py b/pads/partial_order.py
index adbe8b8..c580474 100644
--- a/pads/partial_order.py
+++ b/pads/partial_order.py
@@ -95,5 +95,8 @@ def MaximumAntichain(G):
     """
     if not isAcyclic(G):
         raise ValueError("MaximumAntichain: input is not acyclic.")
-    M, A, B = matching(TransitiveClosure(G))
-    return set(A).intersection(B)
+    TC = TransitiveClosure(G)
+    M, A, B = matching(TC)
+    # minimal elements are not seen by the matching as right side vertices
+    B = set(B).union(v for v in TC if not any(v in TC[u] for u in TC))
+    return B.intersection(A)
-- 
2.43.0


From 7d72b0290bafad2bafbfd37bf3938b37ff850687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:14:32 +0000
Subject: [PATCH 04/53] fix: refuse st-orientation of graphs with isolated
 vertices

---
 pads/biconnectivity.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pads/biconnectivity.py b/pads/biconnectivity.py
index eacc0b1..566940c 100644
--- a/pads/biconnectivity.py
+++ b/pads/biconnectivity.py
@@ -191,7 +191,7 @@ class STOrienter(Searcher):
 def st_orientation(G):
     """Find an acyclic orientation of G, with one source and one sink."""
     stO = STOrienter(G)
-    if len(stO.roots) != 1:
+    if len(stO.roots) != 1 or not all(len(G[v]) for v in G):
         raise NotBiconnected
 
     source, dest = stO.roots[0]
-- 
2.43.0


From eb6806249179040754b7cabc842bfcb3d92fda93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:17:31 +0000
Subject: [PATCH 05/53] fix: let union-find merge items that cannot be ordered

Sets of equal weight were compared by their names.
---
 pads/union_find.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pads/union_find.py b/pads/union_find.py
index 320bba1..402b836 100644
--- a/pads/union_find.py
+++ b/pads/union_find.py
@@ -59,7 +59,7 @@ class UnionFind:
     def union(self, *objects):
         """Find the sets containing the objects and merge them all."""
         roots = [self[x] for x in objects]
-        heaviest = max([(self.weights[r], r) for r in roots])[1]
+        heaviest = max(roots, key=lambda r: self.weights[r])
         for r in roots:
             if r != heaviest:
                 self.weights[heaviest] += self.weights[r]
-- 
2.43.0


From 0a62a338b06be34a9c571ff251fe01d959b418cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:17:31 +0000
Subject: [PATCH 06/53] fix: let spanning trees have vertices that cannot be
 ordered

---
 pads/minimum_spanning_tree.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pads/minimum_spanning_tree.py b/pads/minimum_spanning_tree.py
index 53cb041..a0759da 100644
--- a/pads/minimum_spanning_tree.py
+++ b/pads/minimum_spanning_tree.py
@@ -28,7 +28,8 @@ def MinimumSpanningTree(G):
     # part (the sort) is sped up by being built in to Python.
     subtrees = UnionFind()
     tree = []
-    for W, u, v in sorted((G[u][v], u, v) for u in G for v in G[u]):
+    for W, u, v in sorted(((G[u][v], u, v) for u in G for v in G[u]),
+                          key=lambda edge: edge[0]):
         if subtrees[u] != subtrees[v]:
             tree.append((u, v))
             subtrees.union(u, v)
-- 
2.43.0


From ad49ae659fec4f6f9803b41960a79104738bdfff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:17:31 +0000
Subject: [PATCH 07/53] fix: report a graph with unmatched right vertices as
 imperfect

imperfections() raised KeyError when all left vertices could be matched
but some right vertex could not.
---
 pads/bipartite_matching.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pads/bipartite_matching.py b/pads/bipartite_matching.py
index 7a4b156..96d3e55 100644
--- a/pads/bipartite_matching.py
+++ b/pads/bipartite_matching.py
@@ -98,7 +98,8 @@ def imperfections(graph):
     not including v.
     """
     M, A, B = matching(graph)
-    if len(M) != len(graph):
+    if (len(M) != len(graph)
+            or not all(w in M for v in graph for w in graph[v])):
         return graph    # whole graph is imperfect
 
     orientation = {}
-- 
2.43.0


From 8955b52e29a1ac4efc50c0e8d860fdf2ac0c9db6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:17:31 +0000
Subject: [PATCH 08/53] fix: accept the empty graph in lexicographic
 breadth-first search

---
 pads/lex_bfs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pads/lex_bfs.py b/pads/lex_bfs.py
index b23d0bd..14ff717 100644
--- a/pads/lex_bfs.py
+++ b/pads/lex_bfs.py
@@ -22,7 +22,7 @@ def lex_bfs(G):
     Running time is O(n+m) and additional space usage over G is O(n).
     """
     P = PartitionRefinement(G)
-    S = Sequence(P, key=id)
+    S = Sequence([set for set in P if set], key=id)
     while S:
         set = S[0]
         v = arbitrary_item(set)
-- 
2.43.0


From 315cfd0dc0e3a0c1e3e304948f4aed5a56a4804d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:32:00 +0000
Subject: [PATCH 09/53] fix: return an empty k-core when k exceeds the
 degeneracy

---
 pads/graphdegeneracy.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pads/graphdegeneracy.py b/pads/graphdegeneracy.py
index 344d486..160d70c 100644
--- a/pads/graphdegeneracy.py
+++ b/pads/graphdegeneracy.py
@@ -49,6 +49,8 @@ def core(G, k=None):
                 coreset = set()         # yes, restart core
                 level = d
         coreset.add(v)
+    if k is not None and level < k:     # never got deep enough?
+        return set()
     return coreset
 
 
-- 
2.43.0


From 9608844e503f74250f6d31d96f1f4509521d0f89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:37:09 +0000
Subject: [PATCH 10/53] fix: recognise partial cubes whose vertices cannot be
 ordered

---
 pads/partial_cube.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pads/partial_cube.py b/pads/partial_cube.py
index 19ac1ba..6c452f9 100644
--- a/pads/partial_cube.py
+++ b/pads/partial_cube.py
@@ -60,7 +60,7 @@ def PartialCubeEdgeLabeling(G):
             raise MediumError("graph is not bipartite")
 
         # Find max degree vertex in G, and update label limit
-        deg, root = max([(len(CG[v]), v) for v in CG])
+        deg, root = max([(len(CG[v]), v) for v in CG], key=lambda dv: dv[0])
         if deg > NL:
             raise MediumError("graph has too many equivalence classes")
         NL -= deg
-- 
2.43.0


From 3592077bb1e96724ec977ea034f7637cbce9826d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:37:43 +0000
Subject: [PATCH 11/53] fix: accept the empty string in its own state of a
 regular expression's automaton

Making the initial positions accepting also accepted proper prefixes, as in
(a*b)* accepting a, and the empty expression had no state to accept in.
---
 pads/automata.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pads/automata.py b/pads/automata.py
index 590ae02..02ae010 100644
--- a/pads/automata.py
+++ b/pads/automata.py
@@ -389,7 +389,7 @@ class RegExp(NFA):
             self.successor[state].add(final)
         self.final = frozenset([final])
         if epsilon:
-            self.final = self.final | self.initial
+            self.initial = self.initial | self.final
 
     def transition(self, state, c):
         """Implement NFA transition function."""
-- 
2.43.0


From 87ae55d8d8532861eefb42ff158ef58be4f4f9e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:37:43 +0000
Subject: [PATCH 12/53] fix: refuse regular expressions with an unmatched close
 paren

---
 pads/automata.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pads/automata.py b/pads/automata.py
index 02ae010..bb8a261 100644
--- a/pads/automata.py
+++ b/pads/automata.py
@@ -384,6 +384,9 @@ class RegExp(NFA):
         self.successor = {}
         self.alphabet = set()
         self.initial, penultimate, epsilon = self.expression()
+        if self.pos < len(self.expr):
+            raise LanguageError(
+                "Unexpected close paren at char " + str(self.pos))
         final = self.newstate(None)
         for state in penultimate:
             self.successor[state].add(final)
-- 
2.43.0


From 2e82a71f184eca8e5a2aa753d9444145fbad4319 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:37:43 +0000
Subject: [PATCH 13/53] fix: compare accepting states when comparing DFAs

A language whose minimal DFA had the same transitions as another's, such as
its own complement, was reported equal to it.
---
 pads/automata.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pads/automata.py b/pads/automata.py
index bb8a261..0107157 100644
--- a/pads/automata.py
+++ b/pads/automata.py
@@ -209,6 +209,8 @@ class DFA(FiniteAutomaton):
         while unprocessed:
             x = unprocessed.pop()
             y = equivalences[x]
+            if bool(self.isfinal(x)) != bool(other.isfinal(y)):
+                return False
             for c in self.alphabet:
                 xc = self.transition(x, c)
                 yc = other.transition(y, c)
-- 
2.43.0


From fc3dd02d335aa1e35e98fdaba566a8496bb8a724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:37:43 +0000
Subject: [PATCH 14/53] fix: make emptiness and inclusion tests of regular
 languages work

The truth value hook had its Python 2 name and called isfinal on the states
instead of the automaton.
---
 pads/automata.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pads/automata.py b/pads/automata.py
index 0107157..afac9c4 100644
--- a/pads/automata.py
+++ b/pads/automata.py
@@ -94,13 +94,15 @@ class RegularLanguage:
             raise LanguageError("Unable to intersect nonregular language")
         return language(self.recognizer.symmetricDifference(other.recognizer))
 
-    def __nonzero__(self):
-        """Is this the empty language?"""
+    def __bool__(self):
+        """Is this a nonempty language?"""
         for x in self.recognizer.states():
-            if x.isfinal():
+            if self.recognizer.isfinal(x):
                 return True
         return False
 
+    __nonzero__ = __bool__
+
 
 class FiniteAutomaton:
 
-- 
2.43.0


From e61c56b879ae8d1a4d53d990059c438d0a1c267c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:43:20 +0000
Subject: [PATCH 15/53] fix: keep the splitting set whole while minimising a
 DFA

The set could itself be split while refining by its first symbols, and the
remaining symbols were then refined by only part of it.
---
 pads/automata.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pads/automata.py b/pads/automata.py
index afac9c4..fb9ebbe 100644
--- a/pads/automata.py
+++ b/pads/automata.py
@@ -591,6 +591,7 @@ class _MinimumDFA(DFA):
         while unrefined:
             part = arbitrary_item(unrefined)
             unrefined.remove(part)
+            part = list(part)   # refining may split the part itself
             for symbol in D.alphabet:
                 neighbors = set()
                 for state in part:
-- 
2.43.0


From 8070bd0ba16a68b5bcceb900f6020d4e5afd3d3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:43:52 +0000
Subject: [PATCH 16/53] fix: print automata to the output stream under Python 3

---
 pads/automata.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pads/automata.py b/pads/automata.py
index fb9ebbe..b0db4a0 100644
--- a/pads/automata.py
+++ b/pads/automata.py
@@ -265,12 +265,12 @@ class NFA(FiniteAutomaton):
             if not [c for c in self.alphabet if self.transition(state, c)]:
                 adjectives.append("terminal")
             if not adjectives:
-                print >>output, state
+                output.write("%s\n" % (state,))
             else:
-                print >>output, state, "(" + ", ".join(adjectives) + ")"
+                output.write("%s (%s)\n" % (state, ", ".join(adjectives)))
             for c in self.alphabet:
                 for neighbor in self.transition(state, c):
-                    print >>output, "  --[" + str(c) + "]-->", neighbor
+                    output.write("  --[%s]--> %s\n" % (c, neighbor))
 
     def RegExp(self):
         """Convert to regular expression and return as a string.
-- 
2.43.0


From a3e216f3e65b8364300fc1d5e3926528ce1a02e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:43:52 +0000
Subject: [PATCH 17/53] fix: escape operator symbols when converting an
 automaton to an expression

---
 pads/automata.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pads/automata.py b/pads/automata.py
index b0db4a0..f478b1c 100644
--- a/pads/automata.py
+++ b/pads/automata.py
@@ -294,11 +294,14 @@ class NFA(FiniteAutomaton):
             expr[x, x] = ''
         for x in self.states():
             for c in self.alphabet:
+                label = str(c)
+                if label in ('(', ')', '+', '*', '\\'):
+                    label = '\\' + label
                 for y in self.transition(x, c):
                     if expr[x, y]:
-                        expr[x, y] += '+' + str(c)
+                        expr[x, y] += '+' + label
                     else:
-                        expr[x, y] = str(c)
+                        expr[x, y] = label
 
         # eliminate states one at a time
         for s in self.states():
-- 
2.43.0


From 444a4f2a8b3e533e8875a5c20945f204ff748fb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:43:52 +0000
Subject: [PATCH 18/53] fix: write () for an empty alternative when converting
 to an expression

Joining an empty path with an existing expression left nothing before the
plus sign, which then read as a symbol.
---
 pads/automata.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pads/automata.py b/pads/automata.py
index f478b1c..c9a068f 100644
--- a/pads/automata.py
+++ b/pads/automata.py
@@ -316,7 +316,8 @@ class NFA(FiniteAutomaton):
                             xsy += self._parenthesize(expr[s, s], True) + ['*']
                         if expr[s, y]:
                             xsy += self._parenthesize(expr[s, y])
-                        if expr[x, y] is not None:
+                        if expr[x, y] is not None and (xsy or expr[x, y]):
+                            xsy = xsy or ['()']
                             xsy += ['+', expr[x, y] or '()']
                         expr[x, y] = ''.join(xsy)
         return expr[initial, final]
-- 
2.43.0


From cda0bb3743716d6cc16d6b9d71811f36adf74445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:05:00 +0000
Subject: [PATCH 19/53] fix: read graph files of more than one line under
 Python 3

Detecting the LEDA format indexed a filter object, so every input in a format
of several lines failed.
---
 pads/read_undirected_graph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pads/read_undirected_graph.py b/pads/read_undirected_graph.py
index b0299d3..583df2e 100644
--- a/pads/read_undirected_graph.py
+++ b/pads/read_undirected_graph.py
@@ -370,7 +370,7 @@ def ledaLines(lines):
     """
     def relevant(line):
         return line and not line.startswith('#')
-    return filter(relevant, lines)
+    return list(filter(relevant, lines))
 
 
 def readLeda(lines):
-- 
2.43.0


From 7c379b8bbaafdf974bf86a09cd18706b959e7b05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:05:00 +0000
Subject: [PATCH 20/53] fix: end sparse6 decoding when the data runs out

StopIteration inside a generator is an error in Python 3.7 and later.
---
 pads/read_undirected_graph.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pads/read_undirected_graph.py b/pads/read_undirected_graph.py
index 583df2e..fb3d8fd 100644
--- a/pads/read_undirected_graph.py
+++ b/pads/read_undirected_graph.py
@@ -323,7 +323,9 @@ def readSparse6(str):
 
         while 1:
             if dLen < 1:
-                d = next(chunks)
+                d = next(chunks, None)
+                if d is None:
+                    return
                 dLen = 6
             dLen -= 1
             b = (d >> dLen) & 1  # grab top remaining bit
@@ -331,7 +333,9 @@ def readSparse6(str):
             x = d & ((1 << dLen) - 1) 	# partially built up value of x
             xLen = dLen				# how many bits included so far in x
             while xLen < k:			# now grab full chunks until we have enough
-                d = next(chunks)
+                d = next(chunks, None)
+                if d is None:
+                    return
                 dLen = 6
                 x = (x << 6) + d
                 xLen += 6
-- 
2.43.0


From e584d49578b43876d46bc54575e6eb900711ea2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:05:00 +0000
Subject: [PATCH 21/53] fix: skip the whole sparse6 header

---
 pads/read_undirected_graph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pads/read_undirected_graph.py b/pads/read_undirected_graph.py
index fb3d8fd..1156fc7 100644
--- a/pads/read_undirected_graph.py
+++ b/pads/read_undirected_graph.py
@@ -307,7 +307,7 @@ def readGraph6(str):
 def readSparse6(str):
     """Read undirected graph in sparse6 format."""
     if str.startswith('>>sparse6<<'):
-        str = str[10:]
+        str = str[11:]
     if not str.startswith(':'):
         raise GraphFormatError('Expected colon in sparse6')
     n, data = graph6n(graph6data(str[1:]))
-- 
2.43.0


From a3250d8d4dbea981639e19f25432e30ca1643855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:05:00 +0000
Subject: [PATCH 22/53] fix: stop at sparse6 padding that moves past the last
 vertex

---
 pads/read_undirected_graph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pads/read_undirected_graph.py b/pads/read_undirected_graph.py
index 1156fc7..2d5455c 100644
--- a/pads/read_undirected_graph.py
+++ b/pads/read_undirected_graph.py
@@ -352,7 +352,7 @@ def readSparse6(str):
     for b, x in parseData():
         if b:
             v += 1
-        if x >= n:
+        if x >= n or v >= n:
             break			# padding with ones can cause overlarge number here
         elif x > v:
             v = x
-- 
2.43.0


From 19cc581a6e9bc250ebafac46dd3af16e75848eba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:05:31 +0000
Subject: [PATCH 23/53] fix: report truncated graph files as format errors

Running out of lines in the middle of an edge or a LEDA file let StopIteration
escape to the caller.
---
 pads/read_undirected_graph.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/pads/read_undirected_graph.py b/pads/read_undirected_graph.py
index 2d5455c..cc37cfa 100644
--- a/pads/read_undirected_graph.py
+++ b/pads/read_undirected_graph.py
@@ -156,8 +156,8 @@ def readNodeEdgeList(lines):
 
     def addEdge(line, id):
         u = line
-        v = next(lines)
-        if v.startswith('//'):
+        v = next(lines, '//')
+        if u.startswith('//') or v.startswith('//'):
             raise GraphFormatError('Missing edge endpoint in node edge list')
         edge(G, u, v, id)
         numEdges[0] += 1
@@ -170,7 +170,7 @@ def readNodeEdgeList(lines):
         if id in EdgeNames:
             raise GraphFormatError('Edge name "%s" used twice in node edge'
                                    ' list' % id)
-        addEdge(next(lines), id)
+        addEdge(next(lines, '//'), id)
         EdgeNames[id] = id
 
     def noActionYet(line):
@@ -379,7 +379,14 @@ def ledaLines(lines):
 
 def readLeda(lines):
     """Parse filtered LEDA.GRAPH format file."""
-    lines = iter(lines)
+    try:
+        return parseLeda(iter(lines))
+    except StopIteration:
+        raise GraphFormatError('LEDA.GRAPH file ends too early')
+
+
+def parseLeda(lines):
+    """Parse iterator over filtered lines of LEDA.GRAPH format file."""
     for i in range(3):
         next(lines)			    # skip header lines
     G = graph()
-- 
2.43.0


From de4c25d0a62bab509e1ed8a66965dae85418d7ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:07:18 +0000
Subject: [PATCH 24/53] fix: find common ancestors of nodes that cannot be
 ordered

Nodes at the same level were compared with each other although they may be any
hashable objects.
---
 pads/lca.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pads/lca.py b/pads/lca.py
index 3d2de70..64577d0 100644
--- a/pads/lca.py
+++ b/pads/lca.py
@@ -210,6 +210,7 @@ class LCA:
 
         levels = []
         self._representatives = {}
+        self._nodes = []    # so that ties in level never compare nodes
         self._visit(children, levels, root[0], 0)
         if [x for x in parent if x not in self._representatives]:
             raise ValueError("LCA input is not a tree")
@@ -218,12 +219,13 @@ class LCA:
     def __call__(self, *nodes):
         """Find least common ancestor of a set of nodes."""
         r = [self._representatives[x] for x in nodes]
-        return self._rangemin[min(r):max(r) + 1][1]
+        return self._nodes[self._rangemin[min(r):max(r) + 1][1]]
 
     def _visit(self, children, levels, node, level):
         """Perform Euler traversal of tree."""
         self._representatives[node] = len(levels)
-        pair = (level, node)
+        pair = (level, len(self._nodes))
+        self._nodes.append(node)
         levels.append(pair)
         for child in children[node]:
             self._visit(children, levels, child, level + 1)
-- 
2.43.0


From 18772d4411a2f6a3ccbadbff1d8e80b1868bd56e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:07:18 +0000
Subject: [PATCH 25/53] fix: refuse cycles beside the tree in offline common
 ancestors

---
 pads/lca.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pads/lca.py b/pads/lca.py
index 64577d0..1494407 100644
--- a/pads/lca.py
+++ b/pads/lca.py
@@ -266,6 +266,8 @@ class OfflineLCA(defaultdict):
         # initiate depth first traversal
         self.visited = set()
         self.traverse(root[0])
+        if [x for x in parent if x not in self.visited]:
+            raise ValueError("LCA input is not a tree")
 
     def traverse(self, node):
         """Perform depth first traversal of tree."""
-- 
2.43.0


From e16d933b1907d9670eb11b2d0c41782ce9bb6d77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:07:18 +0000
Subject: [PATCH 26/53] fix: find common ancestors and range minima in deep
 trees

The traversals were recursive, so a tree of depth 1000 or an increasing list of
that length exceeded the recursion limit.
---
 pads/lca.py | 52 ++++++++++++++++++++++++++++++++++++----------------
 1 file changed, 36 insertions(+), 16 deletions(-)

diff --git a/pads/lca.py b/pads/lca.py
index 1494407..deb37fa 100644
--- a/pads/lca.py
+++ b/pads/lca.py
@@ -223,13 +223,24 @@ class LCA:
 
     def _visit(self, children, levels, node, level):
         """Perform Euler traversal of tree."""
-        self._representatives[node] = len(levels)
-        pair = (level, len(self._nodes))
-        self._nodes.append(node)
-        levels.append(pair)
-        for child in children[node]:
-            self._visit(children, levels, child, level + 1)
-            levels.append(pair)
+        stack = []          # explicit, as trees may be deep
+        children_iter = iter([node])
+        while True:
+            for node in children_iter:
+                self._representatives[node] = len(levels)
+                pair = (level, len(self._nodes))
+                self._nodes.append(node)
+                levels.append(pair)
+                stack.append((children_iter, pair))
+                children_iter = iter(children[node])
+                level += 1
+                break
+            else:
+                children_iter, pair = stack.pop()
+                level -= 1
+                if not stack:
+                    return
+                levels.append(stack[-1][1])
 
 
 class OfflineLCA(defaultdict):
@@ -272,15 +283,24 @@ class OfflineLCA(defaultdict):
     def traverse(self, node):
         """Perform depth first traversal of tree."""
         self.ancestors[self.descendants[node]] = node
-        for child in self.children[node]:
-            self.traverse(child)
-            self.descendants.union(child, node)
-            self.ancestors[self.descendants[node]] = node
-        self.visited.add(node)
-        for query in self[node]:
-            if query in self.visited:
-                lca = self.ancestors[self.descendants[query]]
-                self[node][query] = self[query][node] = lca
+        stack = [(node, iter(self.children[node]))]  # trees may be deep
+        while stack:
+            node, children = stack[-1]
+            for child in children:
+                self.ancestors[self.descendants[child]] = child
+                stack.append((child, iter(self.children[child])))
+                break
+            else:
+                self.visited.add(node)
+                for query in self[node]:
+                    if query in self.visited:
+                        lca = self.ancestors[self.descendants[query]]
+                        self[node][query] = self[query][node] = lca
+                stack.pop()
+                if stack:
+                    above = stack[-1][0]
+                    self.descendants.union(node, above)
+                    self.ancestors[self.descendants[above]] = above
 
 # Various utility functions
 
-- 
2.43.0


From c263c9dbd500d3d185aaef94c542c49be021d13d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:11:57 +0000
Subject: [PATCH 27/53] fix: keep smaller values when removing from a bit
 vector heap

---
 pads/integer_heap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pads/integer_heap.py b/pads/integer_heap.py
index f851690..206c464 100644
--- a/pads/integer_heap.py
+++ b/pads/integer_heap.py
@@ -83,7 +83,7 @@ class BitVectorHeap:
 
     def remove(self, x):
         """Remove x from the values in the heap."""
-        self._S &= ~ 1 << x
+        self._S &= ~(1 << x)
 
     def min(self):
         """Return the minimum value in the heap."""
-- 
2.43.0


From 0bd2400fa59888556a3fce273f928e6fdb03244c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:11:57 +0000
Subject: [PATCH 28/53] fix: refuse to index an empty sequence

---
 pads/sequence.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pads/sequence.py b/pads/sequence.py
index adc3a2b..38bc354 100644
--- a/pads/sequence.py
+++ b/pads/sequence.py
@@ -46,6 +46,8 @@ class Sequence:
 
     def __getitem__(self, i):
         """Return the ith item in the sequence."""
+        if not self._next:
+            raise IndexError("Index out of range")
         item = self._first
         while i:
             item = self._next[item]
-- 
2.43.0


From a6ca3e9c63838c3c92d513ccbcd02f0c6851d3fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:11:57 +0000
Subject: [PATCH 29/53] fix: keep the items of a keyed sequence when looking up
 equal keys

---
 pads/sequence.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/pads/sequence.py b/pads/sequence.py
index 38bc354..fcb27a9 100644
--- a/pads/sequence.py
+++ b/pads/sequence.py
@@ -71,9 +71,7 @@ class Sequence:
         """Apply supplied key function."""
         if not self._key:
             return x
-        key = self._key(x)
-        self._items[key] = x
-        return key
+        return self._key(x)
 
     def _insafter(self, x, y):
         """Unkeyed version of insertAfter."""
@@ -85,6 +83,7 @@ class Sequence:
 
     def append(self, x):
         """Add x to the end of the sequence."""
+        item = x
         x = self.key(x)
         if not self._next:  # add to empty sequence
             self._next = {x: x}
@@ -92,6 +91,7 @@ class Sequence:
             self._first = x
         else:
             self._insafter(self._prev[self._first], x)
+        self._items[x] = item
 
     def remove(self, x):
         """Remove x from the sequence."""
@@ -101,19 +101,23 @@ class Sequence:
         self._prev[next] = prev
         if x == self._first:
             self._first = next
-        del self._next[x], self._prev[x]
+        del self._next[x], self._prev[x], self._items[x]
 
     def insertAfter(self, x, y):
         """Add y after x in the sequence."""
+        item = y
         y = self.key(y)
         x = self.key(x)
         self._insafter(x, y)
+        self._items[y] = item
 
     def insertBefore(self, x, y):
         """Add y before x in the sequence."""
+        item = y
         y = self.key(y)
         x = self.key(x)
         self._insafter(self._prev[x], y)
+        self._items[y] = item
         if self._first == x:
             self._first = y
 
-- 
2.43.0


From c99c26d29190d15c6b2b5a8ab297921c4ada4a44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:11:57 +0000
Subject: [PATCH 30/53] fix: use an integer limit that exists in Python 3 for
 sequence tags

---
 pads/ordered_sequence.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pads/ordered_sequence.py b/pads/ordered_sequence.py
index 9d6a933..5f4e146 100644
--- a/pads/ordered_sequence.py
+++ b/pads/ordered_sequence.py
@@ -18,7 +18,7 @@ class SimpleOrderedSequence(Sequence):
     for each item, with the order of tags the same as the sequence order.
     When two tags collide, we renumber the whole sequence; this behavior
     can be changed by overriding the rebalance method.  Renumbers happen
-    infrequently (roughly one in every log(sys.maxint) insertions)
+    infrequently (roughly one in every log(sys.maxsize) insertions)
     but take time proportional to the number of items, so it is preferable
     to use this data structure only for sequences of very few items.
     """
@@ -45,7 +45,7 @@ class SimpleOrderedSequence(Sequence):
         """Add x to the end of the sequence."""
         if not self._next:  # add to empty sequence
             Sequence.append(self, x)
-            self._tag[self.key(x)] = sys.maxint // 2
+            self._tag[self.key(x)] = sys.maxsize // 2
         else:
             self.insertAfter(self._prev[self._first], x)
 
@@ -56,7 +56,7 @@ class SimpleOrderedSequence(Sequence):
         y = self.key(y)
         next = self._next[y]
         if next == self._first:
-            nexttag = sys.maxint
+            nexttag = sys.maxsize
         else:
             nexttag = self._tag[next]
         xtag = self._tag[x]
@@ -77,7 +77,7 @@ class SimpleOrderedSequence(Sequence):
     def rebalance(self, x):
         """Clean up after x and its successor's tags collide."""
         base = 0
-        increment = sys.maxint // len(self)
+        increment = sys.maxsize // len(self)
         for y in self:
             self._tag[y] = base
             base += increment
-- 
2.43.0


From 79fdfcd1fff70a78c29d1657478cbd554580f37d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:11:57 +0000
Subject: [PATCH 31/53] fix: place items inserted before another in the
 sequence order

---
 pads/ordered_sequence.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/pads/ordered_sequence.py b/pads/ordered_sequence.py
index 5f4e146..bbfbee7 100644
--- a/pads/ordered_sequence.py
+++ b/pads/ordered_sequence.py
@@ -66,13 +66,15 @@ class SimpleOrderedSequence(Sequence):
 
     def insertBefore(self, x, y):
         """Add y before x in the sequence."""
+        if self.key(x) != self._first:
+            self.insertAfter(self.predecessor(x), y)
+            return
         Sequence.insertBefore(self, x, y)
         x = self.key(x)
         y = self.key(y)
-        if self._first == y:
-            self._tag[y] = self._tag[x] // 2
-            if self._tag[y] == self._tag[x]:
-                self.rebalance(y)
+        self._tag[y] = self._tag[x] // 2
+        if self._tag[y] == self._tag[x]:
+            self.rebalance(y)
 
     def rebalance(self, x):
         """Clean up after x and its successor's tags collide."""
-- 
2.43.0


From 78f57f37331c5aec672723cde86bc23d1c7e3816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:11:57 +0000
Subject: [PATCH 32/53] fix: append to and renumber ordered sequences that use
 a key

---
 pads/ordered_sequence.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pads/ordered_sequence.py b/pads/ordered_sequence.py
index bbfbee7..137ad62 100644
--- a/pads/ordered_sequence.py
+++ b/pads/ordered_sequence.py
@@ -47,7 +47,8 @@ class SimpleOrderedSequence(Sequence):
             Sequence.append(self, x)
             self._tag[self.key(x)] = sys.maxsize // 2
         else:
-            self.insertAfter(self._prev[self._first], x)
+            last = self._prev[self._first]
+            self.insertAfter(self._items[last], x)
 
     def insertAfter(self, x, y):
         """Add y after x and compute a tag for it."""
@@ -81,7 +82,7 @@ class SimpleOrderedSequence(Sequence):
         base = 0
         increment = sys.maxsize // len(self)
         for y in self:
-            self._tag[y] = base
+            self._tag[self.key(y)] = base
             base += increment
 
 
-- 
2.43.0


From 6a919f42529017a5db8afabb334206001c897db0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:11:57 +0000
Subject: [PATCH 33/53] fix: list items added twice only once in sorted sets

---
 pads/sorted_set.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pads/sorted_set.py b/pads/sorted_set.py
index 82b71c2..dcf6a82 100644
--- a/pads/sorted_set.py
+++ b/pads/sorted_set.py
@@ -39,6 +39,8 @@ class SortedSet:
 
     def add(self, item):
         """Add the given item to a sorted set."""
+        if item in self._set:
+            return
         self._set.add(item)
         if self._previous:
             self._additions.add(item)
-- 
2.43.0


From c426a97558856451ebb6eca16ea3c10cbe615155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:11:57 +0000
Subject: [PATCH 34/53] fix: keep the partition when freezing it again

---
 pads/partition_refinement.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pads/partition_refinement.py b/pads/partition_refinement.py
index b907d5d..c3f5f48 100644
--- a/pads/partition_refinement.py
+++ b/pads/partition_refinement.py
@@ -87,5 +87,5 @@ class PartitionRefinement:
             F = frozenset(S)
             for x in F:
                 self._partition[x] = F
-            self._sets[id(F)] = F
             del self._sets[id(S)]
+            self._sets[id(F)] = F
-- 
2.43.0


From 4ef285e82220581112ede09562caedab8181a70e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:19:07 +0000
Subject: [PATCH 35/53] fix: break ties by row order rather than row label in
 matrix searching

---
 pads/smawk.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pads/smawk.py b/pads/smawk.py
index 948ab4c..94ed430 100644
--- a/pads/smawk.py
+++ b/pads/smawk.py
@@ -69,7 +69,9 @@ def ConcaveMinima(RowIndices, ColIndices, Matrix):
         while row != lastrow:
             r += 1
             row = RowIndices[r]
-            pair = min(pair, (Matrix(row, col), row))
+            value = Matrix(row, col)
+            if value < pair[0]:     # in ties, keep the earlier row
+                pair = (value, row)
         minima[col] = pair
 
     return minima
-- 
2.43.0


From a8e1106e36229a7c9780d58e2c3f609d6f7da18c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:19:07 +0000
Subject: [PATCH 36/53] fix: import the matrix searching module from its
 package when wrapping

---
 pads/wrap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pads/wrap.py b/pads/wrap.py
index f9dc6e0..cc83250 100644
--- a/pads/wrap.py
+++ b/pads/wrap.py
@@ -10,7 +10,7 @@ time via the OnlineConcaveMinima algorithm in SMAWK.py.
 D. Eppstein, August 2005.
 """
 
-from smawk import OnlineConcaveMinima
+from .smawk import OnlineConcaveMinima
 
 
 def wrap(text,                 # string or unicode to be wrapped
-- 
2.43.0


From fa6794690c100a35b3314de474f5cf60387ca527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:19:37 +0000
Subject: [PATCH 37/53] fix: do not break between a trailing hyphen and the
 following space

---
 pads/wrap.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pads/wrap.py b/pads/wrap.py
index cc83250..7ae51cf 100644
--- a/pads/wrap.py
+++ b/pads/wrap.py
@@ -32,6 +32,8 @@ def wrap(text,                 # string or unicode to be wrapped
         if words:
             total += spacings[words[-1][1]]
         parts = hyphenword.split('-')
+        if len(parts) > 1 and not parts[-1]:    # nothing after last hyphen
+            parts[-2:] = [parts[-2] + '-']
         for word in parts[:-1]:
             word += '-'
             total += measure(word)
-- 
2.43.0


From 9e96743690c452967b392436c6fcb7dc88b4dffa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:22:40 +0000
Subject: [PATCH 38/53] fix: generate no Lyndon words when only the empty
 length is allowed

---
 pads/lyndon.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pads/lyndon.py b/pads/lyndon.py
index 0306e04..2c37bbf 100644
--- a/pads/lyndon.py
+++ b/pads/lyndon.py
@@ -11,6 +11,8 @@ def LengthLimitedLyndonWords(s, n):
     J.-P. Duval, Theor. Comput. Sci. 1988, doi:10.1016/0304-3975(88)90113-2.
     As shown by Berstel and Pocchiola, it takes constant average time
     per generated word."""
+    if n < 1:
+        return
     w = [-1]                            # set up for first increment
     while w:
         w[-1] += 1                      # increment the last non-z symbol
-- 
2.43.0


From 67dc674a6a9754be8f0df4dbe2fdba0fff3e9b0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:22:40 +0000
Subject: [PATCH 39/53] fix: leave factorizations unchanged after generating
 them

---
 pads/eratosthenes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pads/eratosthenes.py b/pads/eratosthenes.py
index 7822da8..a4cfcbc 100644
--- a/pads/eratosthenes.py
+++ b/pads/eratosthenes.py
@@ -77,12 +77,12 @@ def factored_integers():
         if i not in factorization:  # prime
             F = {i: 1}
             yield i, F
-            factorization[2 * i] = F
+            factorization[2 * i] = dict(F)
         elif len(factorization[i]) == 1:    # prime power
             p, x = next(iter(factorization[i].items()))
             F = {p: x + 1}
             yield i, F
-            factorization[2 * i] = F
+            factorization[2 * i] = dict(F)
             factorization[i + p**x][p] = x
             del factorization[i]
         else:
-- 
2.43.0


From 272945d2a59c3dc2675954d64f4493fb7c85bd35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:25:25 +0000
Subject: [PATCH 40/53] fix: normalize circle packings under Python 3

---
 pads/circle_pack.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pads/circle_pack.py b/pads/circle_pack.py
index 49ce484..75cc7d8 100644
--- a/pads/circle_pack.py
+++ b/pads/circle_pack.py
@@ -85,7 +85,7 @@ def NormalizePacking(packing, k=None, target=1.0):
     else:
         z, r = packing[k]
     s = target / r
-    return dict((kk, (zz * s, rr * s)) for kk, (zz, rr) in packing.iteritems())
+    return dict((kk, (zz * s, rr * s)) for kk, (zz, rr) in packing.items())
 
 
 def InvertAround(packing, k, smallCircles=None):
-- 
2.43.0


From 7fe1009479c36ec69e9c08b6b8cf415f16cf3007 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:25:25 +0000
Subject: [PATCH 41/53] fix: draw rectangles at their own height in SVG files

---
 pads/svg.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pads/svg.py b/pads/svg.py
index 0ebc634..a439293 100644
--- a/pads/svg.py
+++ b/pads/svg.py
@@ -111,11 +111,11 @@ class SVG:
     def rectangle(self, p, q, style={}, **morestyle):
         """Rectangle with corners at points p and q"""
         x = min(p.real, q.real)
-        # y = min(p.imag, q.imag)
+        y = min(p.imag, q.imag)
         width = abs((p - q).real)
         height = abs((p - q).imag)
         self.element('rect x="%s" y="%s" width="%s" height="%s"' %
-                     (_coord(x), _coord(x), _coord(width), _coord(height)),
+                     (_coord(x), _coord(y), _coord(width), _coord(height)),
                      style=style, **morestyle)
 
     def polygon(self, points, style={}, **morestyle):
-- 
2.43.0


From 9f181cbe843e8e0eb9fb3f1e471d180bcdc619ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:25:37 +0000
Subject: [PATCH 42/53] fix: invert around a circle that is not among the
 chosen small circles

---
 pads/circle_pack.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pads/circle_pack.py b/pads/circle_pack.py
index 75cc7d8..54f842d 100644
--- a/pads/circle_pack.py
+++ b/pads/circle_pack.py
@@ -101,7 +101,8 @@ def InvertAround(packing, k, smallCircles=None):
     for the minimum radius circle will look only at these circles"""
     z, r = packing[k]
     if smallCircles:
-        optpack = {k: packing[k] for k in smallCircles}
+        optpack = {kk: packing[kk] for kk in smallCircles}
+        optpack[k] = packing[k]     # needed to measure the others against
     else:
         optpack = packing
     q, g = z, r * 0.4
-- 
2.43.0


From a4af79c09fe54982db314c601dcfc09b40a5d3fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:25:37 +0000
Subject: [PATCH 43/53] fix: declare the namespace of the prefix used for SVG
 tags

---
 pads/svg.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pads/svg.py b/pads/svg.py
index a439293..5e71a75 100644
--- a/pads/svg.py
+++ b/pads/svg.py
@@ -43,8 +43,8 @@ class SVG:
         br = _coord(bbox.real)
         bi = _coord(bbox.imag)
         self.element('''svg width="%s" height="%s" viewBox="0 0 %s %s"
-     xmlns="http://www.w3.org/2000/svg" version="1.1"''' % (br, bi, br, bi),
-                     +1)
+     xmlns%s="http://www.w3.org/2000/svg" version="1.1"''' %
+                     (br, bi, br, bi, prefix and ":" + prefix or ""), +1)
 
     def close(self):
         """Output the end of an SVG file."""
-- 
2.43.0


From 74deaacb6ab31879d58a8dbf406c82f744b0c6d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:44:36 +0000
Subject: [PATCH 44/53] fix: keep excluded positions excluded in backtracking
 branches

---
 pads/sudoku.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pads/sudoku.py b/pads/sudoku.py
index 72b1f2e..f6e5f75 100644
--- a/pads/sudoku.py
+++ b/pads/sudoku.py
@@ -1600,6 +1600,7 @@ def all_solutions(grid, fastrules=True):
         branch.logstream = grid.logstream
         branch.steps = grid.steps
         branch.original_cells = grid.original_cells
+        branch.locations = list(grid.locations)
         branch.place(d, c, "The backtracking search will try this placement"
                      " first. Then, after returning from this branch,"
                      " it will try preventing this placement.")
-- 
2.43.0


From 83e304fb800fea79a2b1777a6ec581c1b396490b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:44:36 +0000
Subject: [PATCH 45/53] fix: separate a sudoku puzzle from its solution by a
 blank line

---
 pads/sudoku.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pads/sudoku.py b/pads/sudoku.py
index f6e5f75..5b1d157 100644
--- a/pads/sudoku.py
+++ b/pads/sudoku.py
@@ -1814,7 +1814,7 @@ if __name__ == '__main__':
         print_level = outputter(puzzle)
 
     if options.output_both and print_level:
-        print
+        print()
 
     if options.backtrack:
         solns = all_solutions(puzzle, False)
-- 
2.43.0


From cf2c0700c7ff697e74e71a573f5c87a25f435eb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:52:52 +0000
Subject: [PATCH 46/53] fix: connect the third cycle of generalized Coxeter
 graphs to itself

---
 pads/graph_examples.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pads/graph_examples.py b/pads/graph_examples.py
index 69108a1..4584991 100644
--- a/pads/graph_examples.py
+++ b/pads/graph_examples.py
@@ -23,7 +23,7 @@ def GeneralizedCoxeterGraph(n, a, b):
         G[i, 0] = (i, 1), (i, 2), (i, 3)
         G[i, 1] = (i, 0), ((i + 1) % n, 1), ((i - 1) % n, 1)
         G[i, 2] = (i, 0), ((i + a) % n, 2), ((i - a) % n, 2)
-        G[i, 3] = (i, 0), ((i + b) % n, 1), ((i - b) % n, 1)
+        G[i, 3] = (i, 0), ((i + b) % n, 3), ((i - b) % n, 3)
     return G
 
 CoxeterGraph = GeneralizedCoxeterGraph(7, 2, 3)
-- 
2.43.0


From 148b8db91b037d164a242a10b62ca3db5d7b69cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:58:11 +0000
Subject: [PATCH 47/53] fix: report imperfect graphs without a perfect matching
 in the usual format

---
 pads/bipartite_matching.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pads/bipartite_matching.py b/pads/bipartite_matching.py
index 96d3e55..499b531 100644
--- a/pads/bipartite_matching.py
+++ b/pads/bipartite_matching.py
@@ -100,7 +100,9 @@ def imperfections(graph):
     M, A, B = matching(graph)
     if (len(M) != len(graph)
             or not all(w in M for v in graph for w in graph[v])):
-        return graph    # whole graph is imperfect
+        # whole graph is imperfect
+        whole = {v: set(graph[v]) for v in graph}
+        return {v: {w: whole for w in graph[v]} for v in graph}
 
     orientation = {}
     for v in graph:
-- 
2.43.0


From 86eca307cdacfb16763dee46f147cbc5bc5d2b0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:00:07 +0000
Subject: [PATCH 48/53] fix: find long augmenting paths in bipartite graphs
 without recursion

---
 pads/bipartite_matching.py | 32 +++++++++++++++++++-------------
 1 file changed, 19 insertions(+), 13 deletions(-)

diff --git a/pads/bipartite_matching.py b/pads/bipartite_matching.py
index 499b531..65c7f87 100644
--- a/pads/bipartite_matching.py
+++ b/pads/bipartite_matching.py
@@ -67,23 +67,29 @@ def matching(graph):
                         unlayered[v] = None
             return (matching, list(pred), list(unlayered))
 
-        # recursively search backward through layers to find alternating paths
-        # recursion returns true if found path, false otherwise
-        def recurse(v):
-            if v in preds:
-                L = preds[v]
-                del preds[v]
+        # search backward through layers to find an alternating path to v
+        # using an explicit stack, as the path may be long
+        def augment(v):
+            path = []
+            stack = [(v, iter(preds.pop(v, ())))]
+            while stack:
+                v, L = stack[-1]
                 for u in L:
                     if u in pred:
-                        pu = pred[u]
-                        del pred[u]
-                        if pu is unmatched or recurse(pu):
-                            matching[v] = u
-                            return True
-            return False
+                        pu = pred.pop(u)
+                        path.append((v, u))
+                        if pu is unmatched:
+                            matching.update(path)
+                            return
+                        stack.append((pu, iter(preds.pop(pu, ()))))
+                        break
+                else:
+                    stack.pop()
+                    if path:
+                        path.pop()
 
         for v in unmatched:
-            recurse(v)
+            augment(v)
 
 
 def imperfections(graph):
-- 
2.43.0


From 2e9c337e86ea1161b040b2f34bc4b1d4988ee4a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:00:07 +0000
Subject: [PATCH 49/53] fix: place the circles of large packings without
 recursion

---
 pads/circle_pack.py | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/pads/circle_pack.py b/pads/circle_pack.py
index 54f842d..7e26b2b 100644
--- a/pads/circle_pack.py
+++ b/pads/circle_pack.py
@@ -138,12 +138,21 @@ def flower(radius, center, cycle):
 
 
 def place(placements, radii, internal, center):
-    """Recursively find centers of all circles surrounding k"""
-    if center not in internal:
-        return
-    cycle = internal[center]
-    for i in range(-len(cycle), len(cycle) - 1):
-        if cycle[i] in placements and cycle[i + 1] not in placements:
+    """Find centers of all circles surrounding k, then those around them"""
+    stack = []          # explicit, as there may be many circles
+    while True:
+        if center in internal:
+            stack.append((center, iter(range(-len(internal[center]),
+                                             len(internal[center]) - 1))))
+        while stack:
+            center, positions = stack[-1]
+            cycle = internal[center]
+            for i in positions:
+                if cycle[i] in placements and cycle[i + 1] not in placements:
+                    break
+            else:
+                stack.pop()
+                continue
             s, t = cycle[i], cycle[i + 1]
             theta = acxyz(radii[center], radii[s], radii[t])
             offset = (placements[s] - placements[center]) / \
@@ -151,7 +160,10 @@ def place(placements, radii, internal, center):
             offset *= e**(-1j * theta)
             placements[t] = placements[center] + \
                 offset * (radii[t] + radii[center])
-            place(placements, radii, internal, t)
+            center = t
+            break
+        else:
+            return
 
 
 def testgrid(packing, k, z, r, q, g):
-- 
2.43.0


From 4ec73f1c23b14c8841e972ecb95dc86a46b03c36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:34:20 +0000
Subject: [PATCH 50/53] fix: report malformed graph6 and sparse6 data as format
 errors

---
 pads/read_undirected_graph.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pads/read_undirected_graph.py b/pads/read_undirected_graph.py
index cc37cfa..cc6be52 100644
--- a/pads/read_undirected_graph.py
+++ b/pads/read_undirected_graph.py
@@ -253,7 +253,7 @@ def readGraphML(lines):
 def graph6data(str):
     """Convert graph6 character sequence to 6-bit integers."""
     v = [ord(c) - 63 for c in str]
-    if min(v) < 0 or max(v) > 63:
+    if not v or min(v) < 0 or max(v) > 63:
         return None
     return v
 
@@ -263,8 +263,12 @@ def graph6n(data):
     value, rest of seq.
 
     """
+    if data is None:
+        raise GraphFormatError('Missing or invalid characters in graph6')
     if data[0] <= 62:
         return data[0], data[1:]
+    if len(data) < 4:
+        raise GraphFormatError('Truncated number of vertices in graph6')
     return (data[1] << 12) + (data[2] << 6) + data[3], data[4:]
 
 
-- 
2.43.0


From 35ca08e6c30eb3c59ffa515d7767387d8c22211f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:34:20 +0000
Subject: [PATCH 51/53] fix: report malformed XML in GraphML as a format error

---
 pads/read_undirected_graph.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pads/read_undirected_graph.py b/pads/read_undirected_graph.py
index cc6be52..d1f8a9b 100644
--- a/pads/read_undirected_graph.py
+++ b/pads/read_undirected_graph.py
@@ -240,9 +240,12 @@ def readGraphML(lines):
     p = xml.parsers.expat.ParserCreate()
     p.StartElementHandler = start_element
     p.EndElementHandler = end_element
-    for line in lines:
-        p.Parse(line)
-    p.Parse("", 1)
+    try:
+        for line in lines:
+            p.Parse(line)
+        p.Parse("", 1)
+    except xml.parsers.expat.ExpatError as e:
+        raise GraphFormatError('Malformed XML in GraphML: %s' % e)
     return G
 
 
-- 
2.43.0


From 9458f32a3354991dd10b817c567fc1c54a713a63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:34:20 +0000
Subject: [PATCH 52/53] fix: read an empty graph file as the empty graph

---
 pads/read_undirected_graph.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pads/read_undirected_graph.py b/pads/read_undirected_graph.py
index d1f8a9b..6a399e5 100644
--- a/pads/read_undirected_graph.py
+++ b/pads/read_undirected_graph.py
@@ -454,11 +454,11 @@ def readUndirectedGraph(arg):
         return readLeda(leda)
 
     # GraphML
-    if lines[0].startswith("<"):
+    if lines and lines[0].startswith("<"):
         return readGraphML(lines)
 
     # Node edge list
-    if lines[0].startswith("//"):
+    if lines and lines[0].startswith("//"):
         return readNodeEdgeList(lines)
 
     # MALF
-- 
2.43.0


From aeffd4441980de6bdeb6e903f3a7ca649553d914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:34:33 +0000
Subject: [PATCH 53/53] fix: report a line of spaces among MALF vertices as a
 format error

---
 pads/read_undirected_graph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pads/read_undirected_graph.py b/pads/read_undirected_graph.py
index 6a399e5..582268e 100644
--- a/pads/read_undirected_graph.py
+++ b/pads/read_undirected_graph.py
@@ -92,7 +92,7 @@ def readMALF(lines):
     for line in lines:
         if line == '#':
             break
-        n = graphNum(line.split()[0])
+        n = graphNum((line.split() or [line])[0])
         if n != len(G) + 1:
             raise GraphFormatError('Nonconsecutive vertices in MALF')
         vertex(G, n)
-- 
2.43.0

