"""The properties, as data.

tools/gen.py turns this into properties.jsonl and MANIFEST.json, so both files
always agree with what is checked.  PROPS maps id -> dict with the fields of
properties.jsonl plus `note`, the level_note of the check.
"""

PROPS = {}


def P(id, title, statement, over, text, why, files, mech, note):
    assert id not in PROPS, id
    assert len(title) <= 80, (id, len(title))
    PROPS[id] = {
        "id": id,
        "title": title,
        "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {
            "files": ["pads/" + f for f in files],
            "mechanism": [{"name": n, "where": "pads/" + w} for n, w in mech],
            "observe_at": ["return values, raised exceptions and yielded "
                           "items of the public functions and classes in "
                           + ", ".join("pads/" + f for f in files)],
            "hook_needed": None,
        },
        "note": note,
    }


INP = ["inputs"]

# ---------------------------------------------------------------- traversal

P("P01", "Depth-first and breadth-first traversals are faithful to the graph",
  "A depth-first search reports every vertex reachable from its starting "
  "vertices exactly once going forward and once coming back, every edge "
  "exactly once, and properly nested, with tree edges going only to vertices "
  "not seen before and the other edges only to vertices already seen. "
  "Preorder, postorder, reachability and searches that dispatch to callbacks "
  "agree with that report. A breadth-first search lists exactly the vertices "
  "at each distance from its root, level by level, with exactly the "
  "edges that lead from one level to the next.",
  INP, "every finite directed or undirected graph, in every vertex and "
  "neighbour order, with and without loops and cycles, and every start vertex",
  "No test calls the traversal functions directly; they are only used inside "
  "other tests on a handful of fixed graphs, so neither the event stream nor "
  "the level structure is ever examined.",
  ["dfs.py", "bfs.py"],
  [("explicit stack of child iterators", "dfs.py:19"),
   ("level sets and a visited set", "bfs.py:8")],
  "Event stream replayed against an independent stack machine; distances from "
  "an independent BFS. All digraphs on up to 3 vertices plus random ones.")

P("P02", "Strongly connected components and condensation are exact",
  "The strongly connected components of a directed graph partition its "
  "vertices into the classes of mutual reachability, and each component is "
  "returned as the subgraph induced by its vertices. The condensation has "
  "exactly one vertex per component, an edge between two different components "
  "exactly when some edge of the graph joins them, and no cycle.",
  INP, "every finite directed graph (loops, isolated vertices and several "
  "components included), in every vertex and neighbour order",
  "Three fixed graphs are tested; a lowpoint error that merges or splits "
  "components only on particular visiting orders is out of their reach.",
  ["strong_connectivity.py", "dfs.py"],
  [("lowpoints reset to infinity when a component closes",
    "strong_connectivity.py:75"),
   ("condensation built from component map", "strong_connectivity.py:86")],
  "Compared with mutual reachability computed by transitive closure. All "
  "digraphs on up to 4 vertices (quick) plus random ones up to 14 vertices.")

P("P03", "Topological order, acyclicity, closure and DAG reachability are exact",
  "A graph is reported acyclic exactly when it has no directed cycle; a "
  "topological order is then produced listing every vertex once before all "
  "its successors, and otherwise the request is refused with an error, and "
  "the order checker accepts exactly the valid orders. The transitive closure "
  "of any graph has an edge between two different vertices exactly when a "
  "path joins them. The reachability structure for an acyclic graph answers "
  "true exactly for pairs joined by a path, including a vertex with itself.",
  INP, "every finite directed graph, cyclic ones included; every candidate "
  "order; every pair of vertices",
  "Tests use one or two small fixed graphs and check one order; rejected "
  "inputs, other orders and bit patterns of larger graphs are not reached.",
  ["partial_order.py", "acyclic_reachability.py"],
  [("reverse postorder verified against every edge", "partial_order.py:28"),
   ("bitvector of descendants in reverse topological order",
    "acyclic_reachability.py:27")],
  "Oracle: Warshall closure. All digraphs on up to 4 vertices plus random "
  "ones; the order checker is given valid, perturbed and truncated orders.")

P("P04", "Path covers, chain covers and antichains of a DAG meet Dilworth's bound",
  "The minimum path decomposition of an acyclic graph is a set of paths of "
  "the graph that together contain every vertex exactly once, as few as "
  "possible. The minimum chain decomposition is the same for the reachability "
  "order, so that consecutive members of a chain are joined by a path. The "
  "maximum antichain is a set of pairwise unreachable vertices whose size "
  "equals the number of chains, and a cyclic input is refused.",
  INP, "every finite directed acyclic graph, in every vertex and neighbour "
  "order, transitively closed or not",
  "One fixed DAG is tested; whether chains are split or antichains lose "
  "members depends on vertex order and on isolated vertices.",
  ["partial_order.py", "bipartite_matching.py"],
  [("matching of the split graph turned back into paths",
    "partial_order.py:56"),
   ("independent set intersected over both sides", "partial_order.py:99")],
  "Size compared with n minus an independent maximum matching; validity "
  "checked edge by edge. All DAGs on up to 4 vertices in all orders, plus "
  "random DAGs up to 12 vertices.")

P("P05", "Biconnected components, biconnectivity and st-orientation are exact",
  "The biconnected components of an undirected graph are exactly its blocks: "
  "each edge in exactly one component, isolated vertices as one-vertex "
  "components, vertices shared only at articulation points. A graph is "
  "reported biconnected exactly when it is connected and no single vertex "
  "removal disconnects it. An st-orientation orients every edge exactly once "
  "without cycles, with one source and one sink which are adjacent, and is "
  "refused for graphs that are not biconnected and for directed input.",
  INP, "every finite simple undirected graph, in every vertex and neighbour "
  "order, plus directed inputs for the refusal",
  "Tests check two fixed graphs; lowpoint and orientation bookkeeping depends "
  "on the visiting order, and refusal of disconnected graphs is not covered.",
  ["biconnectivity.py", "graphs.py"],
  [("lowpoint comparison at postorder", "biconnectivity.py:59"),
   ("edges oriented like their lowpoint anchor", "biconnectivity.py:192")],
  "Blocks from an independent brute force (edges equivalent when no vertex "
  "separates them). All graphs on up to 5 vertices plus random ones.")

P("P06", "Bipartiteness, two-colouring, bipartite orientation and odd core are exact",
  "A graph is reported bipartite exactly when it has no odd cycle; the "
  "two-colouring then covers every vertex and gives the ends of each edge "
  "different colours, and otherwise the request is refused. The one-sided "
  "vertex list and the one-sided orientation contain one end of every edge, "
  "with all its neighbours. The odd core contains exactly the vertices and "
  "edges that lie on some odd simple cycle.",
  INP, "every finite undirected graph, connected or not, in every vertex and "
  "neighbour order; with edges from a vertex to itself for bipartiteness, "
  "without them for the odd core",
  "Tests check two fixed graphs; odd cycles found late in the search, several "
  "components and mixed blocks are not reached.",
  ["bipartite.py", "biconnectivity.py", "graphs.py"],
  [("colour flipped along tree edges, checked on the others", "bipartite.py:24"),
   ("union of nonbipartite blocks", "bipartite.py:66")],
  "Odd-core oracle enumerates simple cycles on graphs up to 6 vertices and "
  "uses brute-force blocks above that.")

P("P07", "Bipartite matching is maximum and certified by an independent set",
  "For every bipartite graph the returned matching uses only edges of the "
  "graph, matches no vertex twice, and has the largest possible size. The "
  "two returned vertex sets together form an independent set, they contain no "
  "vertex twice, and their size plus that of the matching is the number of "
  "vertices of the graph.",
  INP, "every finite bipartite graph given as left-to-right adjacency, with "
  "the same object allowed on both sides, and repeated neighbours",
  "There is no test of this module; only sudoku and partial orders use it.",
  ["bipartite_matching.py"],
  [("layered residual graph and backward augmentation",
    "bipartite_matching.py:31"),
   ("independent set read off the last layering", "bipartite_matching.py:62")],
  "Koenig duality makes the certificate complete: validity of both outputs "
  "plus the size identity implies optimality; also compared with an "
  "independent augmenting-path matching.")

P("P08", "Edges reported as in no perfect matching are exactly those",
  "For every bipartite graph, an edge is reported as imperfect exactly when "
  "no perfect matching uses it; if there is no perfect matching, the whole "
  "graph is reported. If there is one, each reported edge's explanation is "
  "a set of left vertices and a set of right vertices of equal size, the "
  "right set containing the edge's right end, the left set not containing its "
  "left end, such that in every perfect matching they are matched to each "
  "other.",
  INP, "every finite bipartite graph, balanced or not, with and without "
  "perfect matchings",
  "There is no test of this function; sudoku solving uses it on 9-by-9 graphs "
  "without looking at the result.",
  ["bipartite_matching.py", "strong_connectivity.py"],
  [("strong components of the matching-oriented graph",
    "bipartite_matching.py:114")],
  "Oracle: an edge is usable iff deleting its ends leaves a perfectly "
  "matchable graph, by independent matching. Exhaustive up to 3+3.")

P("P09", "General graph matching is maximum",
  "For every undirected graph the returned matching is symmetric, uses only "
  "edges of the graph, and has the largest possible number of edges. Starting "
  "from any valid partial matching gives a maximum matching too and leaves "
  "that partial matching unchanged. The greedy heuristic returns a valid "
  "matching to which no further edge can be added and which keeps the given "
  "starting matches.",
  INP, "every finite simple undirected graph, and every matching of it as a "
  "starting point, in every vertex and neighbour order",
  "There is no test of this module; odd cycles nested inside one another only "
  "arise on particular graphs and orders.",
  ["cardinality_matching.py", "union_find.py"],
  [("blossom contraction with union-find", "cardinality_matching.py:69"),
   ("greedy degree-one and degree-two reductions",
    "cardinality_matching.py:211")],
  "Size compared with an exact subset DP (n<=12) and with networkx above. All "
  "graphs on up to 5 vertices, random ones, and chained odd cycles.")

P("P10", "Lexicographic BFS order and chordality are exact",
  "Lexicographic breadth-first search lists every vertex exactly once, in an "
  "order where whenever a comes before b before c with a adjacent to c but "
  "not to b, some vertex before a is adjacent to b and not to c. A graph is "
  "reported chordal exactly when every cycle longer than three has a chord. "
  "For chordal graphs the elimination order removes each vertex when its "
  "remaining neighbours are pairwise adjacent, otherwise it is refused, and "
  "directed input is refused.",
  INP, "every finite simple undirected graph, in every vertex and neighbour "
  "order, connected or not",
  "Two fixed graphs are tested for chordality; the search order itself is "
  "never checked.",
  ["lex_bfs.py", "chordal.py", "partition_refinement.py", "sequence.py"],
  [("partition refinement keeps classes in lexicographic order",
    "lex_bfs.py:24"),
   ("left neighbours contained in parent's", "chordal.py:33")],
  "Four-point characterisation of lexicographic BFS; chordality by simplicial "
  "elimination. All graphs on up to 5 vertices plus random and near-chordal.")

P("P11", "Union-find names identify exactly the merged sets",
  "After any history of lookups and merges, two items have the same set name "
  "exactly when the merges performed so far connect them. The name of a set "
  "is one of its members and does not change while the set is unchanged. "
  "Iteration lists exactly the items ever mentioned, once each.",
  ["histories"], "every history of lookups and merges of one or more items, "
  "over any hashable items",
  "There is no direct test; clients use a few operations and never check the "
  "naming guarantee.",
  ["union_find.py"],
  [("path compression to the root", "union_find.py:49"),
   ("lighter roots attached to the heaviest", "union_find.py:59")],
  "Generated histories against a naive partition model, checked after every "
  "operation.")

P("P12", "The minimum spanning forest has minimum weight",
  "For every undirected weighted graph the returned edge list is a subset of "
  "the graph's edges without cycles, joins the ends of every edge of the "
  "graph, and has the smallest possible total weight. Directed graphs and "
  "asymmetric weights are refused.",
  INP, "every finite simple weighted undirected graph, connected or not, with "
  "equal, negative and fractional weights and any hashable vertices",
  "One fixed graph is tested, with distinct weights and one component.",
  ["minimum_spanning_tree.py", "union_find.py"],
  [("edges taken in weight order when they join two trees",
    "minimum_spanning_tree.py:30")],
  "Weight compared with an independent Prim per component, and the cycle "
  "property checked for every non-tree edge.")

P("P13", "Degeneracy, degeneracy order, cores and triangle listing are exact",
  "The degeneracy of a graph is the largest minimum degree over its "
  "subgraphs, the degeneracy sequence lists every vertex once with its number "
  "of later neighbours, always taking one with fewest remaining neighbours, "
  "and the derived orientation keeps every edge once with out-degree at most "
  "the degeneracy. The k-core is the largest vertex set in which everyone has "
  "at least k neighbours in the set (the deepest nonempty core if k is "
  "omitted). Triangle listing yields each triangle exactly once, and directed "
  "graphs are refused.",
  INP, "every finite nonempty simple undirected graph and every k",
  "Tests check two fixed graphs; k above the degeneracy, gaps in core numbers "
  "and ties in the queue are not reached.",
  ["graphdegeneracy.py", "bucketqueue.py"],
  [("vertices removed in bucket-queue order", "graphdegeneracy.py:17"),
   ("core restarted at each new depth record", "graphdegeneracy.py:46")],
  "Oracles: iterated pruning for cores, brute force triangles.")

P("P14", "Hamiltonian cycle enumeration is complete and without repeats",
  "For every undirected graph of maximum degree three the generator yields "
  "every Hamiltonian cycle of the graph exactly once, each as a graph in "
  "which every vertex has its two cycle neighbours, and nothing else. Empty, "
  "directed and higher-degree graphs are refused.",
  INP, "every finite undirected graph of maximum degree three, connected or "
  "not, in every vertex and neighbour order",
  "Tests count cycles of four named graphs, all highly symmetric; triangles, "
  "degree-two vertices and multi-level backtracking vary with the graph.",
  ["cubic_ham.py", "cardinality_matching.py", "biconnectivity.py"],
  [("backtracking with an undo stack", "cubic_ham.py:269"),
   ("forcing and contraction rules", "cubic_ham.py:109")],
  "Compared as sets of edge sets with a plain backtracking enumeration on "
  "graphs of up to 14 vertices.")

P("P15", "Halin, D3-reducible, wheel and 3-tree-dual recognition is exact",
  "A graph is recognised as Halin exactly when it is a plane tree with no "
  "degree-two vertex plus a cycle through its leaves in order, and the leaf "
  "set returned is then the vertex set of such a cycle; as a wheel exactly "
  "when it is a hub joined to a cycle; and as the dual of a 3-tree exactly "
  "when collapsing triangles reduces it to four mutually adjacent vertices. "
  "D3-reducibility is reported exactly when triangle collapses and path "
  "shortenings reduce the graph to that, and then a Hamiltonian cycle of the "
  "graph is returned. Graphs outside the class are refused by the "
  "constructions, and directed input is refused.",
  INP, "every finite simple undirected graph, in every vertex and neighbour "
  "order",
  "Tests use a few fixed graphs; the reductions are applied in set order, so "
  "a rule that is only wrong in some order or marking state is not reached.",
  ["halin.py", "graphs.py"],
  [("reduction rules with hooks", "halin.py:26"),
   ("outer-vertex marking", "halin.py:184"),
   ("reductions undone in reverse order", "halin.py:131")],
  "Halin oracle searches all induced leaf cycles and checks planarity by "
  "contiguity of leaves; D3 oracle searches all reduction sequences.")

P("P16", "Edge 3-colourings and xyz embeddings are exactly the possible ones",
  "For every biconnected cubic graph the generator of partitions into three "
  "matchings yields, up to the order of the three matchings, every such "
  "partition exactly once, each vertex listing its neighbours by matching. "
  "The axis-parallel embeddings generated are exactly those of these "
  "partitions for which every axis-parallel line through a point contains "
  "exactly two points, and adjacent vertices are those differing in exactly "
  "one coordinate. Directed, non-cubic and non-biconnected graphs are "
  "refused.",
  INP, "every finite biconnected cubic graph, in every vertex and neighbour "
  "order",
  "Tests count embeddings of two named graphs.",
  ["xyz_graph.py", "biconnectivity.py"],
  [("choices along an st-order", "xyz_graph.py:36"),
   ("coordinates are two-colour cycles", "xyz_graph.py:100")],
  "Partitions compared with brute-force edge colourings on cubic graphs of up "
  "to 12 vertices.")

P("P17", "Media satisfy their axioms and routing tables give shortest routes",
  "Explicit, bit-vector and labelled-graph forms of a medium agree on states, "
  "tokens, reversals and actions, converting between them and the transition "
  "graph preserves behaviour, and malformed labelled graphs are refused. The "
  "routing table names, for every ordered pair of different states, a token "
  "that moves the first one step closer to the second, using no token "
  "twice and no token with its reverse along the route. The hypercube "
  "embedding of a medium has Hamming distances equal to the numbers of steps "
  "between states.",
  INP, "every finite medium (equivalently, isometric subset of a hypercube), "
  "in every state order",
  "Tests use three fixed media; token bookkeeping in the routing table "
  "depends on the order of states and tokens.",
  ["medium.py"],
  [("active-token list maintained along a depth-first walk", "medium.py:281"),
   ("bit per token pair", "medium.py:309")],
  "Media are generated as random isometric vertex sets of hypercubes; "
  "distances from an independent BFS.")

P("P18", "Partial cube recognition and labelling are exact",
  "A graph is recognised as a partial cube exactly when its vertices can be "
  "given bit labels whose Hamming distances equal the graph distances; the "
  "labels returned then have this property. The edge classes returned put two "
  "directed edges together exactly when they are related by that structure, "
  "with opposite directions in different classes. Other graphs, including "
  "disconnected and directed ones, are refused with the documented error.",
  INP, "every finite nonempty simple graph, in every vertex and neighbour "
  "order, with any hashable vertices",
  "Tests use a few fixed graphs; near-misses that pass the contraction phase "
  "and must fail verification are rarely reached.",
  ["partial_cube.py", "medium.py", "union_find.py"],
  [("simultaneous class labelling by BFS bitvectors", "partial_cube.py:68"),
   ("verification by routing table", "partial_cube.py:135")],
  "Oracle: Djokovic-Winkler relation transitivity plus bipartiteness.")

P("P19", "2-satisfiability answers and forced values are exact",
  "An implication system is reported satisfiable exactly when some truth "
  "assignment makes every implication true. The forced values are exactly the "
  "variables that take the same value in all satisfying assignments, with "
  "that value, and nothing is returned for an unsatisfiable system. "
  "Completing a system adds exactly the contrapositive of each implication, "
  "and symbolic negation is an involution that preserves equality, "
  "inequality and hashability.",
  INP, "every finite implication system over any hashable variables, with "
  "negations on either side, and any values under negation",
  "Two fixed systems are tested, and negation on four values.",
  ["two_satisfiability.py", "_not.py", "strong_connectivity.py",
   "acyclic_reachability.py"],
  [("no component contains a literal and its negation",
    "two_satisfiability.py:62"),
   ("literal implying its negation", "two_satisfiability.py:87")],
  "Truth-table oracle up to 7 variables.")

P("P20", "Regular expressions and language operations mean what they say",
  "A string is accepted by a regular expression exactly when it matches it "
  "under the usual meaning of alternation, concatenation, repetition, "
  "grouping, the empty expression and escapes; symbols outside the alphabet "
  "and malformed expressions are refused. Complement, union, intersection and "
  "symmetric difference of languages accept exactly the corresponding "
  "strings, and reversing an automaton accepts exactly the reversed strings. "
  "Language equality, inclusion, strict inclusion and emptiness are reported "
  "exactly.",
  INP, "every regular expression, pairs of them over the same alphabet, and "
  "every string over that alphabet",
  "Three fixed expressions are tested on a few strings; comparisons other "
  "than equality, and equality of nearly equal languages, are not.",
  ["automata.py"],
  [("position automaton from a recursive-descent parser", "automata.py:375"),
   ("product construction", "automata.py:520"),
   ("equality by minimisation", "automata.py:202")],
  "Matching by an independent derivative-based matcher on all strings up to "
  "length 5-6; equivalence decided by derivatives, not by sampling.")

P("P21", "Automaton conversions preserve the language and minimisation is minimal",
  "Converting between nondeterministic and deterministic automata, "
  "renumbering states, reversing, minimising and converting to a regular "
  "expression all preserve (or reverse) the accepted language. The minimised "
  "automaton has exactly as many states as there are distinguishable states "
  "of the language. Printing an automaton writes each reachable state once "
  "with its transitions.",
  INP, "every finite automaton given by a transition table or an expression, "
  "deterministic or not",
  "Conversion to expressions is tested on three languages; minimisation only "
  "through equality; reversal, renumbering and printing are not tested.",
  ["automata.py", "partition_refinement.py", "sequence.py"],
  [("subset construction", "automata.py:331"),
   ("partition refinement by reversed transitions", "automata.py:578"),
   ("state elimination", "automata.py:271")],
  "Random transition tables up to 6 states; language compared by an "
  "independent subset simulation and Myhill-Nerode count.")

P("P22", "Graph files in every supported format are read back exactly",
  "Reading a graph written in any of the supported text formats (graph6, "
  "sparse6, LEDA, GraphML, node edge list, MALF, edge list), from a string, "
  "list of lines or open file as the format allows, gives exactly its "
  "vertices and edges, each edge listed at both ends with the same "
  "identifier and different edges with different identifiers. Format is "
  "detected automatically, with and without optional headers, comments and "
  "blank lines. Self-loops, repeated or unknown vertices, directed edges and "
  "other violations of a format are refused with the format error.",
  INP, "every finite simple graph, in every supported format and container, "
  "and every single corruption of the kinds listed",
  "There is no test of this module.",
  ["read_undirected_graph.py"],
  [("format dispatch", "read_undirected_graph.py:410"),
   ("bit-stream decoding of graph6 and sparse6",
    "read_undirected_graph.py:271")],
  "Round trip from independent writers (graph6/sparse6 writers also "
  "cross-checked against networkx).")

P("P23", "Range-minimum and least-common-ancestor queries are exact",
  "For every sequence and every slice with ordinary Python bounds, a range "
  "minimum query equals the minimum of that slice, in all variants of the "
  "structure (for an empty slice the general one gives nothing). For every tree and every group of "
  "nodes, the least common ancestor query returns the deepest node that is "
  "an ancestor of all of them, online and offline. Inputs that are not trees, "
  "and queries that are not plain slices, are refused.",
  INP, "every sequence, every slice, every rooted tree given by parents with "
  "any hashable nodes, and every set of nodes",
  "Tests use short fixed lists and one tree; block boundaries in the linear-"
  "space structure only matter for longer inputs.",
  ["lca.py", "union_find.py"],
  [("blocks, prefix and suffix minima, sparse table", "lca.py:86"),
   ("Euler tour and Cartesian tree", "lca.py:223"),
   ("offline union-find traversal", "lca.py:268")],
  "Direct minima and ancestor walks; sizes across several block lengths.")

P("P24", "Integer heaps behave as sets of integers with a minimum",
  "After any history of insertions and removals, each integer heap is "
  "nonempty exactly when the set of values present is nonempty, and then its "
  "minimum is the smallest value present. Inserting a value already present "
  "or removing an absent one changes nothing, values outside a bounded heap's range are refused, and "
  "asking an empty heap for its minimum is refused.",
  ["histories"], "every history of insertions, removals of present and absent values, "
  "minimum and emptiness queries, for every heap kind and word size",
  "Tests insert random values and drain by minimum; removal of other values "
  "and reuse after removal are not exercised.",
  ["integer_heap.py"],
  [("minimum kept outside recursive halves", "integer_heap.py:131"),
   ("lowest set bit", "integer_heap.py:88")],
  "Generated histories against a Python set; orders 1-6 of the recursive "
  "heap, values clustered so that halves are shared.")

P("P25", "The bucket queue is a priority queue with replaceable priorities",
  "After any history of insertions, priority changes and deletions, "
  "membership, length and priority lookup agree with the items present, and "
  "draining the queue yields each present item once, in nondecreasing "
  "priority, each with its current priority. The queue may be changed while "
  "it is being drained, and each item yielded is then one of minimum priority "
  "among those present. Non-integer priorities are refused.",
  ["histories"], "every history of insertions, changes, deletions and partial "
  "drains, with any integer priorities and interleaved changes",
  "There is no direct test; clients only decrease priorities by one.",
  ["bucketqueue.py"],
  [("lower bound on the minimum priority", "bucketqueue.py:41")],
  "Generated histories against a dictionary model.")

P("P26", "Linked sequences keep their order under insertions and removals",
  "After any history of appends, insertions before or after an item, and "
  "removals, iteration, length, indexing, printing, predecessor and successor "
  "agree with the list obtained by the same operations, predecessor and "
  "successor being cyclic. Inserting an item already present, and indexing "
  "past the end, are refused and change nothing. With a key function the "
  "same holds for items identified by their keys.",
  ["histories"], "every history over sequences with and without key "
  "functions, empty sequences included",
  "There is no direct test of this module.",
  ["sequence.py"],
  [("circular doubly linked list in dictionaries", "sequence.py:76")],
  "Generated histories against a Python list, all observers compared after "
  "every operation.")

P("P27", "Order queries on ordered sequences agree with sequence positions",
  "After any history of appends, insertions before or after an item, and "
  "removals, comparing any two items of an ordered sequence reports earlier, "
  "later or same exactly as their positions do. This holds for both "
  "relabelling schemes, with and without key functions, however many "
  "insertions fall in the same place.",
  ["histories"], "every history, in particular long runs of insertions at one "
  "place that exhaust the gap between labels",
  "There is no test of this module.",
  ["ordered_sequence.py", "sequence.py"],
  [("integer tags with relabelling on collision", "ordered_sequence.py:52")],
  "Generated histories against a list model; insertion bursts at one point "
  "force relabelling.")

P("P28", "Sorted sets iterate in order after any history of changes",
  "After any history of additions, removals, reorderings and iterations, "
  "iterating a sorted set yields exactly its current members once each in "
  "sorted order under the current comparison, and its length is their number. "
  "An item whose ordering changed appears at its new place once it has been "
  "flagged for update.",
  ["histories"], "every history of additions, removals, flagged changes and "
  "complete or repeated iterations, with default and custom comparisons",
  "Tests run one short fixed history.",
  ["sorted_set.py"],
  [("change lists merged into the previous order", "sorted_set.py:62")],
  "Generated histories against sorted() of a model set.")

P("P29", "Partition refinement splits exactly as requested",
  "After any history of refinements, additions and removals, the sets of the "
  "partition are disjoint, cover exactly the present elements, and lookup of "
  "an element gives the set that contains it. Refining by a set splits "
  "exactly those parts that meet it properly, reports exactly those splits "
  "with the intersection as a new set and the rest as the old set, and "
  "ignores elements not present. Freezing keeps the partition and makes its "
  "sets immutable, and invalid additions are refused.",
  ["histories"], "every history of refinements, additions, removals and a "
  "final freeze over any hashable elements",
  "There is no direct test of this module.",
  ["partition_refinement.py"],
  [("hit sets collected per part", "partition_refinement.py:59")],
  "Generated histories against a list-of-sets model, including set identity.")

P("P30", "Concave matrix searching finds every column minimum",
  "For every matrix with the documented monotonicity, the offline search "
  "returns for each column its minimum value and the earliest row attaining "
  "it. The online search returns for each column the minimum over earlier "
  "rows and a row attaining it, whatever order of value, index and iteration "
  "requests is made, and evaluates an entry only after the value of its row "
  "is known.",
  INP, "every totally monotone matrix, with ties, of every shape, and every "
  "order of online requests",
  "There is no test of this module; it was only used by text wrapping, which "
  "could not be imported.",
  ["smawk.py"],
  [("row reduction and recursion on odd columns", "smawk.py:46"),
   ("tentative column window", "smawk.py:152")],
  "Matrices built from nonnegative densities with many ties and monotone "
  "column transforms; brute-force column minima.")

P("P31", "Text wrapping preserves the words and minimises its penalty",
  "Joining the wrapped lines gives back the words of the text in order, with "
  "lines broken only between words or after hyphens, single spaces inside "
  "lines except two after a sentence end unless French spacing is chosen, and "
  "no line empty. With any nonnegative penalties, no other division into "
  "lines has a smaller total penalty.",
  INP, "every text, target width and combination of spacing and last-line "
  "options",
  "There is no test of this module, and it could not be imported.",
  ["wrap.py", "smawk.py"],
  [("breaks by online concave minimisation", "wrap.py:67")],
  "Quadratic dynamic program over the documented penalty on texts of up to 40 "
  "words; word preservation for arbitrary text.")

P("P32", "Longest common and longest increasing subsequences are longest",
  "The longest common subsequence returned is a subsequence of both inputs "
  "and none is longer. The longest increasing subsequence returned is a "
  "strictly increasing subsequence of the input, none is longer, and among "
  "the longest it ends with the smallest possible value at its earliest "
  "possible occurrence.",
  INP, "every pair of finite sequences of comparable items; every finite "
  "sequence of ordered items, with repeats",
  "One or two fixed inputs are tested.",
  ["lcs.py", "longest_increasing_subsequence.py"],
  [("length table and backtracking", "lcs.py:14"),
   ("patience heads with linked tails", "longest_increasing_subsequence.py:25")],
  "Subset enumeration on short inputs, quadratic dynamic program on longer "
  "ones; exhaustive over small alphabets.")

P("P33", "Integer partition generators are complete, ordered and without repeats",
  "For every n each generator yields every partition of n of its kind (all, "
  "in reverse-lexicographic or lexicographic order; into powers of two in "
  "reverse-lexicographic order; into exactly L parts in colexicographic "
  "order) exactly once in its order, with parts nonincreasing, and nothing "
  "for impossible arguments. Conjugation counts, for each i, the parts that "
  "are at least i.",
  INP, "every integer n and L including zero and negative, and every "
  "partition",
  "Tests compare counts and a few lists for n up to about 20.",
  ["integer_partitions.py"],
  [("successor rules on one list", "integer_partitions.py:24")],
  "Complete comparison with a recursive generator for n up to 22 (quick) and "
  "random larger n by successor checks.")

P("P34", "Permutation-like generators are complete, minimal-change and unrepeated",
  "For every n the generators yield every permutation, double permutation "
  "(values in order of first occurrence), Stirling permutation or involution "
  "of n items exactly once. Successive "
  "outputs differ by the documented small change (one adjacent swap, or one "
  "swap two apart for the Stirling kind, or one local change of partners for "
  "involutions). The first output is the identity arrangement and, for "
  "involutions, the last swaps only the final two items.",
  INP, "every n (and every sequence, for permutations of given items)",
  "Tests check counts and distinctness up to n about 6.",
  ["permutations.py"],
  [("recursive sweep generators", "permutations.py:43")],
  "Complete enumeration for every n up to 7-9; prefixes beyond.")

P("P35", "Lyndon words, factorisations, rotations and de Bruijn sequences are exact",
  "The Lyndon word generators yield exactly the words that are strictly "
  "smaller than all their proper rotations, of the requested lengths and in "
  "the documented order, and the counting function gives their number. Every "
  "sequence is factored into the unique nonincreasing sequence of Lyndon "
  "words, and the smallest suffix, smallest rotation and Lyndon test follow "
  "from the definition. The de Bruijn sequence contains every word of length "
  "n exactly once cyclically.",
  INP, "every alphabet size and length, and every nonempty string, list or "
  "tuple of comparable items",
  "Tests compare a few small alphabets and fixed words.",
  ["lyndon.py", "eratosthenes.py"],
  [("Duval successor", "lyndon.py:8"), ("Duval factorisation", "lyndon.py:75")],
  "Exhaustive over all words of small length and alphabet, definitions "
  "applied literally.")

P("P36", "Primes, factorisations, Moebius values and practical numbers are exact",
  "The prime generator yields all primes in order, the factorisation "
  "generator yields every positive integer in order with its prime "
  "factorisation, and the Moebius function and sequence take their defined "
  "values. A practical number is generated exactly when every smaller "
  "positive integer is a sum of distinct divisors of it. Factorisations "
  "already yielded stay correct when the generator continues, and several "
  "generators may run interleaved.",
  ["inputs", "histories"], "every position in each sequence, and every "
  "interleaving of several generators",
  "Tests compare the first few terms and consume each factorisation at once.",
  ["eratosthenes.py"],
  [("incremental sieve", "eratosthenes.py:49"),
   ("prime powers moved along multiples", "eratosthenes.py:67")],
  "Independent trial-division sieve to 20000 (quick).")

P("P37", "Integer points are generated exactly once in order of distance",
  "The generator yields every point of the plane with integer coordinates "
  "exactly once, in nondecreasing order of distance from the origin.",
  INP, "every prefix of the sequence",
  "The test looks at a short prefix.",
  ["integerpoints.py", "bucketqueue.py", "sequence.py"],
  [("convex hull with a bucket queue of next points", "integerpoints.py:88")],
  "Prefixes of up to 60000 points (quick) against a sorted table; several "
  "generators interleaved.")

P("P38", "Nonrepetitive path analysis of labelled graphs is exact",
  "In a graph with sets of labels on its edges, the pairs reported reachable "
  "from a vertex and label are exactly the ends of walks that start with that "
  "label, never use the same label on consecutive edges and end with the "
  "reported label. The edges reported cyclic are exactly those on closed "
  "walks of this kind. The shortest walk returned between two such pairs is "
  "such a walk of minimum length, and is refused exactly when none exists.",
  INP, "every finite directed graph with any label sets, of one to many "
  "labels at a vertex",
  "There is no direct test of this module; vertices with four or more labels "
  "use a different construction from the small ones.",
  ["repetitivity.py", "strong_connectivity.py"],
  [("per-vertex gadget of linear size", "repetitivity.py:78")],
  "Oracle: plain search over (edge,label) states.")

P("P39", "Frequency estimates stay within the requested accuracy",
  "After any stream of items, the estimated frequency of every item, seen or "
  "not, never exceeds its true frequency and falls short of it by at most the "
  "requested accuracy. The number of items remembered never exceeds one over "
  "the accuracy, and every item more frequent than the accuracy is among "
  "them.",
  ["histories"], "every stream of items, every accuracy in (0,1], at every "
  "point of the stream",
  "There is no test of this module.",
  ["frequencyestimator.py"],
  [("counters decremented together when full", "frequencyestimator.py:16")],
  "Exact counting model after every item.")

P("P40", "Circle packings, inversions and normalisations are geometrically right",
  "For every triangulated disk without chords and positive boundary radii, the packing keeps "
  "the boundary radii and makes every pair of adjacent circles tangent, with "
  "the circles around each interior circle in the given cyclic order and "
  "closing up. Inversion maps circles to circles, preserving tangency, and "
  "normalisation scales so that the chosen circle (or the smallest) has the "
  "target radius. Inverting around a circle makes it surround the others, and "
  "nonpositive radii and overlapping key sets are refused.",
  INP, "every triangulated disk with interior vertices, every positive "
  "boundary radii, every inversion centre off the circles",
  "There is no test of this module.",
  ["circle_pack.py"],
  [("radius iteration and layout", "circle_pack.py:16"),
   ("inversion by diameters", "circle_pack.py:62")],
  "Numerical, with relative tolerances far above the algorithm's own; random "
  "triangulated disks by vertex insertion and edge flips.")

P("P41", "SVG output is well-formed and describes the requested shapes",
  "For every sequence of drawing calls closed properly, the output is "
  "well-formed XML whose elements nest as the groups did and carry the "
  "requested coordinates to four decimals, sizes, text and style, keyword "
  "styles overriding dictionary ones. Unbalanced groups are refused on "
  "closing.",
  ["inputs", "histories"], "every sequence of drawing calls with any finite "
  "coordinates, styles, prefix, indentation and standalone setting",
  "There is no test of this module.",
  ["svg.py"],
  [("element writer with nesting count", "svg.py:55")],
  "Output parsed by an XML parser and compared call by call.")

# ------------------------------------------------------------------ sudoku

P("P42", "Sudoku deduction never loses a solution",
  "Every deduction step of the solver, with any mix of optional rules, keeps "
  "every solution of the puzzle possible (every solution if uniqueness is not "
  "assumed; the unique solution if it is assumed and true), and reports a "
  "contradiction only when the puzzle has no solution. A step reports "
  "progress exactly when it changed the puzzle, and a grid reported complete "
  "is a solution. Written explanations never change what is deduced.",
  ["inputs", "configurations"], "every sudoku puzzle (with no, one or many "
  "solutions), every deduction rule and combination of solver options",
  "There is no test of this module, and it could not be imported.",
  ["sudoku.py", "bipartite_matching.py", "repetitivity.py",
   "two_satisfiability.py", "wrap.py"],
  [("candidate bitmaps and fifteen elimination rules", "sudoku.py:357")],
  "Puzzles derived from random solved grids by removing clues; solutions from "
  "an independent backtracking solver; each rule also applied on its own.")

P("P43", "Sudoku search finds every solution exactly once",
  "The exhaustive search yields every completion of the puzzle exactly once "
  "and nothing else, with fast rules or all rules; positions already excluded "
  "for a digit in the grid it is given stay excluded. A puzzle is reported "
  "uniquely solvable exactly when it has exactly one completion.",
  ["inputs", "configurations"], "every sudoku puzzle with a moderate number "
  "of solutions, including contradictory ones",
  "There is no test of this module, and it could not be imported.",
  ["sudoku.py"],
  [("branching on a cell with few choices", "sudoku.py:1570")],
  "Independent solver enumerates solutions up to a cap.")

P("P44", "Generated, permuted, read and printed sudoku puzzles are right",
  "Generated puzzles have exactly one solution, every given is needed (every "
  "symmetric pair, for symmetric puzzles) and symmetric ones have symmetric "
  "givens. A permuted puzzle is the original with digits renamed and rows and "
  "columns rearranged consistently, so the number of solutions is unchanged, "
  "and symmetry is preserved when requested. Each output format shows exactly "
  "the puzzle's contents and reading accepts the text formats back, from the "
  "interface and from the command line, whose solutions and option handling "
  "agree with the library.",
  ["inputs", "configurations"], "every puzzle, random seed, output format and "
  "command-line option combination",
  "There is no test of this module, and it could not be imported.",
  ["sudoku.py", "svg.py"],
  [("greedy removal of redundant givens", "sudoku.py:1765"),
   ("block-respecting permutations", "sudoku.py:1414")],
  "Independent solver for uniqueness and minimality; outputs re-parsed.")

# ------------------------------------------------------------ cross-cutting

P("P45", "Graph utilities and named graphs are what they claim",
  "The undirectedness test, degree bounds, copying, induced subgraph, union, "
  "independence test and item picking agree with their definitions for every "
  "graph and adjacency representation. Each named example graph and family "
  "member is a simple undirected cubic graph with its known order, girth, "
  "diameter and bipartiteness, and notation-built graphs contain the "
  "described cycle and chords.",
  INP, "every finite graph and vertex collection; every parameter of the "
  "graph families",
  "Named graphs are only used as inputs in a few tests; utilities are not "
  "tested directly.",
  ["graphs.py", "graph_examples.py", "util.py"],
  [("definitions", "graphs.py:14"), ("constructions", "graph_examples.py:9")],
  "Definitions applied literally; known invariants of the named graphs.")

P("P46", "Library calls do not modify the data they are given",
  "No function or constructor of the library that reads a graph, tree, "
  "matching, sequence or system of implications modifies it, also when it "
  "fails with an error. Copies and subgraphs returned can be modified "
  "without affecting the input.",
  INP, "every public algorithm and every input it accepts or refuses",
  "Tests do not look at their inputs again after the call.",
  ["graphs.py", "halin.py", "cubic_ham.py", "cardinality_matching.py",
   "bipartite_matching.py", "partial_order.py", "two_satisfiability.py",
   "lca.py", "medium.py", "partial_cube.py"],
  [("working copies", "graphs.py:35"), ("working copies", "halin.py:46"),
   ("working copies", "cubic_ham.py:34")],
  "Deep snapshots (values, order and types) before and after each call, over "
  "a table of public functions with generated inputs.")

P("P47", "Deep and long inputs do not exhaust the call stack",
  "The graph searches and everything built on them, range-minimum and "
  "ancestor structures, matchings, spanning trees, 2-satisfiability, "
  "Halin graphs, circle packings, sequences and sets give correct answers on paths, cycles, deep "
  "trees and long sequences of thousands of elements under the default "
  "recursion limit.",
  INP, "paths, cycles, deep trees, combs and monotone sequences of thousands "
  "of elements, in several orders",
  "The largest test input has a few dozen elements.",
  ["dfs.py", "lca.py", "bipartite_matching.py", "strong_connectivity.py",
   "biconnectivity.py", "union_find.py", "halin.py", "medium.py"],
  [("iterative depth-first search", "dfs.py:19")],
  "Recursion limit set to the interpreter default around each call; answers "
  "checked against closed forms.")

P("P48", "Calls, iterations and structures in use at once do not interfere",
  "Any number of iterations and data structures of the library can be in use "
  "at the same time, advanced in any order or abandoned, and each gives what "
  "it would have given alone. Calling a function again gives the same result "
  "whatever was called in between, and calling it after its argument was "
  "modified gives the result for the modified argument.",
  ["schedules", "histories"],
  "every set of iterations and structures, of the same and of different "
  "kinds, every order of their steps, and every sequence of repeated calls",
  "The tests use one structure or iteration at a time and call each function "
  "on an argument once.",
  ["sequence.py", "union_find.py", "bucketqueue.py", "integer_heap.py",
   "integer_partitions.py", "permutations.py", "eratosthenes.py",
   "cubic_ham.py", "halin.py", "partial_order.py", "lyndon.py", "svg.py"],
  [("structure state", "sequence.py:21"),
   ("incremental sieve", "eratosthenes.py:33"),
   ("search state in closures", "cubic_ham.py:19")],
  "The same scripts run alone and then a few steps at a time in random "
  "order; calls repeated among other calls and on arguments modified in "
  "place; only what is determined about a result is compared.")


P("P49", "Sudoku rules draw every conclusion their descriptions promise",
  "A solver step reports no progress only when none of the rules it was "
  "asked to try has, by its description, a conclusion left to draw in the "
  "position (repeat need not use cycles that leave and reenter a cell by the "
  "same neighbour). A step that does make progress "
  "credits the first rule, in the order in which the rules are listed, that "
  "has one, and except for subproblem, repeat, conflict and twosat draws all of "
  "that rule's conclusions. A cell without possible digit, or a digit without possible cell "
  "in a row, column or square, is reported as a contradiction before any rule "
  "after locate and eliminate is tried.",
  ["inputs", "histories"],
  "every position reached by stepping a puzzle with one or several "
  "solutions, also after removing candidates no solution uses, and every "
  "position with or without a contradiction set up by excluding digits, in "
  "quick and full mode and with or without the assumption of uniqueness",
  "The tests solve a puzzle or two and would not notice a rule that finds "
  "less than it should, since another rule takes over.",
  ["sudoku.py", "repetitivity.py", "cardinality_matching.py"],
  [("rules", "sudoku.py:357"), ("rule order", "sudoku.py:1370"),
   ("cycles and paths", "repetitivity.py:30")],
  "Before every step an independent reading of each rule decides from the "
  "candidates left whether it has a conclusion; the rule credited by the "
  "step must be the first that has.")
