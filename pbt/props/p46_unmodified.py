import itertools
import random

from hypothesis import strategies as st

from pads import acyclic_reachability, bfs, biconnectivity, \
    bipartite, bipartite_matching, cardinality_matching, chordal, \
    circle_pack, cubic_ham, dfs, eratosthenes, graph_examples, \
    graphdegeneracy, graphs, halin, integer_partitions, lca, lcs, lex_bfs, \
    longest_increasing_subsequence, lyndon, medium, \
    minimum_spanning_tree, ordered_sequence, partial_cube, partial_order, \
    partition_refinement, permutations, read_undirected_graph, repetitivity, \
    sequence, smawk, sorted_set, strong_connectivity, two_satisfiability, \
    union_find, util, xyz_graph
from pads._not import Not

from pbt import gens
from pbt.core import Failure, unit

CAP = 60        # items taken from a generator


def snapshot(x):
    """Everything visible about a value: contents, order and types."""
    if isinstance(x, dict):
        return (type(x).__name__, id(x),
                [(snapshot(k), snapshot(x[k])) for k in list(x)])
    if isinstance(x, (list, tuple)):
        return type(x).__name__, id(x), [snapshot(y) for y in x]
    if isinstance(x, (set, frozenset)):
        return type(x).__name__, id(x), sorted(repr(y) for y in x)
    return repr(x)


def wreck(x, depth=0):
    """Empty every container that can be emptied."""
    if depth > 4:
        return
    if isinstance(x, dict):
        for y in list(x.values()):
            wreck(y, depth + 1)
        x.clear()
    elif isinstance(x, list):
        for y in list(x):
            wreck(y, depth + 1)
        del x[:]
    elif isinstance(x, tuple):
        for y in x:
            wreck(y, depth + 1)
    elif isinstance(x, set):
        x.clear()


# ------------------------------------------------------------------ inputs

def represent(r, n, edges, weights=False):
    """A graph on shuffled vertices in one of the usual representations."""
    names = list(range(n)) if r.random() < .5 else \
        ["v%d" % i for i in range(n)]
    order = list(range(n))
    r.shuffle(order)
    edges = list(edges)
    r.shuffle(edges)
    rows = {names[v]: [names[w] for a, w in edges if a == v] for v in order}
    kind = "weights" if weights else r.choice(
        ["set", "list", "tuple", "dict", "frozenset"])
    if kind == "weights":
        value = {frozenset(e): r.randrange(9) for e in edges}
        index = {x: i for i, x in enumerate(names)}
        return {v: {w: value[frozenset((index[v], index[w]))]
                    for w in rows[v]} for v in rows}
    make = {"set": set, "list": list, "tuple": tuple, "frozenset": frozenset,
            "dict": lambda x: dict.fromkeys(x, "e")}[kind]
    return {v: make(rows[v]) for v in rows}


def both(pairs):
    return {(v, w) for v, w in pairs} | {(w, v) for v, w in pairs}


def undirected(r, n=None):
    n = n or r.randrange(1, 9)
    p = r.choice([.2, .4, .7, 1])
    pairs = [(v, w) for v in range(n) for w in range(v) if r.random() < p]
    return n, both(pairs)


def connected(r):
    n = r.randrange(1, 9)
    pairs = {(v, r.randrange(v)) for v in range(1, n)}
    for _ in range(r.randrange(n + 1)):
        v, w = r.randrange(n), r.randrange(n)
        if v != w:
            pairs.add((v, w))
    return n, both(pairs)


def cycles(r):
    """A graph with a Hamiltonian cycle and chords."""
    n = r.randrange(3, 9)
    pairs = {(v, (v + 1) % n) for v in range(n)}
    for _ in range(r.randrange(4)):
        v, w = r.sample(range(n), 2)
        pairs.add((v, w))
    return n, both(pairs)


def cubic(r):
    if r.random() < .2:
        return undirected(r)
    G = r.choice([graph_examples.PetersenGraph,
                  graph_examples.GeneralizedPetersenGraph(4, 1),
                  graph_examples.GeneralizedPetersenGraph(3, 1),
                  graph_examples.GeneralizedPetersenGraph(6, 2),
                  {0: (1, 2, 3), 1: (0, 2, 3), 2: (0, 1, 3), 3: (0, 1, 2)}])
    index = {v: i for i, v in enumerate(G)}
    return len(G), {(index[v], index[w]) for v in G for w in G[v]}


def halin_graph(r):
    """A wheel, sometimes with a spoke split; or anything."""
    if r.random() < .2:
        return undirected(r)
    n = r.randrange(3, 7)
    pairs = {(i, (i + 1) % n) for i in range(n)} | {(n, i) for i in range(n)}
    size = n + 1
    if r.random() < .5 and n > 3:
        hub = size
        size += 1
        cut = r.randrange(2, n - 1) if n > 3 else 2
        for i in range(cut):
            pairs.discard((n, i))
            pairs.add((hub, i))
        pairs.add((hub, n))
    return size, both(pairs)


def cube(r):
    """A partial cube, or nearly."""
    kind = r.choice(["tree", "grid", "cube", "even", "any"])
    if kind == "tree":
        n = r.randrange(1, 8)
        return n, both({(v, r.randrange(v)) for v in range(1, n)})
    if kind == "grid":
        a, b = r.randrange(1, 4), r.randrange(1, 4)
        return a * b, both({(i * b + j, i * b + j + 1) for i in range(a)
                            for j in range(b - 1)} |
                           {(i * b + j, i * b + j + b) for i in range(a - 1)
                            for j in range(b)})
    if kind == "cube":
        k = r.randrange(1, 4)
        return 1 << k, {(v, v ^ 1 << i) for v in range(1 << k)
                        for i in range(k)}
    if kind == "even":
        n = 2 * r.randrange(2, 5)
        return n, both({(v, (v + 1) % n) for v in range(n)})
    return connected(r)


def dag(r):
    n = r.randrange(1, 9)
    p = r.choice([.1, .3, .6])
    return n, {(v, w) for v in range(n) for w in range(v) if r.random() < p}


def directed(r):
    n = r.randrange(1, 9)
    p = r.choice([.1, .2, .4])
    return n, {(v, w) for v in range(n) for w in range(n)
               if v != w and r.random() < p}


def paths(r):
    n = r.randrange(1, 9)
    return n, {(v, v + 1) for v in range(n - 1) if r.random() < .6}


SHAPES = {"undirected": undirected, "connected": connected, "cycles": cycles,
          "cubic": cubic, "halin": halin_graph, "cube": cube, "dag": dag,
          "directed": directed, "paths": paths}


def one_graph(shape, weights=False):
    def make(r):
        n, edges = SHAPES[shape](r)
        return [represent(r, n, edges, weights)]
    return make


def rooted(shape):
    def make(r):
        n, edges = SHAPES[shape](r)
        G = represent(r, n, edges)
        return [G, r.choice(list(G)), r.choice(list(G))]
    return make


def matched(r):
    n, edges = undirected(r)
    G = represent(r, n, edges)
    M = {}
    for v in G:
        for w in G[v]:
            if v not in M and w not in M and r.random() < .5:
                M[v], M[w] = w, v
    return [G, M]


def two_sided(r):
    a, b = r.randrange(1, 7), r.randrange(1, 7)
    p = r.choice([.2, .5, .8])
    make = r.choice([list, tuple, set, lambda x: dict.fromkeys(x, 1)])
    return [{("L", i): make([("R", j) for j in range(b) if r.random() < p])
             for i in range(a)}]


def implications(r):
    n = r.randrange(1, 6)

    def literal():
        x = "x%d" % r.randrange(n)
        return Not(x) if r.random() < .5 else x
    G = {}
    make = r.choice([list, set, tuple])
    rows = {}
    for _ in range(r.randrange(2 * n + 2)):
        rows.setdefault(literal(), []).append(literal())
    for v in rows:
        G[v] = make(rows[v])
    return [G]


def tree(r):
    n = r.randrange(2, 10)
    order = list(range(n))
    r.shuffle(order)
    parent = {order[i]: order[r.randrange(i)] for i in range(1, n)}
    if r.random() < .15:
        parent[order[0]] = order[-1]
    return [parent, [(r.randrange(n), r.randrange(n)) for _ in range(6)]]


def numbers(r):
    n = r.randrange(1, 12)
    X = [r.randrange(6) for _ in range(n)]
    return [X if r.random() < .7 else tuple(X)]


def two_sequences(r):
    return [[r.randrange(4) for _ in range(r.randrange(9))] for _ in "ab"]


def packing_data(r):
    n = r.randrange(3, 7)
    internal = {"c": ["o%d" % i for i in range(n)]}
    external = {"o%d" % i: r.choice([.5, 1, 2]) for i in range(n)}
    if r.random() < .1:
        external["o0"] = -1
    return [internal, external]


def packing(r):
    n = r.randrange(3, 6)
    internal = {"c": ["o%d" % i for i in range(n)]}
    external = {"o%d" % i: r.choice([.5, 1, 2]) for i in range(n)}
    return [circle_pack.circle_pack(internal, external), ["o0", "o1", "c"]]


def labelled(r):
    n = r.randrange(1, 6)
    make = r.choice([list, set, tuple])
    return [{v: {r.randrange(n): make(r.sample("abcd", r.randrange(1, 4)))
                 for _ in range(r.randrange(3))} for v in range(n)}]


def token_graph(r):
    n, edges = cube(r)
    G = represent(r, n, edges)
    try:
        M = partial_cube.MediumForPartialCube(G)
        return [medium.StateTransitionGraph(M)]
    except Exception:
        return [{v: {w: (v, w) for w in G[v]} for v in G}]


def vectors(r):
    k = r.randrange(1, 5)
    return [[i for i in range(1 << k) if r.random() < .8] or [0], k]


def lines(r):
    return [r.choice([
        ["a b c", "b a", "c a", ""], ["0 1", "1 2", "2 0"],
        ["2 1", "1 2 3", "2 1 1"], ["DQc"], [">>graph6<<DQc"],
        [":Fa@x^"], ["LEDA.GRAPH", "string", "int", "-2", "2", "|{a}|",
                     "|{b}|", "1", "1 2 0 |{5}|"], ["what", "is this?"]])]


def chosen(r):
    n, edges = undirected(r)
    G = represent(r, n, edges)
    V = [v for v in G if r.random() < .5]
    return [r.choice([list, set, tuple])(V), G]


def order_of(r):
    n, edges = dag(r)
    G = represent(r, n, edges)
    L = list(G)
    r.shuffle(L)
    return [G, L]


def points(r):
    return [[[r.randrange(2) for _ in range(3)] for _ in range(8)]]


def embedding(r):
    G = {v: [v ^ 1, v ^ 2, v ^ 4] for v in range(8)}
    return [G]


def factors(r):
    return [{p: r.randrange(1, 4) for p in r.sample([2, 3, 5, 7, 11], 3)}]


def rows_columns(r):
    return [list(range(r.randrange(1, 8))), list(range(r.randrange(8)))]


def partition(r):
    n = r.randrange(1, 12)
    p = []
    while sum(p) < n:
        p.append(r.randrange(1, n - sum(p) + 1))
    return [sorted(p, reverse=True)]


# ------------------------------------------------------------------- calls

def work_uf(items):
    U = union_find.UnionFind()
    items = list(items)
    U.union(*items)
    return [U[x] for x in items]


def work_partition(items):
    P = partition_refinement.PartitionRefinement(items)
    half = list(items)[::2]
    P.refine(half)
    P.freeze()
    return None


def given_sequence(kind):
    def call(items):
        S = kind(items)
        for x in list(S)[:3]:
            S.remove(x)
        return None
    return call


def unique_numbers(r):
    X = r.sample(range(30), r.randrange(1, 9))
    return [X if r.random() < .7 else set(X)]


def range_work(kind):
    def call(X):
        R = kind(X)
        return [R[i:j] for j in range(len(X) + 1) for i in range(j)]
    return call


def steps(r):
    X = [0]
    for _ in range(r.randrange(12)):
        X.append(X[-1] + r.choice([-1, 1]))
    return [X]


def med(f):
    def call(G):
        M = medium.LabeledGraphMedium(G)
        return f(M)
    return call


G_ = one_graph
CALLS = {
    # name: (inputs, call)
    "bfs levels": (rooted("directed"),
                   lambda G, v, w: bfs.breadth_first_levels(G, v)),
    "dfs search": (rooted("directed"), lambda G, v, w: dfs.search(G)),
    "dfs preorder": (rooted("directed"), lambda G, v, w: dfs.preorder(G, v)),
    "dfs postorder": (rooted("directed"), lambda G, v, w: dfs.postorder(G)),
    "dfs reachable": (rooted("directed"), dfs.reachable),
    "Searcher": (G_("directed"), dfs.Searcher),
    "BiconnectedComponents": (G_("undirected"), lambda G: list(
        biconnectivity.BiconnectedComponents(G))),
    "is_biconnected": (G_("undirected"), biconnectivity.is_biconnected),
    "st_orientation": (G_("cycles"), biconnectivity.st_orientation),
    "st_orientation any": (G_("undirected"), biconnectivity.st_orientation),
    "two_color": (G_("undirected"), bipartite.two_color),
    "bipartition": (G_("cube"), bipartite.bipartition),
    "is_bipartite": (G_("undirected"), bipartite.is_bipartite),
    "bipartite_orientation": (G_("cube"), bipartite.bipartite_orientation),
    "odd_core": (G_("undirected"), bipartite.odd_core),
    "bipartite matching": (two_sided, bipartite_matching.matching),
    "imperfections": (two_sided, bipartite_matching.imperfections),
    "matching": (G_("undirected"), cardinality_matching.matching),
    "matching from": (matched, cardinality_matching.matching),
    "greedy_matching": (G_("undirected"),
                        cardinality_matching.greedy_matching),
    "greedy from": (matched, cardinality_matching.greedy_matching),
    "elimination ordering": (G_("undirected"),
                             chordal.perfect_elimination_ordering),
    "is_chordal": (G_("undirected"), chordal.is_chordal),
    "lex_bfs": (G_("undirected"), lex_bfs.lex_bfs),
    "circle_pack": (packing_data, circle_pack.circle_pack),
    "InvertPacking": (packing, lambda P, S: circle_pack.InvertPacking(
        P, .3 + .1j)),
    "NormalizePacking": (packing, lambda P, S: circle_pack.NormalizePacking(
        P)),
    "NormalizePacking to": (packing, lambda P, S:
                            circle_pack.NormalizePacking(P, "o0", 3.0)),
    "InvertAround": (packing, lambda P, S: circle_pack.InvertAround(
        P, "o0", S)),
    "hamiltonian_cycles": (G_("cubic"), cubic_ham.hamiltonian_cycles),
    "hamiltonian any": (G_("undirected"), cubic_ham.hamiltonian_cycles),
    "hamiltonian weights": (G_("cubic", True), cubic_ham.hamiltonian_cycles),
    "degeneracySequence": (G_("undirected"),
                           graphdegeneracy.degeneracySequence),
    "degeneracy": (G_("undirected"), graphdegeneracy.degeneracy),
    "degeneracyOrientation": (G_("undirected"),
                              graphdegeneracy.degeneracyOrientation),
    "core": (G_("undirected"), graphdegeneracy.core),
    "core 2": (G_("undirected"), lambda G: graphdegeneracy.core(G, 2)),
    "triangles": (G_("undirected"), graphdegeneracy.triangles),
    "is_undirected": (G_("undirected"), graphs.is_undirected),
    "max_degree": (G_("undirected"), graphs.max_degree),
    "min_degree": (G_("undirected"), graphs.min_degree),
    "copy_graph": (G_("undirected"), graphs.copy_graph),
    "copy lists": (G_("undirected"), lambda G: graphs.copy_graph(G, list)),
    "induced_subgraph": (chosen, graphs.induced_subgraph),
    "induced dicts": (chosen, lambda V, G: graphs.induced_subgraph(
        V, G, util.map_to_constant([]))),
    "union": (G_("undirected"), lambda G: graphs.union(G, G)),
    "union one": (G_("undirected"), lambda G: graphs.union(G)),
    "is_independent_set": (chosen, graphs.is_independent_set),
    "is_K4": (G_("halin"), halin.is_K4),
    "is_D3_reducible": (G_("halin"), halin.is_D3_reducible),
    "is_halin": (G_("halin"), halin.is_halin),
    "halin_leaf_vertices": (G_("halin"), halin.halin_leaf_vertices),
    "hamiltonian_cycle_D3": (G_("halin"), halin.hamiltonian_cycle_D3),
    "is_dual_3_tree": (G_("halin"), halin.is_dual_3_tree),
    "is_wheel": (G_("halin"), halin.is_wheel),
    "conjugate": (partition, integer_partitions.conjugate),
    "RangeMin": (numbers, range_work(lca.RangeMin)),
    "LogarithmicRangeMin": (numbers, range_work(lca.LogarithmicRangeMin)),
    "RestrictedRangeMin": (steps, range_work(lca.RestrictedRangeMin)),
    "PrecomputedRangeMin": (numbers, range_work(lca.PrecomputedRangeMin)),
    "PrefixMinima": (numbers, lca.PrefixMinima),
    "LCA": (tree, lambda P, Q: [lca.LCA(P)(*q) for q in Q]),
    "OfflineLCA": (tree, lca.OfflineLCA),
    "lcs": (two_sequences, lcs.longest_common_subsequence),
    "lis": (numbers, longest_increasing_subsequence.
            longest_increasing_subsequence),
    "ChenFoxLyndonBreakpoints": (numbers, lyndon.ChenFoxLyndonBreakpoints),
    "ChenFoxLyndon": (numbers, lyndon.ChenFoxLyndon),
    "SmallestSuffix": (numbers, lyndon.SmallestSuffix),
    "SmallestRotation": (numbers, lyndon.SmallestRotation),
    "isLyndonWord": (numbers, lyndon.isLyndonWord),
    "BitvectorMedium": (vectors, lambda S, k: medium.StateTransitionGraph(
        medium.BitvectorMedium(S, k))),
    "LabeledGraphMedium": (token_graph, medium.LabeledGraphMedium),
    "ExplicitMedium": (token_graph, med(medium.ExplicitMedium)),
    "StateTransitionGraph": (token_graph, med(medium.StateTransitionGraph)),
    "RoutingTable": (token_graph, med(medium.RoutingTable)),
    "HypercubeEmbedding": (token_graph, med(medium.HypercubeEmbedding)),
    "MinimumSpanningTree": (G_("connected", True),
                            minimum_spanning_tree.MinimumSpanningTree),
    "MinimumSpanningTree bad": (G_("directed"),
                                minimum_spanning_tree.MinimumSpanningTree),
    "PartialCubeEdgeLabeling": (G_("cube"),
                                partial_cube.PartialCubeEdgeLabeling),
    "MediumForPartialCube": (G_("cube"), partial_cube.MediumForPartialCube),
    "PartialCubeLabeling": (G_("cube"), partial_cube.PartialCubeLabeling),
    "isPartialCube": (G_("cube"), partial_cube.isPartialCube),
    "isTopologicalOrder": (order_of, partial_order.isTopologicalOrder),
    "TopologicalOrder": (G_("dag"), partial_order.TopologicalOrder),
    "TopologicalOrder any": (G_("directed"), partial_order.TopologicalOrder),
    "isAcyclic": (G_("directed"), partial_order.isAcyclic),
    "TransitiveClosure": (G_("directed"), partial_order.TransitiveClosure),
    "TracePaths": (G_("paths"), partial_order.TracePaths),
    "MinimumPathDecomposition": (G_("dag"),
                                 partial_order.MinimumPathDecomposition),
    "MinimumChainDecomposition": (G_("dag"),
                                  partial_order.MinimumChainDecomposition),
    "MaximumAntichain": (G_("dag"), partial_order.MaximumAntichain),
    "MaximumAntichain any": (G_("directed"), partial_order.MaximumAntichain),
    "PartitionRefinement": (unique_numbers, work_partition),
    "SteinhausJohnsonTrotter": (unique_numbers,
                                permutations.SteinhausJohnsonTrotter),
    "readUndirectedGraph": (lines, read_undirected_graph.readUndirectedGraph),
    "NonrepetitiveGraph": (labelled, lambda G: list(
        repetitivity.NonrepetitiveGraph(G).cyclic())),
    "Sequence": (unique_numbers, given_sequence(sequence.Sequence)),
    "SimpleOrderedSequence": (unique_numbers, given_sequence(
        ordered_sequence.SimpleOrderedSequence)),
    "LogarithmicOrderedSequence": (unique_numbers, given_sequence(
        ordered_sequence.LogarithmicOrderedSequence)),
    "SortedSet": (unique_numbers, given_sequence(sorted_set.SortedSet)),
    "ConcaveMinima": (rows_columns, lambda R, C: smawk.ConcaveMinima(
        R, C, lambda i, j: (i - j) ** 2)),
    "StronglyConnectedComponents": (G_("directed"), lambda G: list(
        strong_connectivity.StronglyConnectedComponents(G))),
    "Condensation": (G_("directed"), strong_connectivity.Condensation),
    "Reachability": (G_("dag"), acyclic_reachability.Reachability),
    "Reachability any": (G_("directed"), acyclic_reachability.Reachability),
    "Symmetrize": (implications, two_satisfiability.Symmetrize),
    "Satisfiable": (implications, two_satisfiability.Satisfiable),
    "Forced": (implications, two_satisfiability.Forced),
    "UnionFind": (unique_numbers, work_uf),
    "arbitrary_item": (unique_numbers, util.arbitrary_item),
    "map_to_constant": (unique_numbers, util.map_to_constant(0)),
    "is_practical_factorization": (factors,
                                   eratosthenes.is_practical_factorization),
    "CubicMatchPartitions": (G_("cubic"), xyz_graph.CubicMatchPartitions),
    "xyzEmbeddings": (G_("cubic"), xyz_graph.xyzEmbeddings),
    "groupByCycles": (embedding, lambda G: xyz_graph.groupByCycles(G, 0, 2)),
    "isxyz": (points, xyz_graph.isxyz),
}

NAMES = sorted(CALLS)


@st.composite
def calls(draw):
    return draw(st.sampled_from(NAMES)), draw(gens.SEEDS), \
        draw(st.sampled_from(["finish", "stop", "wreck"]))


@unit("P46", "calls", cases=calls(), quick=10000, shards=8)
def unmodified(case, t):
    """The call did not fail, and its input has something in it."""
    name, seed, how = case
    inputs, call = CALLS[name]
    args = inputs(random.Random(seed))
    before = snapshot(args)
    failed = False
    results = []
    try:
        result = call(*args)
        if hasattr(result, "__next__"):
            for i, item in enumerate(itertools.islice(result, CAP)):
                t.equal(snapshot(args), before,
                        "input of %s while its results are used" % name)
                results.append(item)
                if how == "stop" and i >= seed % 3:
                    result.close() if hasattr(result, "close") else None
                    break
        else:
            results.append(result)
    except (Failure, MemoryError):
        raise
    except Exception:
        failed = True
        t.label("failed")
    t.equal(snapshot(args), before, "input of " + name)
    if how == "wreck" and not failed:
        wreck(results)
        t.equal(snapshot(args), before,
                "input of %s after modifying the results" % name)
    t.label(name)
    t.nontrivial(not failed and any(len(a) for a in args
                                    if hasattr(a, "__len__")))
