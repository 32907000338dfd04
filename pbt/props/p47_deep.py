import functools
import random
import sys

from hypothesis import strategies as st

from pads import acyclic_reachability, bfs, biconnectivity, bipartite, \
    bipartite_matching, cardinality_matching, chordal, circle_pack, dfs, \
    graphdegeneracy, halin, lca, lcs, lex_bfs, lyndon, medium, \
    minimum_spanning_tree, ordered_sequence, partial_cube, partial_order, \
    partition_refinement, repetitivity, sequence, smawk, sorted_set, \
    strong_connectivity, two_satisfiability, union_find
from pads._not import Not
from pads.longest_increasing_subsequence import longest_increasing_subsequence

from pbt import gens
from pbt.core import unit


def frames():
    f, n = sys._getframe(), 0
    while f is not None:
        f, n = f.f_back, n + 1
    return n


def default_limit(check):
    """Run a check with as much call stack left as a fresh interpreter."""
    @functools.wraps(check)
    def run(case, t):
        was = sys.getrecursionlimit()
        sys.setrecursionlimit(frames() + 1000)
        try:
            return check(case, t)
        finally:
            sys.setrecursionlimit(was)
    return run


# ------------------------------------------------------------------- shapes

def numbering(n, order, seed):
    names = list(range(n))
    if order == "backward":
        names.reverse()
    elif order == "shuffled":
        random.Random(seed).shuffle(names)
    return names


def graph(names, pairs, kind=list, directed=False):
    rows = {v: [] for v in sorted(names)}
    for v, w in pairs:
        rows[names[v]].append(names[w])
        if not directed:
            rows[names[w]].append(names[v])
    return {v: kind(rows[v]) for v in rows}


def edges(shape, n):
    """(v, w) with v < w except that a cycle is closed by (n-1, 0)."""
    if shape == "cycle":
        return [(i, i + 1) for i in range(n - 1)] + [(n - 1, 0)]
    if shape == "comb":             # a long path with a tooth at every vertex
        half = n // 2
        return [(i, i + 1) for i in range(half - 1)] + \
            [(i, half + i) for i in range(half) if half + i < n] + \
            [(n - 2, n - 1)] * (n % 2)
    if shape == "squared":          # a path and its second neighbours
        return [(i, i + 1) for i in range(n - 1)] + \
            [(i, i + 2) for i in range(n - 2)]
    if shape == "star":
        return [(0, i) for i in range(1, n)]
    return [(i, i + 1) for i in range(n - 1)]


@st.composite
def shapes(draw, lo=1500, hi=4000, kinds=("path", "cycle", "comb", "squared",
                                          "star")):
    return draw(st.sampled_from(kinds)), draw(gens.ints(lo, hi)), \
        draw(st.sampled_from(["forward", "backward", "shuffled"])), \
        draw(gens.SEEDS)


@unit("P47", "searches", cases=shapes(), quick=80, shards=8)
@default_limit
def searches(case, t):
    """At least 1500 vertices in one path or cycle."""
    shape, n, order, seed = case
    names = numbering(n, order, seed)
    pairs = edges(shape, n)
    G = graph(names, pairs)
    t.nontrivial(shape != "star")
    for start in (names[0], names[n // 2]):
        t.equal(sorted(dfs.preorder(G, start)), list(range(n)), "preorder")
        post = list(dfs.postorder(G, start))
        t.equal(sorted(post), list(range(n)), "postorder")
        t.equal(post[-1], start, "last of the postorder")
    t.check(dfs.reachable(G, names[0], names[-1]), "reachable")
    if shape == "path":
        t.equal(list(dfs.preorder(G, names[0])), names, "preorder of a path")
        levels = list(bfs.breadth_first_levels(G, names[0]))
        t.equal([sorted(x) for x in levels if x],
                [[v] for v in names[:len([x for x in levels if x])]],
                "levels of a path")
    D = graph(names, pairs, directed=True)
    t.equal(partial_order.isAcyclic(D), shape != "cycle", "acyclic")
    comps = [sorted(C) for C in
             strong_connectivity.StronglyConnectedComponents(D)]
    if shape == "cycle":
        t.equal(comps, [list(range(n))], "strong components of a cycle")
    else:
        t.equal(sorted(comps), [[v] for v in range(n)],
                "strong components of a dag")
        C = strong_connectivity.Condensation(D)
        t.equal((len(C), sum(len(C[v]) for v in C)), (n, len(set(pairs))),
                "condensation of a dag")
        L = partial_order.TopologicalOrder(D)
        at = {v: i for i, v in enumerate(L)}
        t.check(all(at[names[v]] < at[names[w]] for v, w in pairs),
                "topological order")
        if n < 2600:
            R = acyclic_reachability.Reachability(D)
            t.check(R.reachable(names[0], names[n - 1 - n % 2]) and
                    not R.reachable(names[1], names[0]), "reachability")


@unit("P47", "graphs", cases=shapes(), quick=80, shards=8)
@default_limit
def graph_checks(case, t):
    """At least 1500 vertices in one path or cycle."""
    shape, n, order, seed = case
    names = numbering(n, order, seed)
    pairs = edges(shape, n)
    G = graph(names, pairs, set)
    t.nontrivial(shape != "star")
    twice = shape in ("cycle", "squared")
    t.equal(bool(biconnectivity.is_biconnected(G)), twice, "biconnected")
    blocks = [C for C in biconnectivity.BiconnectedComponents(G)]
    t.equal(len([C for C in blocks if len(C) > 1]),
            1 if twice else len(set(pairs)), "biconnected components")
    if twice:
        D = biconnectivity.st_orientation(G)
        t.equal(sum(len(D[v]) for v in D), len(pairs), "oriented edges")
        t.check(partial_order.isAcyclic(D), "orientation is acyclic")
        into = {w for v in D for w in D[v]}
        t.equal((len([v for v in D if v not in into]),
                 len([v for v in D if not D[v]])), (1, 1),
                "sources and sinks")
    even = shape != "squared" and (shape != "cycle" or n % 2 == 0)
    t.equal(bool(bipartite.is_bipartite(G)), even, "bipartite")
    t.equal(len(bipartite.odd_core(G)), 0 if even else n, "odd core")
    if even:
        color = bipartite.two_color(G)
        t.check(all(color[v] != color[w] for v in G for w in G[v]),
                "colours")
    t.equal(bool(chordal.is_chordal(G)), shape != "cycle", "chordal")
    t.equal(sorted(lex_bfs.lex_bfs(G)), list(range(n)), "lex_bfs")
    want = {"cycle": 2, "squared": 2}.get(shape, 1)
    t.equal(graphdegeneracy.degeneracy(G), want, "degeneracy")
    t.equal(len(graphdegeneracy.core(G, want)), n, "core")
    t.equal(len(list(graphdegeneracy.triangles(G))),
            n - 2 if shape == "squared" else 0, "triangles")
    W = {v: {w: abs(v - w) for w in G[v]} for v in G}
    t.equal(len(minimum_spanning_tree.MinimumSpanningTree(W)), n - 1,
            "edges of the spanning tree")


@unit("P47", "matching", cases=shapes(1500, 3000, ("path", "cycle", "comb")),
      quick=40, shards=8)
@default_limit
def matchings(case, t):
    """At least 1500 vertices."""
    shape, n, order, seed = case
    names = numbering(n, order, seed)
    G = graph(names, edges(shape, n))
    M = cardinality_matching.matching(G)
    t.check(all(M[M[v]] == v and M[v] in G[v] for v in M), "a matching")
    t.equal(len(M) // 2, n // 2, "size of the matching")
    greedy = cardinality_matching.greedy_matching(G)
    t.check(all(greedy[greedy[v]] == v for v in greedy), "greedy matching")
    t.nontrivial()


@unit("P47", "augment", cases=st.tuples(
    gens.ints(1500, 4000), st.sampled_from(["forward", "backward", "apart"]),
    st.booleans()), quick=60, shards=8)
@default_limit
def augment(case, t):
    """An alternating path through every vertex."""
    n, kind, flip = case
    # every left vertex but the last takes the place meant for the next
    rows = [(i, [i + 1, i]) for i in range(n - 1)] + [(n - 1, [n - 1])]
    if kind == "backward":
        rows = [(i, [i, i - 1] if i else [0]) for i in range(n)]
        rows = [(i, list(reversed(vs))) for i, vs in rows]
    if kind == "apart":
        rows = [(i, [i + 1, i]) for i in range(n)] + [(n, [n])]
    if flip:
        rows = [(-i, vs) for i, vs in rows]
    G = dict(rows)
    M, A, B = bipartite_matching.matching(G)
    size = len({v for u in G for v in G[u]})
    t.equal(len(M), min(len(G), size), "size of the matching")
    t.check(len(set(M.values())) == len(M) and
            all(v in G[M[v]] for v in M), "a matching")
    t.equal(len(A) + len(B), len(G) + size - len(M), "independent set")
    imp = bipartite_matching.imperfections(G)
    if kind != "apart":
        t.equal(sum(len(imp[v]) for v in imp), n - 1, "imperfections")
    t.nontrivial()


@unit("P47", "orders", cases=st.tuples(gens.ints(1050, 1300),
                                       st.sampled_from(["chain", "fence"]),
                                       gens.SEEDS),
      quick=12, shards=2)
@default_limit
def orders(case, t):
    """A chain or fence of more than 1050 elements."""
    n, kind, seed = case
    names = numbering(n, "shuffled", seed)
    if kind == "chain":
        D = graph(names, edges("path", n), directed=True)
    else:
        D = graph(names, [(i, i + 1) if i % 2 else (i + 1, i)
                          for i in range(n - 1)], directed=True)
    chains = list(partial_order.MinimumChainDecomposition(D))
    want = 1 if kind == "chain" else (n + 1) // 2
    t.equal(len(chains), want, "number of chains")
    t.equal(sorted(v for C in chains for v in C), list(range(n)),
            "elements of the chains")
    t.equal(len(partial_order.MaximumAntichain(D)), want, "antichain")
    t.nontrivial()


@unit("P47", "trees", cases=st.tuples(
    gens.ints(1500, 4000), st.sampled_from(["path", "comb", "caterpillar"]),
    st.sampled_from(["forward", "backward", "shuffled"]), gens.SEEDS),
    quick=60, shards=8)
@default_limit
def trees(case, t):
    """Depth at least 750."""
    n, kind, order, seed = case
    r = random.Random(seed)
    names = numbering(n, order, seed)
    up = {}
    for i in range(1, n):
        up[i] = i - 1 if kind == "path" else i // 2 * 2 - 2 \
            if kind == "comb" and i > 1 else max(0, i - r.choice([1, 1, 1, 2]))
    depth = {0: 0}
    for i in range(1, n):
        depth[i] = depth[up[i]] + 1
    parent = {names[i]: names[up[i]] for i in up}
    pairs = [(r.randrange(n), r.randrange(n)) for _ in range(40)]

    def common(i, j):
        while i != j:
            if depth[i] < depth[j]:
                i, j = j, i
            i = up[i]
        return i
    A = lca.LCA(parent)
    B = lca.OfflineLCA(parent, [(names[i], names[j]) for i, j in pairs])
    for i, j in pairs:
        want = names[common(i, j)]
        t.equal(A(names[i], names[j]), want, "common ancestor")
        t.equal(B[names[i]][names[j]], want, "common ancestor offline")
    t.nontrivial(max(depth.values()) >= 750)


@unit("P47", "sequences", cases=st.tuples(
    gens.ints(1500, 4000), st.sampled_from(["up", "down", "saw", "flat"]),
    gens.SEEDS), quick=60, shards=8)
@default_limit
def sequences(case, t):
    """At least 1500 elements."""
    n, kind, seed = case
    r = random.Random(seed)
    X = {"up": list(range(n)), "down": list(range(n, 0, -1)),
         "saw": [i % 50 for i in range(n)], "flat": [3] * n}[kind]
    R, L = lca.RangeMin(X), lca.LogarithmicRangeMin(X)
    for _ in range(60):
        i = r.randrange(n)
        j = r.randrange(i + 1, n + 1)
        t.equal(R[i:j], min(X[i:j]), "range minimum")
        t.equal(L[i:j], min(X[i:j]), "range minimum")
    S = longest_increasing_subsequence(X)
    t.equal(len(S), {"up": n, "down": 1, "flat": 1}.get(kind, 50),
            "increasing subsequence")
    t.equal([x for w in lyndon.ChenFoxLyndon(X) for x in w], X,
            "Lyndon factors")
    U = union_find.UnionFind()
    for i in range(n - 1):
        if kind == "down":
            U.union(n - 2 - i, n - 1 - i)
        elif kind == "saw":
            U.union(i + 1, i)
        else:
            U.union(i, i + 1)
    t.equal(len({U[i] for i in range(n)}), 1, "united elements")
    for kindof in (sequence.Sequence, ordered_sequence.SimpleOrderedSequence,
                   ordered_sequence.LogarithmicOrderedSequence):
        Q = kindof(range(0, 1500))
        for i in range(1500, n):
            if kind == "down":
                Q.insertBefore(0, i)
            elif kind == "up":
                Q.append(i)
            else:
                Q.insertAfter(r.randrange(i), i)
        t.equal(sorted(Q), list(range(n)), "items of a long sequence")
    T = sorted_set.SortedSet(r.sample(range(n), n))
    t.equal(list(T), list(range(n)), "sorted set")
    P = partition_refinement.PartitionRefinement(range(n))
    for i in range(n):
        P.refine([i])
    t.equal(len(P), n, "refined partition")
    C = smawk.ConcaveMinima(list(range(n)), list(range(n)),
                            lambda i, j: (i - j) ** 2)
    t.check(all(C[j] == (0, j) for j in range(n)), "column minima")
    t.nontrivial()


@unit("P47", "implications", cases=st.tuples(
    gens.ints(1500, 3000), st.sampled_from(["chain", "loop", "clash", "forced"]),
    gens.SEEDS), quick=24, shards=4)
@default_limit
def implications(case, t):
    """A chain of at least 1500 implications."""
    n, kind, seed = case
    names = numbering(n, "shuffled", seed)
    G = {("x", names[i]): [("x", names[i + 1])] for i in range(n - 1)}
    last = ("x", names[n - 1])
    G[last] = []
    if kind in ("loop", "clash"):
        G[last] = [("x", names[0])]
    if kind in ("clash", "forced"):
        G[("x", names[n // 2])].append(Not(("x", names[n // 2])))
    if kind == "clash":
        G[Not(last)] = [last]
    t.equal(bool(two_satisfiability.Satisfiable(G)), kind != "clash",
            "satisfiable")
    F = two_satisfiability.Forced(G)
    if kind == "clash":
        t.equal(F, None, "forced values")
    elif kind == "forced":
        t.equal(F, {("x", names[i]): False for i in range(n // 2 + 1)},
                "forced values")
    else:
        t.equal(F, {}, "forced values")
    t.nontrivial()


@unit("P47", "wheels", cases=st.tuples(gens.ints(1100, 2500),
                                       st.sampled_from(["wheel", "spine"]),
                                       gens.SEEDS), quick=24, shards=4)
@default_limit
def wheels(case, t):
    """At least 1100 vertices."""
    n, kind, seed = case
    if kind == "wheel":
        pairs = [(i, (i + 1) % n) for i in range(n)] + \
            [(i, n) for i in range(n)]
        leaves, size = set(range(n)), n + 1
    else:       # leaves along a path of inner vertices, two at either end
        k = n // 2
        inner = list(range(k))
        pairs = [(i, i + 1) for i in range(k - 1)]
        side = [k + i for i in range(k)]
        pairs += list(zip(inner, side))
        extra = [2 * k, 2 * k + 1]
        pairs += [(0, extra[0]), (k - 1, extra[1])]
        ring = side + [extra[1], extra[0]]
        pairs += [(ring[i - 1], ring[i]) for i in range(len(ring))]
        leaves, size = set(ring), 2 * k + 2
    names = numbering(size, "shuffled", seed)
    G = graph(names, pairs)
    t.check(halin.is_halin(G), "a Halin graph")
    t.equal(bool(halin.is_wheel(G)), kind == "wheel", "a wheel")
    found = set(halin.halin_leaf_vertices(G))
    if kind == "wheel":
        t.equal(found, {names[v] for v in leaves}, "leaves")
    else:           # either side can be the one with the leaves
        t.equal(len(found), len(leaves), "number of leaves")
        t.check(all(len([w for w in G[v] if w in found]) == 2
                    for v in found), "leaves do not form a cycle")
        t.equal(sum(w not in found for v in G if v not in found
                    for w in G[v]), 2 * (size - len(found) - 1),
                "inner edges of a tree")
    H = halin.hamiltonian_cycle_D3(G)
    t.check(set(H) == set(G) and
            all(len(H[v]) == 2 and v in H[w] and w in G[v]
                for v in H for w in H[v]), "Hamiltonian cycle")
    seen, v, last = set(), names[0], None
    while v not in seen:
        seen.add(v)
        v, last = [w for w in H[v] if w != last][0], v
    t.equal(len(seen), size, "length of the cycle")
    t.nontrivial()


@unit("P47", "media", cases=st.tuples(gens.ints(1010, 1060), gens.SEEDS),
      quick=3, shards=1)
@default_limit
def media(case, t):
    """A path of more than 1000 states."""
    n, seed = case
    names = numbering(n, "shuffled", seed)
    G = graph(names, edges("path", n))
    M = partial_cube.MediumForPartialCube(G)
    E = medium.HypercubeEmbedding(M)
    t.check(all(bin(E[v] ^ E[w]).count("1") == 1 for v in G for w in G[v]),
            "neighbours one bit apart")
    t.equal(bin(E[names[0]] ^ E[names[-1]]).count("1"), n - 1,
            "distance of the ends")
    t.nontrivial()


@unit("P47", "paths", cases=st.tuples(gens.ints(1100, 3000), gens.SEEDS),
      quick=16, shards=4)
@default_limit
def nonrepetitive(case, t):
    """More than 1100 vertices."""
    n, seed = case
    names = numbering(n, "shuffled", seed)
    G = {names[i]: {names[(i + 1) % n]: ["ab"[i % 2]]} for i in range(n)}
    N = repetitivity.NonrepetitiveGraph(G)
    t.equal(len(list(N.cyclic())), n if n % 2 == 0 else 0, "cyclic edges")
    t.equal(len(set(N.reachable(names[0], "a"))), n if n % 2 == 0 else n,
            "reachable vertices")
    way = N.shortest(names[0], "a", names[n // 2], "ba"[n // 2 % 2])
    t.equal(len(way), n // 2 + 1, "shortest path")
    A = [i % 7 for i in range(1100)]
    B = A[::2]
    t.equal(len(lcs.longest_common_subsequence(A, B)), len(B),
            "common subsequence")
    t.nontrivial()


@unit("P47", "packing", cases=gens.ints(1050, 1150), quick=1, shards=1)
@default_limit
def packings(case, t):
    """More than 1050 internal circles in a row."""
    n = case
    internal, external = {}, {}
    for i in range(n):      # a strip: three rows of equal circles
        internal["m", i] = [("m", i + 1), ("t", i + 1), ("t", i),
                            ("m", i - 1), ("b", i), ("b", i + 1)]
    for c in internal:
        for x in internal[c]:
            if x not in internal:
                external[x] = 1.0
    P = circle_pack.circle_pack(internal, external)
    for c in internal:
        for x in internal[c]:
            t.check(abs(abs(P[c][0] - P[x][0]) - P[c][1] - P[x][1]) < 1e-6,
                    "circles not tangent", c, x)
    t.nontrivial()
