import itertools
import random

import networkx as nx
from hypothesis import strategies as st

from pads import graph_examples
from pads.graph_examples import CubeConnectedCycles, \
    GeneralizedCoxeterGraph, GeneralizedPetersenGraph, LCFNotation
from pads.graphs import copy_graph, induced_subgraph, is_independent_set, \
    is_undirected, max_degree, min_degree, union
from pads.util import arbitrary_item, map_to_constant

from pbt import gens
from pbt.core import unit

KINDS = {"list": list, "set": set, "tuple": tuple, "frozenset": frozenset,
         "dict": lambda x: dict.fromkeys(x, 7)}


def build(n, label, edges, kind):
    names = gens.labels(label, n)
    return names, {names[v]: KINDS[kind](names[w] for a, w in edges if a == v)
                   for v in range(n)}


@st.composite
def digraphs(draw, most=8):
    n = draw(gens.ints(0, most))
    r = random.Random(draw(gens.SEEDS))
    kind = r.choice(["sym", "almost", "any", "loop"])
    p = r.choice([.1, .3, .6, .95])
    edges = set()
    for v in range(n):
        for w in range(v):
            if r.random() < p:
                edges |= {(v, w), (w, v)}
    if kind == "almost" and edges:
        edges.discard(r.choice(sorted(edges)))
    elif kind == "any":
        edges = {e for e in edges if r.random() < .6}
    elif kind == "loop" and n:
        v = r.randrange(n)
        edges.add((v, v))
    edges = sorted(edges)
    r.shuffle(edges)
    return n, draw(st.sampled_from(gens.LABELS)), edges, \
        draw(st.sampled_from(sorted(KINDS)))


@unit("P45", "undirected", cases=digraphs(), quick=2400)
def undirected(case, t):
    """At least one edge, and directed or with a loop."""
    n, label, edges, kind = case
    _, G = build(*case)
    pairs = set(edges)
    want = all(v != w and (w, v) in pairs for v, w in pairs)
    t.equal(bool(is_undirected(G)), want, "undirected")
    if n:
        degree = [sum(a == v for a, _ in edges) for v in range(n)]
        t.equal(max_degree(G), max(degree), "largest degree")
        t.equal(min_degree(G), min(degree), "least degree")
    t.label(str(want))
    t.nontrivial(edges and not want)


def target(name):
    return map_to_constant(5) if name == "constant" else KINDS[name]


TARGETS = st.sampled_from(["default", "list", "set", "tuple", "frozenset",
                           "constant"])


def typed(t, H, name, want, message):
    """H maps vertices to collections of the chosen type, as wanted."""
    t.equal(set(H), set(want), message + ": vertices")
    t.equal(len(H), len(want), message + ": number of vertices")
    for v in want:
        kind = {"default": set, "constant": dict}.get(name) or KINDS[name]
        t.check(type(H[v]) is kind, message, type(H[v]), "instead of", kind)
        t.equal(sorted(map(repr, H[v])), sorted(map(repr, want[v])),
                message + ": neighbours")
        if name == "constant":
            t.check(all(x == 5 for x in H[v].values()), "the constant")


@unit("P45", "copies", cases=st.tuples(digraphs(), TARGETS, gens.SEEDS),
      quick=1200)
def copies(case, t):
    """Some but not all vertices chosen, and an edge among them."""
    spec, name, seed = case
    names, G = build(*spec)
    r = random.Random(seed)
    extra = () if name == "default" else (target(name),)
    whole = {v: list(G[v]) for v in G}
    H = copy_graph(G, *extra)
    typed(t, H, name, whole, "copy")
    for v in H:
        t.check(H[v] is not G[v] or name in ("tuple", "frozenset"),
                "the copy shares a neighbourhood")
    chosen = [v for v in names if r.random() < .6]
    V = r.choice([list, set, tuple, dict.fromkeys])(chosen)
    if r.random() < .3:
        V = list(V) + ["elsewhere", ("not", "there")]
    want = {v: [w for w in whole[v] if w in chosen] for v in names
            if v in chosen}
    H = induced_subgraph(V, G, *extra)
    typed(t, H, name, want, "induced subgraph")
    some = any(want.values())
    t.equal(bool(is_independent_set(V, G)), not some, "independent")
    t.label("independent" if not some else "dependent")
    t.nontrivial(some and len(chosen) < len(names))


@unit("P45", "larger", cases=st.tuples(digraphs(50), TARGETS, gens.SEEDS),
      quick=160)
def larger(case, t):
    """Graphs of up to 50 vertices; nontrivial as for undirected or copies."""
    undirected(case[0], t)
    copies(case, t)


@unit("P45", "union", cases=st.tuples(st.lists(digraphs(6), max_size=4),
                                      gens.ints(0, 4)), quick=800)
def unions(case, t):
    """At least two graphs share a vertex with different neighbours."""
    specs, shift = case
    graphs = []
    for k, (n, label, edges, kind) in enumerate(specs):
        names = list(range(k * shift, k * shift + n))
        graphs.append({names[v]: KINDS[kind](names[w] for a, w in edges
                                             if a == v) for v in range(n)})
    want = {}
    for G in graphs:
        for v in G:
            want.setdefault(v, set()).update(G[v])
    before = [{v: list(G[v]) for v in G} for G in graphs]
    U = union(*graphs)
    t.equal(set(U), set(want), "vertices of the union")
    for v in want:
        t.equal(set(U[v]), want[v], "neighbours in the union")
        U[v] = None
    t.equal([{v: list(G[v]) for v in G} for G in graphs], before,
            "graphs after their union")
    t.nontrivial(any(set(G[v]) != set(H[v])
                     for G, H in itertools.combinations(graphs, 2)
                     for v in G if v in H))


@unit("P45", "pick", cases=st.tuples(gens.ints(0, 6), st.sampled_from(
    gens.LABELS), st.sampled_from(["list", "set", "dict", "iter", "str",
                                   "tuple", "generator"])), quick=400)
def pick(case, t):
    """A nonempty collection."""
    n, label, kind = case
    items = gens.labels(label, n)
    S = {"list": list, "set": set, "dict": dict.fromkeys, "iter": iter,
         "str": lambda x: "abcdef"[:len(x)], "tuple": tuple,
         "generator": lambda x: (y for y in x)}[kind](items)
    if kind == "str":
        items = list(S)
    if not n:
        t.refuses(IndexError, arbitrary_item, S)
    else:
        t.check(arbitrary_item(S) in items, "not one of the items")
    D = map_to_constant(kind)(items)
    t.equal(D, {x: kind for x in items}, "items mapped to a constant")
    t.nontrivial(n)


# ------------------------------------------------------------ named graphs

def cubic(t, G, n):
    t.equal(len(G), n, "number of vertices")
    for v in G:
        t.equal(len(list(G[v])), 3, "degree")
        t.equal(len(set(G[v])), 3, "different neighbours")
        for w in G[v]:
            t.check(w != v and v in G[w], "edge", v, w)
    H = nx.Graph()
    H.add_nodes_from(G)
    H.add_edges_from((v, w) for v in G for w in G[v])
    return H


def girth(H):
    best = 10 ** 9
    for s in H:
        dist, up = {s: 0}, {s: None}
        queue = [s]
        for v in queue:
            for w in H[v]:
                if w not in dist:
                    dist[w], up[w] = dist[v] + 1, v
                    queue.append(w)
                elif up[v] != w:
                    best = min(best, dist[v] + dist[w] + 1)
    return best


def incidence(points, lines):
    H = nx.Graph()
    for line in lines:
        for p in line:
            H.add_edge(("p", p), ("l", line))
    assert H.number_of_nodes() == len(points) + len(lines)
    return H


def kneser(sets):
    H = nx.Graph()
    for a, b in itertools.combinations(sets, 2):
        if not set(a) & set(b):
            H.add_edge(a, b)
    return H


def petersen():
    return kneser(list(itertools.combinations(range(5), 2)))


def coxeter():
    fano = [(i, (i + 1) % 7, (i + 3) % 7) for i in range(7)]
    fano = {frozenset(x) for x in fano}
    return kneser([x for x in itertools.combinations(range(7), 3)
                   if frozenset(x) not in fano])


def tutte_coxeter():
    duads = list(itertools.combinations(range(6), 2))
    synthemes = [x for x in itertools.combinations(duads, 3)
                 if len({i for d in x for i in d}) == 6]
    return incidence(duads, synthemes)


def desargues():
    H = nx.Graph()
    for k in (2, 3):
        for x in itertools.combinations(range(5), k):
            H.add_node(x)
    for x in itertools.combinations(range(5), 2):
        for y in itertools.combinations(range(5), 3):
            if set(x) <= set(y):
                H.add_edge(x, y)
    return H


def pappus():
    # points of the affine plane of order 3, lines not in one direction
    points = list(itertools.product(range(3), repeat=2))
    lines = {tuple(sorted(((x + k * dx) % 3, (y + k * dy) % 3)
                          for k in range(3)))
             for x, y in points for dx, dy in ((1, 0), (1, 1), (1, 2))}
    return incidence(points, sorted(lines))


def gray():
    points = list(itertools.product(range(3), repeat=3))
    lines = {tuple(sorted(p[:i] + (k,) + p[i + 1:] for k in range(3)))
             for p in points for i in range(3)}
    return incidence(points, sorted(lines))


# name: order, girth, diameter, bipartite, another construction
NAMED = {
    "PetersenGraph": (10, 5, 2, False, petersen),
    "DesarguesGraph": (20, 6, 5, True, desargues),
    "CoxeterGraph": (28, 7, 4, False, coxeter),
    "McGeeGraph": (24, 7, 4, False, None),      # the only one of its girth
    "DyckGraph": (32, 6, 5, True, None),
    "PappusGraph": (18, 6, 4, True, pappus),
    "TutteCoxeterGraph": (30, 8, 4, True, tutte_coxeter),
    "GrayGraph": (54, 8, 6, True, gray),
}


@unit("P45", "named", enum=lambda tier: sorted(NAMED))
def named(case, t):
    """Every named graph."""
    n, g, d, bipartite, other = NAMED[case]
    H = cubic(t, getattr(graph_examples, case), n)
    t.check(nx.is_connected(H), "not connected")
    t.equal(girth(H), g, "girth")
    t.equal(nx.diameter(H), d, "diameter")
    t.equal(nx.is_bipartite(H), bipartite, "bipartite")
    if other is not None:
        t.check(nx.is_isomorphic(H, other()), "a different graph")
    if case == "DyckGraph":         # symmetric, as all its vertices look alike
        spread = {tuple(sorted(nx.single_source_shortest_path_length(
            H, v).values())) for v in H}
        t.equal(len(spread), 1, "distance distributions")
    t.nontrivial()


@unit("P45", "families", enum=lambda tier: [
    ("petersen", n, k) for n in range(3, 15) for k in range(1, n)
    if 2 * k != n] + [("cycles", n, 0) for n in range(3, 9)] +
    [("coxeter", n, 10 * a + b) for n in range(3, 10) for a in range(1, n)
     for b in range(1, n) if 2 * a != n and 2 * b != n], floor=0)
def families(case, t):
    """Every family member."""
    kind, n, k = case
    if kind == "petersen":
        H = cubic(t, GeneralizedPetersenGraph(n, k), 2 * n)
        want = nx.Graph()
        for i in range(n):
            want.add_edge((i, True), ((i + 1) % n, True))
            want.add_edge((i, True), (i, False))
            want.add_edge((i, False), ((i + k) % n, False))
        if n % 2 or k % 2 == 0:
            t.check(not nx.is_bipartite(H), "bipartite")
    elif kind == "cycles":
        H = cubic(t, CubeConnectedCycles(n), n << n)
        want = nx.Graph()
        for x in range(1 << n):
            for y in range(n):
                want.add_edge((x, y), (x, (y + 1) % n))
                want.add_edge((x, y), (x ^ 1 << y, y))
        t.equal(girth(H) if n < 7 else None, n if n < 7 else None, "girth")
        t.equal(nx.is_bipartite(H), n % 2 == 0, "bipartite")
        if n < 7:
            t.equal(nx.eccentricity(H, (0, 0)),
                    6 if n == 3 else 2 * n + n // 2 - 2, "diameter")
    else:
        a, b = divmod(k, 10)
        H = cubic(t, GeneralizedCoxeterGraph(n, a, b), 4 * n)
        want = nx.Graph()
        for i in range(n):
            for j, s in ((1, 1), (2, a), (3, b)):
                want.add_edge((i, 0), (i, j))
                want.add_edge((i, j), ((i + s) % n, j))
    t.equal(set(H), set(want), "vertices")
    t.equal({frozenset(e) for e in H.edges()},
            {frozenset(e) for e in want.edges()}, "edges")
    t.nontrivial()


@st.composite
def notations(draw):
    r = random.Random(draw(gens.SEEDS))
    k, n = r.randrange(1, 9), r.randrange(1, 9)
    while k * n < 3:
        n += 1
    size = k * n
    if r.random() < .6 and size % 2 == 0:       # chords in pairs
        for _ in range(200):
            L = [None] * k
            for i in range(k):
                if L[i] is None:
                    jump = r.randrange(2, size - 1) if size > 3 else 1
                    j = (i + jump) % size % k
                    if L[j] is None and (j != i or 2 * jump == size):
                        L[i], L[j] = jump, -jump
            if None not in L:
                return L, n
    return [r.choice([-1, 1]) * r.randrange(1, 2 * size + 1)
            for _ in range(k)], n


@unit("P45", "notation", cases=notations(), quick=1200)
def notation(case, t):
    """A simple undirected cubic graph is described."""
    L, n = case
    given = list(L)
    G = LCFNotation(L, n)
    t.equal(L, given, "list of chords afterwards")
    size = n * len(L)
    t.equal(set(G), set(range(size)), "vertices")
    for i in range(size):
        t.equal(sorted(G[i]), sorted([(i - 1) % size, (i + 1) % size,
                                      (i + L[i % len(L)]) % size]),
                "neighbours")
    good = size > 3 and all(
        (i + L[i % len(L)]) % size not in (i, (i + 1) % size, (i - 1) % size)
        and (L[i % len(L)] + L[(i + L[i % len(L)]) % len(L)]) % size == 0
        for i in range(size))
    if good:
        t.check(is_undirected(G), "not undirected")
        cubic(t, G, size)
    t.nontrivial(good)
