import random

from hypothesis import strategies as st

from pads.medium import Medium, MediumError, StateTransitionGraph
from pads.partial_cube import (MediumForPartialCube, PartialCubeEdgeLabeling,
                               PartialCubeLabeling, isPartialCube)

from pbt import gens, oracles
from pbt.core import unit
from pbt.props.p17_media import grow


def winkler(G):
    """dist table if G is a partial cube, else None."""
    if len(oracles.components(G)) != 1 or oracles.two_coloring(G) is None:
        return None
    dist = {v: oracles.distances(G, v) for v in G}
    # Djokovic: for each edge the vertices nearer one end are convex; use
    # Winkler's relation being transitive on edges
    edges = [(v, w) for v in G for w in G[v]]

    def related(e, f):
        (a, b), (x, y) = e, f
        return dist[a][x] + dist[b][y] != dist[a][y] + dist[b][x]
    classes = []
    for e in edges:
        mine = frozenset(f for f in edges if related(e, f))
        classes.append((e, mine))
    table = dict(classes)
    for e in edges:
        for f in table[e]:
            if table[f] != table[e]:
                return None
    return dist


def check(case, t):
    G = gens.undirected(case)
    dist = winkler(G)
    t.nontrivial(dist is not None and len(G) > 3)
    t.label("partial cube" if dist else "not")
    t.check(bool(isPartialCube(G)) == (dist is not None),
            "isPartialCube is not %s", dist is not None)
    if dist is None:
        t.refuses(MediumError, MediumForPartialCube, G)
        t.refuses(MediumError, PartialCubeLabeling, G)
        return
    label = PartialCubeLabeling(G)
    t.equal(set(label), set(G), "labelled vertices")
    for v in G:
        for w in G:
            t.check(bin(label[v] ^ label[w]).count("1") == dist[v][w],
                    "labels of %r and %r differ in %d bits, distance %d", v,
                    w, bin(label[v] ^ label[w]).count("1"), dist[v][w])
    E = PartialCubeEdgeLabeling(G)
    t.equal({v: set(E[v]) for v in E}, {v: set(G[v]) for v in G},
            "labelled edges")
    edges = [(v, w) for v in G for w in G[v]]
    for i, (a, b) in enumerate(edges):
        for x, y in edges[:i]:
            want = (dist[a][x] < dist[a][y]) and (dist[b][y] < dist[b][x])
            t.check((E[a][b] == E[x][y]) == want,
                    "edges %r and %r: same class is not %s", (a, b), (x, y),
                    want)
    M = MediumForPartialCube(G)
    t.check(isinstance(M, Medium) and set(M) == set(G), "medium states")
    S = StateTransitionGraph(M)
    t.equal({v: set(S[v]) for v in S}, {v: set(G[v]) for v in G},
            "medium transitions")


@st.composite
def cubes(draw, most=14, bits=5):
    """Partial cubes and near misses."""
    r = random.Random(draw(gens.SEEDS))
    states = grow(draw(gens.ints(1, most)), draw(gens.ints(1, bits)), r)
    index = {s: i for i, s in enumerate(states)}
    n = len(states)
    edges = [(index[s], index[s | 1 << i]) for s in states for i in range(6)
             if not s >> i & 1 and s | 1 << i in index]
    kind = draw(gens.ints(0, 5))
    if kind == 0 and edges:
        edges.remove(r.choice(edges))
    elif kind == 1 and n > 1:
        e = tuple(sorted(r.sample(range(n), 2)))
        if e not in edges and e[::-1] not in edges:
            edges.append(e)
    elif kind == 2 and n > 3:           # remove a vertex
        x = r.randrange(n)
        edges = [(i - (i > x), j - (j > x)) for i, j in edges if x not in
                 (i, j)]
        n -= 1
    edges, order = gens.scramble(n, edges, r)
    return (n, edges, order, draw(st.sampled_from(gens.LABELS)),
            draw(st.sampled_from(gens.CONTAINERS)))


@unit("P18", "cubes", quick=4000, cases=cubes())
def near(case, t):
    """Isometric subgraphs of hypercubes of up to 14 vertices, and the same
    with an edge or vertex added or removed; nontrivial when a partial cube of
    four or more vertices."""
    check(case, t)


@unit("P18", "bipartite", quick=3000, cases=gens.graphs(
    min_n=1, max_n=11, families=["tree", "treeplus", "bipartite", "grid",
                                 "cycle", "blocks"]))
def bipartite(case, t):
    """Trees, grids, cycles and other mostly bipartite graphs; nontrivial as
    for cubes."""
    check(case, t)


@unit("P18", "random", quick=2000, cases=gens.graphs(min_n=1, max_n=9),
      floor=.01)
def any_graph(case, t):
    """Random graphs of all kinds; nontrivial as for cubes."""
    check(case, t)


@unit("P18", "small", enum=lambda tier: gens.all_graphs(
    5 if tier == "quick" else 6, 1), floor=0)
def small(case, t):
    """Every graph on 1 to 5 vertices (6 when thorough); nontrivial as for
    cubes."""
    check(case, t)


@unit("P18", "directed", quick=800, cases=gens.graphs(
    directed=True, loops=True, min_n=1, max_n=6))
def directed(case, t):
    """Digraphs; nontrivial when not symmetric, and then refused."""
    G = gens.digraph(case)
    if not oracles.is_symmetric(G):
        t.nontrivial()
        t.check(not isPartialCube(G), "directed graph accepted")
        t.refuses(MediumError, PartialCubeLabeling, G)


@unit("P18", "medium", quick=200, cases=cubes(36, 6))
def medium(case, t):
    """As cubes, with up to 36 vertices; nontrivial as for cubes."""
    check(case, t)


@st.composite
def glued(draw):
    """Blocks hung on one another at single vertices, and whether each is a
    partial cube, which decides it for the whole."""
    r = random.Random(draw(gens.SEEDS))
    edges = []
    n = 1
    good = True
    spoilt = r.random() < .4
    size = draw(gens.ints(20, 60))
    while n < size:
        kind = r.choice(["edge", "edge", "path", "cycle", "cube", "star",
                         "bad"])
        if kind == "bad" and not spoilt:
            continue
        at = r.randrange(n)
        if kind == "cube":
            states = grow(10, 4, r)
            block = [(i, j) for i in range(len(states)) for j in range(i)
                     if bin(states[i] ^ states[j]).count("1") == 1]
        elif kind == "star":
            block = [(0, i) for i in range(1, r.randrange(3, 30))]
        elif kind == "bad":
            good = False
            block = r.choice([
                [(0, 2), (0, 3), (0, 4), (1, 2), (1, 3), (1, 4)],
                [(0, 1), (1, 2), (0, 2)],
                [(i, (i + 1) % 5) for i in range(5)],
                # a square with another way of four edges across
                [(0, 1), (1, 2), (2, 3), (3, 0), (0, 4), (4, 5), (5, 6),
                 (6, 2)]])
        else:
            k = {"edge": 1, "path": r.randrange(2, 9),
                 "cycle": 2 * r.randrange(2, 7)}[kind]
            block = [(i, i + 1) for i in range(k - (kind == "cycle"))]
            if kind == "cycle":
                block.append((k - 1, 0))
        names = sorted({i for e in block for i in e})
        if not names:
            continue
        name = {i: n + k for k, i in enumerate(names[1:])}
        name[names[0]] = at
        edges += [(name[i], name[j]) for i, j in block]
        n += len(names) - 1
    edges, order = gens.scramble(n, edges, r)
    return ((n, edges, order, draw(st.sampled_from(gens.LABELS)),
             draw(st.sampled_from(gens.CONTAINERS))), good)


@unit("P18", "glued", quick=600, cases=glued())
def blocks(case, t):
    """Trees of edges, paths, stars, even cycles, partial cubes and, in some,
    blocks that are none, 20 to 90 vertices; nontrivial when a partial cube."""
    case, good = case
    G = gens.undirected(case)
    t.nontrivial(good)
    t.check(bool(isPartialCube(G)) == good, "isPartialCube is not %s", good)
    if not good:
        t.refuses(MediumError, PartialCubeLabeling, G)
        return
    label = PartialCubeLabeling(G)
    t.equal(set(label), set(G), "labelled vertices")
    for v in G:
        dist = oracles.distances(G, v)
        for w in G:
            t.check(bin(label[v] ^ label[w]).count("1") == dist[w],
                    "labels of %r and %r, distance %d", v, w, dist[w])
