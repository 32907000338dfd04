from pads.bipartite import (NonBipartite, bipartite_orientation, bipartition,
                            is_bipartite, odd_core, two_color)

from pbt import gens, oracles
from pbt.core import unit


def simple_cycles(G):
    """Edge sets of all simple cycles of an undirected graph."""
    order = {v: i for i, v in enumerate(G)}
    out = set()

    def extend(path):
        for w in G[path[-1]]:
            if w == path[0] and len(path) > 2:
                out.add(frozenset(frozenset((path[i], path[i - 1]))
                                  for i in range(len(path))))
            elif w not in path and order[w] > order[path[0]]:
                extend(path + [w])
    for v in G:
        extend([v])
    return out


def odd_edges(G):
    if len(G) <= 6:
        return {e for c in simple_cycles(G) if len(c) % 2 for e in c}
    out = set()
    for vs, es in oracles.blocks(G):
        H = {v: [] for v in vs}
        for e in es:
            v, w = e
            H[v].append(w)
            H[w].append(v)
        if oracles.two_coloring(H) is None:
            out |= es
    return out


def check(case, t):
    G = gens.undirected(case)
    edges = oracles.unordered(G)
    want = oracles.two_coloring(G) is not None
    t.nontrivial(len(edges) > 2)
    t.label("bipartite" if want else "odd cycle")
    t.check(bool(is_bipartite(G)) == want, "is_bipartite is not %s", want)
    if want:
        color = two_color(G)
        t.equal(set(color), set(G), "coloured vertices")
        for v in G:
            t.check(color[v] in (True, False), "colour %r", color[v])
            for w in G[v]:
                t.check(color[v] != color[w], "%r and %r same colour", v, w)
        side = list(bipartition(G))
        t.check(len(side) == len(set(side)) and set(side) <= set(G),
                "one side: %r", side)
        for v in G:
            for w in G[v]:
                t.check((v in side) != (w in side),
                        "edge %r %r not split by %r", v, w, side)
        for kind in (None, list, set, tuple):
            D = (bipartite_orientation(G) if kind is None
                 else bipartite_orientation(G, kind))
            t.check(all(isinstance(D[v], kind or set) for v in D),
                    "wrong adjacency type")
            arcs = [(v, w) for v in D for w in D[v]]
            t.check(len(arcs) == len(edges) and
                    set(map(frozenset, arcs)) == edges, "oriented edges")
            t.check(not ({v for v, _ in arcs} & {w for _, w in arcs}),
                    "orientation not one-sided")
            t.check(set(D) <= set(G), "unknown vertex in orientation")
            for v in D:
                t.equal(set(D[v]), set(G[v]), "neighbours of %r" % (v,))
    else:
        t.refuses(NonBipartite, two_color, G)
        t.refuses(NonBipartite, lambda G: list(bipartition(G)), G)
        t.refuses(NonBipartite, bipartite_orientation, G)
    core = odd_core(G)
    want = odd_edges(G)
    t.check(oracles.is_symmetric(core), "odd core not undirected")
    t.equal({frozenset((v, w)) for v in core for w in core[v]}, want,
            "odd core edges")
    t.equal(set(core), set().union(*want) if want else set(),
            "odd core vertices")


@unit("P06", "random", quick=6000, cases=gens.graphs(max_n=12))
def random(case, t):
    """Random undirected graphs to 12 vertices; nontrivial with three or more
    edges."""
    check(case, t)


@unit("P06", "nearly", quick=4000, cases=gens.graphs(
    max_n=14, families=["bipartite", "bipartite", "blocks", "tree", "treeplus",
                        "grid", "cycle"]))
def nearly(case, t):
    """Bipartite or nearly bipartite graphs; nontrivial as for random."""
    check(case, t)


@unit("P06", "small", enum=lambda tier: gens.all_graphs(
    5 if tier == "quick" else 6))
def small(case, t):
    """Every graph on up to 5 vertices (6 when thorough); nontrivial as for
    random."""
    check(case, t)


@unit("P06", "medium", quick=500, cases=gens.graphs(
    min_n=15, max_n=45, label=gens.QUICK_LABELS))
def medium(case, t):
    """Random graphs of 15 to 45 vertices; nontrivial as for random."""
    check(case, t)


@unit("P06", "loops", quick=1500, cases=gens.graphs(
    min_n=1, max_n=10, families=["bipartite", "tree", "grid", "gnp"],
    loops=True))
def loops(case, t):
    """Graphs in which a vertex may be joined to itself, which is an odd
    cycle; nontrivial when there is such a vertex and no other odd cycle."""
    G = gens.undirected(case)
    loop = any(v in G[v] for v in G)
    plain = {v: [w for w in G[v] if w != v] for v in G}
    want = not loop and oracles.two_coloring(plain) is not None
    t.nontrivial(loop and oracles.two_coloring(plain) is not None)
    t.check(bool(is_bipartite(G)) == want, "is_bipartite is not %s", want)
    if want:
        color = two_color(G)
        t.check(all(color[v] != color[w] for v in G for w in G[v]),
                "ends of an edge coloured alike: %r", color)
    else:
        t.refuses(NonBipartite, two_color, G)
        t.refuses(NonBipartite, lambda G: list(bipartition(G)), G)
        t.refuses(NonBipartite, bipartite_orientation, G)


@unit("P06", "large", quick=240, cases=gens.graphs(
    min_n=60, max_n=200, label=["int", "str", "tuple"],
    families=["tree", "treeplus", "grid", "cycle", "blocks"]), shards=8)
def large(case, t):
    """Mostly sparse graphs of 60 to 200 vertices; nontrivial as for random."""
    check(case, t)
