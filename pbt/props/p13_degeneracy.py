from hypothesis import strategies as st

from pads.graphdegeneracy import (core, degeneracy, degeneracyOrientation,
                                  degeneracySequence, triangles)

from pbt import gens, oracles
from pbt.core import unit


def check(case, t):
    G = gens.undirected(case)
    n = len(G)
    edges = oracles.unordered(G)
    want = oracles.degeneracy(G)
    t.nontrivial(want > 1)
    t.label("degeneracy %d" % min(want, 5))
    t.equal(degeneracy(G), want, "degeneracy")

    order = []
    left = {v: set(G[v]) for v in G}
    for item in degeneracySequence(G):
        v, d = item
        t.check(v in left, "%r listed twice or unknown", v)
        t.check(d == len(left[v]), "%r listed with %r, has %d later", v, d,
                len(left[v]))
        t.check(d == min(map(len, left.values())), "%r is not of least "
                "degree among the rest", v)
        for w in left[v]:
            left[w].discard(v)
        del left[v]
        order.append(v)
    t.check(not left, "vertices not listed")

    D = degeneracyOrientation(G)
    t.equal(set(D), set(G), "oriented vertices")
    arcs = [(v, w) for v in D for w in D[v]]
    t.check(len(arcs) == len(edges), "%d arcs, %d edges", len(arcs),
            len(edges))
    t.equal(set(map(frozenset, arcs)), edges, "oriented edges")
    t.check(all(len(D[v]) <= want for v in D), "out-degree above degeneracy")
    t.check(not oracles.has_cycle(D), "orientation has a cycle")

    for k in range(-1, want + 3):
        C = core(G, k)
        t.check(len(C) == len(set(C)), "core has repeats")
        t.equal(set(C), oracles.k_core(G, k), "%d-core" % k)
    t.equal(set(core(G)), oracles.k_core(G, want), "deepest core")
    t.equal(set(core(G, None)), oracles.k_core(G, want), "deepest core")

    found = list(triangles(G))
    t.check(all(len(x) == 3 for x in found), "not triples")
    t.check(len(found) == len({frozenset(x) for x in found}),
            "triangle listed twice")
    t.equal({frozenset(x) for x in found}, oracles.triangles(G), "triangles")


@unit("P13", "random", quick=6000, cases=gens.graphs(min_n=1, max_n=13))
def random(case, t):
    """Random graphs to 13 vertices and every k from -1 to two above the
    degeneracy; nontrivial when the degeneracy is two or more."""
    check(case, t)


@unit("P13", "small", enum=lambda tier: gens.all_graphs(
    5 if tier == "quick" else 6, 1))
def small(case, t):
    """Every graph on 1 to 5 vertices (6 when thorough); nontrivial as for
    random."""
    check(case, t)


@unit("P13", "directed", quick=800, cases=gens.graphs(
    directed=True, loops=True, min_n=1, max_n=6))
def directed(case, t):
    """Digraphs; nontrivial when not symmetric, and then refused."""
    G = gens.digraph(case)
    if not oracles.is_symmetric(G):
        t.nontrivial()
        for f in (degeneracy, degeneracyOrientation, core,
                  lambda G: list(degeneracySequence(G)),
                  lambda G: list(triangles(G))):
            t.refuses(TypeError, f, G)


@unit("P13", "medium", quick=500, cases=gens.graphs(
    min_n=14, max_n=40, label=gens.QUICK_LABELS))
def medium(case, t):
    """Random graphs of 14 to 40 vertices; nontrivial as for random."""
    check(case, t)


@unit("P13", "large", quick=100, cases=gens.graphs(
    min_n=60, max_n=200, label=["int", "str", "tuple"],
    families=["tree", "treeplus", "grid", "cycle", "blocks"]), shards=8)
def large(case, t):
    """Mostly sparse graphs of 60 to 200 vertices; nontrivial as for random."""
    check(case, t)
