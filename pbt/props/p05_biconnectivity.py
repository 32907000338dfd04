from hypothesis import strategies as st

from pads.biconnectivity import (BiconnectedComponents, NotBiconnected,
                                 is_biconnected, st_orientation)

from pbt import gens, oracles
from pbt.core import unit


def check(case, t):
    G = gens.undirected(case)
    want = oracles.blocks(G)
    t.nontrivial(any(len(e) > 1 for _, e in want))
    two = oracles.biconnected(G)
    t.label("biconnected" if two else "not biconnected")
    comps = list(BiconnectedComponents(G))
    got = []
    for C in comps:
        es = set()
        for v in C:
            t.check(len(list(C[v])) == len(set(C[v])), "repeated edge")
            for w in C[v]:
                t.check(w in C and v in C[w], "component not symmetric")
                es.add(frozenset((v, w)))
        got.append((set(C), es))
    t.check(len(got) == len(want), "%d components, not %d", len(got),
            len(want))
    for c in got:
        t.check(c in want, "%r is not a block", c)
    t.check(len({(frozenset(a), frozenset(b)) for a, b in got}) == len(got),
            "repeated component")
    t.check(bool(is_biconnected(G)) == two, "is_biconnected is not %s", two)
    if len(G) > 1:
        if two:
            check_st(G, t)
        else:
            t.refuses(NotBiconnected, st_orientation, G)


def check_st(G, t):
    D = st_orientation(G)
    t.equal(set(D), set(G), "oriented vertices")
    arcs = [(v, w) for v in D for w in D[v]]
    t.check(len(arcs) == len(set(map(frozenset, arcs))),
            "edge oriented twice")
    t.equal(set(map(frozenset, arcs)), oracles.unordered(G), "oriented edges")
    t.check(not oracles.has_cycle(D), "orientation has a cycle")
    heads = {w for _, w in arcs}
    sources = [v for v in D if v not in heads]
    sinks = [v for v in D if not D[v]]
    t.check(len(sources) == 1, "sources %r", sources)
    t.check(len(sinks) == 1, "sinks %r", sinks)
    t.check(sinks[0] in G[sources[0]], "source and sink not adjacent")


@unit("P05", "random", quick=6000, cases=gens.graphs(max_n=12))
def random(case, t):
    """Random undirected graphs to 12 vertices; nontrivial when some block has
    a cycle."""
    check(case, t)


@unit("P05", "twoconnected", quick=4000, cases=gens.graphs(
    min_n=3, max_n=14, families=["cycle", "cycle", "blocks", "cubic", "dense",
                                 "grid"]), floor=.3)
def twoconnected(case, t):
    """Graphs that are often biconnected: cycles with chords, cubic, dense;
    nontrivial as for random."""
    check(case, t)


@unit("P05", "small", enum=lambda tier: gens.all_graphs(
    5 if tier == "quick" else 6))
def small(case, t):
    """Every graph on up to 5 vertices (6 when thorough); nontrivial as for
    random."""
    check(case, t)


@unit("P05", "directed", quick=1500, cases=gens.graphs(
    directed=True, loops=True, min_n=1, max_n=7))
def directed(case, t):
    """Digraphs, which must be refused unless symmetric and loopless;
    nontrivial when not symmetric."""
    G = gens.digraph(case)
    if oracles.is_symmetric(G):
        n, edges, order, label, container = case
        return check((n, [e for e in edges if e[0] < e[1]], order, label,
                      container), t)
    t.nontrivial()
    t.refuses(ValueError, BiconnectedComponents, G)
    t.refuses(ValueError, st_orientation, G)
    t.check(not is_biconnected(G), "directed graph accepted")


@unit("P05", "medium", quick=500, cases=gens.graphs(
    min_n=15, max_n=45, label=gens.QUICK_LABELS))
def medium(case, t):
    """Random graphs of 15 to 45 vertices; nontrivial as for random."""
    check(case, t)


@unit("P05", "large", quick=240, cases=gens.graphs(
    min_n=60, max_n=200, label=["int", "str", "tuple"],
    families=["tree", "treeplus", "grid", "cycle", "blocks"]), shards=8)
def large(case, t):
    """Mostly sparse graphs of 60 to 200 vertices; nontrivial as for random."""
    check(case, t)
