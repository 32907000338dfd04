from pads.strong_connectivity import Condensation, StronglyConnectedComponents

from pbt import gens, oracles
from pbt.core import unit


def check(case, t):
    G = gens.digraph(case)
    reach = oracles.closure(G)
    classes = {}
    for v in G:
        classes[v] = frozenset({v} | {w for w in reach[v] if v in reach[w]})
    want = set(classes.values())
    t.nontrivial(any(len(c) > 1 for c in want) and len(want) > 1)
    t.label("%s classes" % min(len(want), 5))

    S = StronglyConnectedComponents(G)
    comps = list(S)
    t.check(len(S) == len(comps), "length is not the number of components")
    t.equal(list(S), comps, "second iteration")
    t.check(len(comps) == len(want), "%d components, not %d", len(comps),
            len(want))
    t.equal({frozenset(c) for c in comps}, want, "components")
    for c in comps:
        for v in c:
            t.check(len(list(c[v])) == len(set(c[v])), "repeated edge")
            t.equal(set(c[v]), {w for w in G[v] if w in classes[v]},
                    "induced edges of %r" % (v,))

    C = Condensation(G)
    t.equal(set(C), want, "condensation vertices")
    edges = {(classes[v], classes[w]) for v in G for w in G[v]
             if classes[v] != classes[w]}
    t.equal({(a, b) for a in C for b in C[a]}, edges, "condensation edges")
    t.check(not oracles.has_cycle(C), "condensation has a cycle")


@unit("P02", "random", quick=8000,
      cases=gens.graphs(directed=True, loops=True, max_n=14))
def random(case, t):
    """Random digraphs to 14 vertices; nontrivial when there are two or more
    components, one of them with a cycle."""
    check(case, t)


@unit("P02", "small", enum=lambda tier: gens.all_digraphs(4, 3))
def small(case, t):
    """Every digraph on up to 4 vertices, loops included up to 3; nontrivial
    as for random."""
    check(case, t)


@unit("P02", "medium", quick=600, cases=gens.graphs(
    directed=True, loops=True, min_n=15, max_n=60, label=gens.QUICK_LABELS))
def medium(case, t):
    """Random digraphs of 15 to 60 vertices; nontrivial as for random."""
    check(case, t)


@unit("P02", "large", quick=240, cases=gens.graphs(
    directed=True, loops=True, min_n=60, max_n=200,
    label=["int", "str", "tuple"], families=["dag", "path", "almostdag",
                                             "cycles", "function"]), shards=8)
def large(case, t):
    """Mostly sparse digraphs of 60 to 200 vertices; nontrivial as for random."""
    check(case, t)
