from pads.cubic_ham import hamiltonian_cycles

from pbt import gens, oracles
from pbt.core import unit


def degree_three(case):
    """Drop edges until all degrees are at most three."""
    n, edges = case[:2]
    degree = [0] * n
    keep = []
    for v, w in edges:
        if degree[v] < 3 and degree[w] < 3:
            degree[v] += 1
            degree[w] += 1
            keep.append((v, w))
    return (n, keep) + tuple(case[2:])


def check(case, t):
    G = gens.undirected(degree_three(case))
    want = oracles.hamiltonian_cycles(G)
    t.nontrivial(len(want) > 0)
    t.label("%d cycles" % min(len(want), 4))
    got = []
    for C in hamiltonian_cycles(G):
        es = set()
        t.equal(set(C), set(G), "cycle vertices")
        for v in C:
            t.check(len(list(C[v])) == 2, "%r has %d cycle neighbours", v,
                    len(list(C[v])))
            es.update(frozenset((v, w)) for w in C[v])
        got.append(frozenset(es))
        t.check(len(got) <= len(want), "too many cycles")
    t.check(len(set(got)) == len(got), "cycle repeated")
    t.equal(set(got), want, "cycles")


@unit("P14", "cubic", quick=8000, shards=8, cases=gens.graphs(
    min_n=3, max_n=13, families=["cubic"] * 4 + ["cycle", "grid"]))
def cubic(case, t):
    """Graphs of maximum degree three to 13 vertices; nontrivial when
    Hamiltonian."""
    check(case, t)


@unit("P14", "other", quick=6000, cases=gens.graphs(min_n=1, max_n=10))
def other(case, t):
    """Graphs of all shapes cut down to maximum degree three; nontrivial as
    for cubic."""
    check(case, t)


@unit("P14", "small", enum=lambda tier: (
    g for g in gens.all_graphs(5 if tier == "quick" else 6, 1)
    if degree_three(g) == g))
def small(case, t):
    """Every graph of maximum degree three on 1 to 5 vertices (6 when
    thorough); nontrivial as for cubic."""
    check(case, t)


@unit("P14", "refusal", quick=1000, cases=gens.graphs(
    directed=True, loops=True, max_n=6))
def refusal(case, t):
    """Digraphs, undirected graphs of higher degree and the empty graph;
    nontrivial when to be refused."""
    G = gens.digraph(case)
    if oracles.is_symmetric(G) and G and max(len(G[v]) for v in G) <= 3:
        return
    t.nontrivial()
    t.refuses(ValueError, lambda G: list(hamiltonian_cycles(G)), G)


@unit("P14", "medium", quick=1000, shards=8, cases=gens.graphs(
    min_n=14, max_n=20, families=["cubic"] * 4 + ["cycle", "grid"],
    label=gens.QUICK_LABELS))
def medium(case, t):
    """Graphs of maximum degree three with 14 to 20 vertices; nontrivial as
    for cubic."""
    check(case, t)
