import random

from hypothesis import strategies as st

from pads.acyclic_reachability import Reachability
from pads.partial_order import (TopologicalOrder, TransitiveClosure, isAcyclic,
                                isTopologicalOrder)

from pbt import gens, oracles
from pbt.core import unit


def valid_order(G, L):
    position = {v: i for i, v in enumerate(L)}
    return (len(L) == len(G) and set(L) == set(G)
            and all(position[v] < position[w] for v in G for w in G[v]))


def perturb(G, order, r):
    """Candidate orders: right ones and near misses."""
    L = list(order)
    yield L
    for _ in range(4):
        M = list(L)
        if len(M) > 1:
            i, j = r.sample(range(len(M)), 2)
            M[i], M[j] = M[j], M[i]
        yield M
        r.shuffle(M)
        yield M
    if L:
        yield L[1:]
        yield L[:-1]
        yield L + [L[0]]
        yield [L[-1]] + L
        i = r.randrange(len(L))
        yield L[:i] + [L[i]] + L[i:]
        yield L[:i] + ["not a vertex"] + L[i + 1:]
    yield L + ["not a vertex"]
    yield []


def check(case, t):
    G = gens.digraph(case)
    reach = oracles.closure(G)
    acyclic = not any(v in reach[v] for v in G)
    t.nontrivial(len(oracles.edges_of(G)) > 1)
    t.label("acyclic" if acyclic else "cyclic")
    t.check(bool(isAcyclic(G)) == acyclic, "isAcyclic wrong, acyclic is %s",
            acyclic)
    if acyclic:
        L = list(TopologicalOrder(G))
        t.check(valid_order(G, L), "not a topological order: %r", L)
        R = Reachability(G)
        for v in G:
            for w in G:
                t.check(bool(R.reachable(v, w)) == (v == w or w in reach[v]),
                        "reachable(%r, %r)", v, w)
    else:
        t.refuses(ValueError, TopologicalOrder, G)
        L = list(G)
    r = random.Random(repr(case))
    for M in perturb(G, L, r):
        for sequence in (M, tuple(M)):
            t.check(bool(isTopologicalOrder(G, sequence)) == valid_order(G, M),
                    "isTopologicalOrder(%r) is not %s", M, valid_order(G, M))
    TC = TransitiveClosure(G)
    t.equal(set(TC), set(G), "closure vertices")
    for v in G:
        t.equal(set(TC[v]), reach[v] - {v}, "closure of %r" % (v,))


@unit("P03", "random", quick=5000,
      cases=gens.graphs(directed=True, loops=True, max_n=12))
def random_digraphs(case, t):
    """Random digraphs to 12 vertices, with about ten candidate orders each;
    nontrivial with two or more edges."""
    check(case, t)


@unit("P03", "dags", quick=5000,
      cases=gens.graphs(directed=True, max_n=20, families=["dag", "dag",
                                                           "path"]))
def random_dags(case, t):
    """Mostly acyclic graphs to 20 vertices; nontrivial as for random."""
    check(case, t)


@unit("P03", "small", enum=lambda tier: gens.all_digraphs(4, 3))
def small(case, t):
    """Every digraph on up to 4 vertices; nontrivial as for random."""
    check(case, t)


@unit("P03", "medium", quick=400, cases=gens.graphs(
    directed=True, loops=True, min_n=15, max_n=60, label=gens.QUICK_LABELS,
    families=["dag", "dag", "path", "almostdag", "cycles", "function"]))
def medium(case, t):
    """Digraphs of 15 to 60 vertices, about half acyclic; nontrivial as for
    random."""
    check(case, t)


@unit("P03", "large", quick=64, cases=gens.graphs(
    directed=True, min_n=60, max_n=200, label=["int", "str", "tuple"],
    families=["dag", "layers", "path"]), shards=8)
def large(case, t):
    """Mostly acyclic graphs of 60 to 200 vertices; nontrivial as for
    random."""
    check(case, t)
