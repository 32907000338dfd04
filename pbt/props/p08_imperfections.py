from pads.bipartite_matching import imperfections

from pbt import oracles
from pbt.core import unit
from pbt.props.p07_bipartite_matching import (all_bipartite, bipartite_cases,
                                              build)


def check(case, t):
    graph = build(case)
    right = {v for u in graph for v in graph[u]}
    size, _ = oracles.bipartite_matching(graph)
    perfect = size == len(graph) == len(right)
    t.label("perfect" if perfect else "imperfect")
    usable = set()
    if perfect:
        for u in graph:
            for v in graph[u]:
                if oracles.bipartite_matching(graph, {u}, {v})[0] == size - 1:
                    usable.add((u, v))
    every = {(u, v) for u in graph for v in graph[u]}
    t.nontrivial(perfect and len(usable) < len(every))
    result = imperfections(graph)
    got = {(u, v) for u in result for v in result[u]}
    t.check(set(result) <= set(graph), "unknown left vertex")
    t.equal(got, every - usable, "edges in no perfect matching")
    if not perfect:
        return
    for u in result:
        for v in result[u]:
            why = result[u][v]
            left = set(why)
            inside = {w for x in why for w in why[x]}
            t.check(u not in left, "explanation of %r-%r includes %r", u, v,
                    u)
            t.check(v in inside, "explanation of %r-%r lacks %r", u, v, v)
            t.check(left <= set(graph) and len(left) == len(inside),
                    "explanation sides %r and %r", left, inside)
            t.equal({(x, w) for x in why for w in why[x]},
                    {(x, w) for x, w in every if x in left and w in inside},
                    "explanation is not induced")
            for x, w in usable:
                t.check((x in left) == (w in inside),
                        "%r-%r is usable but leaves %r, %r", x, w, left,
                        inside)


@unit("P08", "random", quick=12000, cases=bipartite_cases(7, balanced=True))
def random_graphs(case, t):
    """Random bipartite graphs to 7+7, mostly balanced; nontrivial when there
    is a perfect matching and some edge is in none."""
    check(case, t)


@unit("P08", "small", enum=all_bipartite, floor=.005)
def small(case, t):
    """Every bipartite graph on up to 3+3 vertices (4+4 when thorough);
    nontrivial as for random."""
    check(case, t)


@unit("P08", "medium", quick=800, cases=bipartite_cases(20, balanced=True))
def medium(case, t):
    """Random bipartite graphs to 20+20; nontrivial as for random."""
    check(case, t)


@unit("P08", "large", quick=100, cases=bipartite_cases(60, balanced=True),
      shards=8)
def large(case, t):
    """Random bipartite graphs to 60+60; nontrivial as for random."""
    check(case, t)
