from random import Random

from hypothesis import strategies as st

from pads.chordal import is_chordal, perfect_elimination_ordering
from pads.lex_bfs import lex_bfs

from pbt import gens, oracles
from pbt.core import unit


def check_lexbfs(G, order, t):
    t.check(len(order) == len(G) and set(order) == set(G),
            "search lists %r", order)
    n = len(order)
    adj = [[w in G[v] for w in order] for v in order]
    for c in range(n):
        for b in range(c):
            for a in range(b):
                if adj[a][c] and not adj[a][b]:
                    t.check(any(adj[d][b] and not adj[d][c]
                                for d in range(a)),
                            "%r: %r, %r, %r violate the lexicographic order",
                            order, order[a], order[b], order[c])


def check(case, t):
    G = gens.undirected(case)
    n = len(G)
    order = []
    for v in lex_bfs(G):
        order.append(v)
        t.check(len(order) <= n, "vertex listed twice")
    check_lexbfs(G, order, t)
    want = oracles.is_chordal(G)
    t.nontrivial(len(oracles.unordered(G)) > 2)
    t.label("chordal" if want else "not chordal")
    t.check(bool(is_chordal(G)) == want, "is_chordal is not %s", want)
    if not want:
        t.refuses(ValueError, perfect_elimination_ordering, G)
        return
    order = list(perfect_elimination_ordering(G))
    t.check(len(order) == n and set(order) == set(G),
            "elimination order %r", order)
    position = {v: i for i, v in enumerate(order)}
    for v in order:
        later = [w for w in G[v] if position[w] > position[v]]
        for i, x in enumerate(later):
            for y in later[:i]:
                t.check(y in G[x], "%r: %r and %r after %r not adjacent",
                        order, x, y, v)


@unit("P10", "random", quick=6000, cases=gens.graphs(max_n=11))
def random(case, t):
    """Random graphs to 11 vertices; nontrivial with three or more edges."""
    check(case, t)


@unit("P10", "chordal", quick=5000, cases=gens.graphs(
    min_n=3, max_n=14, families=["chordal", "chordal", "chordal", "tree",
                                 "dense", "blocks"]))
def chordal(case, t):
    """Chordal graphs and ones with an edge toggled, to 14 vertices;
    nontrivial as for random."""
    check(case, t)


@unit("P10", "small", enum=lambda tier: gens.all_graphs(
    5 if tier == "quick" else 6))
def small(case, t):
    """Every graph on up to 5 vertices (6 when thorough); nontrivial as for
    random."""
    check(case, t)


@unit("P10", "directed", quick=800, cases=gens.graphs(
    directed=True, loops=True, min_n=1, max_n=6))
def directed(case, t):
    """Digraphs; nontrivial when not symmetric, and then refused."""
    G = gens.digraph(case)
    if not oracles.is_symmetric(G):
        t.nontrivial()
        t.refuses(ValueError, is_chordal, G)


@unit("P10", "medium", quick=600, cases=gens.graphs(
    min_n=12, max_n=35, label=gens.QUICK_LABELS,
    families=["chordal"] * 3 + sorted(gens.UNDIRECTED)))
def medium(case, t):
    """Random graphs of 12 to 35 vertices, some chordal; nontrivial as for
    random."""
    check(case, t)


@st.composite
def larger(draw):
    """Cliques in a tree, one of them perhaps replaced by a hole."""
    r = Random(draw(gens.SEEDS))
    n = draw(gens.ints(40, 90))
    edges = set()
    cliques = [[0]]
    for v in range(1, n):
        c = r.choice(cliques[-9:] if r.random() < .7 else cliques)
        c = [w for w in c if r.random() < .9] or c
        c = c[-r.choice([2, 3, 5, 9]):]
        edges.update((w, v) for w in c)
        cliques.append(c + [v])
    if r.random() < .6:
        around = {v: set() for v in range(n)}
        for v, w in edges:
            around[v].add(w)
            around[w].add(v)
        middle = [(v, w) for v, w in edges if any(
            b not in around[a] for a in around[v] & around[w]
            for b in around[v] & around[w] - {a})]
        if middle:
            edges.remove(r.choice(sorted(middle)))
    return n, r.sample(sorted(edges), len(edges)), tuple(r.sample(
        range(n), n)), r.choice(gens.QUICK_LABELS), \
        r.choice(gens.CONTAINERS)


@unit("P10", "large", quick=150, cases=larger())
def large(case, t):
    """Trees of cliques of 40 to 90 vertices, some with one edge removed that
    leaves a cycle of four; nontrivial as for random."""
    check(case, t)
