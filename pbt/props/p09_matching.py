import random

from hypothesis import strategies as st

from pads.cardinality_matching import greedy_matching, matching

from pbt import gens, oracles
from pbt.core import unit


def check_valid(G, M, name, t):
    for v in M:
        t.check(v in G and M[v] in G[v], "%s: %r-%r is not an edge", name, v,
                M[v])
        t.check(M[v] in M and M[M[v]] == v, "%s: not symmetric at %r", name,
                v)


def partial(G, seed):
    """Some matching of G, as a function of the seed."""
    r = random.Random(seed)
    edges = [tuple(e) for e in sorted(oracles.unordered(G), key=repr)]
    r.shuffle(edges)
    keep = r.choice([.2, .5, .8, 1, 1, 1])
    M = {}
    for v, w in edges:
        if v not in M and w not in M and r.random() < keep:
            M[v] = w
            M[w] = v
    return M


def check(case, t, size):
    graph, seed = case
    G = gens.undirected(graph)
    best = size(G)
    t.nontrivial(best > 1)
    M = matching(G)
    check_valid(G, M, "matching", t)
    t.check(len(M) == 2 * best, "matching of %d edges, maximum %d",
            len(M) // 2, best)
    D = greedy_matching(G)
    check_valid(G, D, "greedy", t)
    t.label("greedy is maximum" if len(D) == len(M) else "needs augmenting")
    for v in G:
        if v not in D:
            for w in G[v]:
                t.check(w in D, "greedy: edge %r-%r can be added", v, w)
    start = partial(G, seed)
    before = dict(start)
    M = matching(G, start)
    t.equal(start, before, "initial matching changed")
    check_valid(G, M, "matching from start", t)
    t.check(len(M) == 2 * best, "matching of %d edges from %r, maximum %d",
            len(M) // 2, start, best)
    D = greedy_matching(G, start)
    t.equal(start, before, "initial matching changed")
    check_valid(G, D, "greedy from start", t)
    if len(D) < len(M):
        t.label("needs augmenting from start")
    for v in start:
        t.check(D.get(v) == start[v] and v in D, "greedy lost %r-%r", v,
                start[v])
    for v in G:
        if v not in D:
            for w in G[v]:
                t.check(w in D, "greedy from start: %r-%r can be added", v, w)


@unit("P09", "random", quick=6000, cases=st.tuples(
    gens.graphs(max_n=12), gens.SEEDS))
def random_graphs(case, t):
    """Random graphs to 12 vertices, also from a random starting matching;
    nontrivial when the maximum matching has two or more edges."""
    check(case, t, oracles.maximum_matching_size)


def networkx_size(G):
    import networkx
    H = networkx.Graph()
    index = {v: i for i, v in enumerate(G)}
    H.add_nodes_from(index.values())
    H.add_edges_from((index[v], index[w]) for v in G for w in G[v])
    return len(networkx.max_weight_matching(H, maxcardinality=True))


def blossoms(n, r):
    """Odd cycles sharing vertices or linked by paths."""
    edges = set()
    used = 1
    while used < n:
        k = min(r.choice([1, 2, 2, 4]), n - used)
        loop = [r.randrange(max(0, used - 6), used)] + list(
            range(used, used + k))
        used += k
        for a, b in zip(loop, loop[1:] + loop[:1]):
            if a != b:
                edges.add((min(a, b), max(a, b)))
    for _ in range(r.randrange(0, 6)):
        edges.add(tuple(sorted(r.sample(range(n), 2))))
    return sorted(edges)


@st.composite
def blossom_cases(draw, least=5, most=40):
    n = draw(gens.ints(least, most))
    r = random.Random(draw(gens.SEEDS))
    shape = r.choice([blossoms, blossoms, gens.UNDIRECTED["cubic"],
                      gens.UNDIRECTED["treeplus"], gens.UNDIRECTED["grid"],
                      gens.UNDIRECTED["gnp"]])
    edges, order = gens.scramble(n, shape(n, r), r)
    return ((n, edges, order, draw(st.sampled_from(["int", "str", "opaque"])),
             draw(st.sampled_from(gens.CONTAINERS))), draw(gens.SEEDS))


@unit("P09", "blossoms", quick=2500, cases=blossom_cases(), shards=8)
def large(case, t):
    """Graphs to 40 vertices made of odd cycles, cubic and sparse graphs;
    nontrivial as for random."""
    check(case, t, networkx_size)


@unit("P09", "larger", quick=200, cases=blossom_cases(60, 150), shards=8)
def larger(case, t):
    """As blossoms, of 60 to 150 vertices; nontrivial as for random."""
    check(case, t, networkx_size)


@unit("P09", "small", enum=lambda tier: (
    (g, k) for g in gens.all_graphs(5 if tier == "quick" else 6)
    for k in range(3)))
def small(case, t):
    """Every graph on up to 5 vertices (6 when thorough) with three starting
    matchings; nontrivial as for random."""
    check(case, t, oracles.maximum_matching_size)


def stretch(n, r):
    """A graph and a matching of it whose alternating paths are long: edges
    are replaced by paths of three, and the matching follows."""
    edges = {tuple(sorted(r.sample(range(n), 2)))
             for _ in range(r.randrange(n - 1, 2 * n))}
    matched = set()
    covered = set()
    for e in sorted(edges, key=lambda e: r.random()):
        if not covered & set(e):
            matched.add(e)
            covered.update(e)
    for _ in range(r.randrange(0, 7)):
        v, w = r.choice(sorted(edges))
        x, y = n, n + 1
        n += 2
        edges.remove((v, w))
        edges.update([(v, x), (x, y), (w, y)])
        if (v, w) in matched:
            matched.remove((v, w))
            matched.update([(v, x), (w, y)])
        else:
            matched.add((x, y))
    return n, sorted(edges), sorted(matched)


@unit("P09", "stretched", quick=6000, shards=8, cases=st.tuples(
    gens.ints(4, 12), gens.SEEDS, st.sampled_from(["int", "str", "opaque"])))
def stretched(case, t):
    """Graphs to 24 vertices with a starting matching that leaves only long
    augmenting paths; nontrivial when the starting matching is not maximum."""
    n, seed, kind = case
    r = random.Random(seed)
    n, edges, matched = stretch(n, r)
    names = gens.labels(kind, n)
    r.shuffle(names)
    order = list(range(n))
    r.shuffle(order)
    G = {names[v]: set() for v in order}
    for v, w in sorted(edges, key=lambda e: r.random()):
        G[names[v]].add(names[w])
        G[names[w]].add(names[v])
    start = {}
    for v, w in matched:
        start[names[v]] = names[w]
        start[names[w]] = names[v]
    best = networkx_size(G)
    t.nontrivial(len(matched) < best)
    t.label("short by %d" % (best - len(matched)))
    M = matching(G, start)
    check_valid(G, M, "matching from start", t)
    t.check(len(M) == 2 * best, "matching of %d edges from %r, maximum %d",
            len(M) // 2, start, best)
