import random
from fractions import Fraction

from hypothesis import strategies as st

from pads.minimum_spanning_tree import MinimumSpanningTree

from pbt import gens, oracles
from pbt.core import unit

WEIGHTS = ["one", "few", "signed", "fraction", "distinct", "huge",
           "close"]


def weights(kind, count, seed):
    r = random.Random(seed)
    if kind == "one":
        return [1] * count
    if kind == "few":
        return [r.randrange(3) for _ in range(count)]
    if kind == "signed":
        return [r.randrange(-9, 10) for _ in range(count)]
    if kind == "fraction":
        return [r.randrange(-16, 17) / 8 for _ in range(count)]
    if kind == "huge":
        return [2 ** 60 + r.randrange(9) for _ in range(count)]
    if kind == "close":
        return [Fraction(r.randrange(9), 10 ** 20) for _ in range(count)]
    w = list(range(count))
    r.shuffle(w)
    return w


def prim(adj):
    """Weight of a minimum spanning forest."""
    total = 0
    seen = set()
    for root in adj:
        if root in seen:
            continue
        seen.add(root)
        tree = {root}
        while True:
            out = [adj[v][w] for v in tree for w in adj[v] if w not in tree]
            if not out:
                break
            low = min(out)
            total += low
            w = next(w for v in tree for w in adj[v]
                     if w not in tree and adj[v][w] == low)
            tree.add(w)
        seen |= tree
    return total


def build(case):
    graph, kind, seed = case
    n, edges, order, label, _ = graph
    name = gens.names(graph)
    G = {name[v]: {} for v in (order or range(n))}
    for (v, w), weight in zip(edges, weights(kind, len(edges), seed)):
        G[name[v]][name[w]] = G[name[w]][name[v]] = weight
    return G


def check(case, t):
    G = build(case)
    T = list(MinimumSpanningTree(G))
    comps = oracles.components(G)
    t.nontrivial(len(oracles.unordered(G)) > len(G) - len(comps) > 1)
    t.label("%d components" % min(3, len(comps)))
    forest = {v: [] for v in G}
    for e in T:
        t.check(len(e) == 2, "edge %r", e)
        u, v = e
        t.check(u in G and v in G[u], "%r is not an edge", e)
        forest[u].append(v)
        forest[v].append(u)
    t.check(len(T) == len(G) - len(comps), "%d edges, not %d", len(T),
            len(G) - len(comps))
    t.equal(sorted(map(sorted, [[repr(v) for v in c]
                                for c in oracles.components(forest)])),
            sorted(map(sorted, [[repr(v) for v in c] for c in comps])),
            "parts joined")
    t.equal(sum(G[u][v] for u, v in T), prim(G), "weight of %r" % (T,))


CASES = st.tuples(gens.graphs(max_n=12), st.sampled_from(WEIGHTS), gens.SEEDS)


@unit("P12", "random", quick=8000, cases=CASES)
def random_graphs(case, t):
    """Random weighted graphs to 12 vertices with tied, negative,
    fractional and almost equal weights; nontrivial when there is a cycle and a tree of two or
    more edges."""
    check(case, t)


@unit("P12", "small", enum=lambda tier: (
    (g, k, i) for i, g in enumerate(
        gens.all_graphs(4 if tier == "quick" else 5))
    for k in WEIGHTS), floor=.03)
def small(case, t):
    """Every graph on up to 4 vertices with each kind of weights; nontrivial
    as for random."""
    check(case, t)


@unit("P12", "refusal", quick=1500, cases=CASES)
def refusal(case, t):
    """One edge made one-way, looped, or unequal in its two directions, which
    must be refused; nontrivial when the graph has an edge."""
    graph, kind, seed = case
    G = build(case)
    edges = oracles.edges_of(G)
    if not edges:
        return
    t.nontrivial()
    r = random.Random(seed)
    v, w = edges[r.randrange(len(edges))]
    how = r.randrange(3)
    if how == 0:
        del G[v][w]
    elif how == 1:
        G[v][w] += r.choice([-2, 1, 1 if kind == "huge" else
                             Fraction(1, 2 ** 40)])
    else:
        G[v][v] = 1
    t.refuses(ValueError, MinimumSpanningTree, G)


@unit("P12", "medium", quick=400, cases=st.tuples(
    gens.graphs(min_n=13, max_n=40, label=gens.QUICK_LABELS),
    st.sampled_from(WEIGHTS), gens.SEEDS))
def medium(case, t):
    """Random weighted graphs of 13 to 40 vertices; nontrivial as for
    random."""
    check(case, t)


@unit("P12", "large", quick=240, cases=st.tuples(
    gens.graphs(min_n=60, max_n=200, label=["int", "str", "tuple"],
                families=["tree", "treeplus", "grid", "cycle", "blocks"]),
    st.sampled_from(WEIGHTS), gens.SEEDS), shards=8)
def large(case, t):
    """Mostly sparse weighted graphs of 60 to 200 vertices; nontrivial as for
    random."""
    check(case, t)
