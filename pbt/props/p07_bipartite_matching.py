import random

from hypothesis import strategies as st

from pads.bipartite_matching import matching

from pbt import gens, oracles
from pbt.core import unit


@st.composite
def bipartite_cases(draw, most=8, balanced=False):
    """(left size, right size, edges, left order, label, shared): edges in
    neighbour order; shared says that both sides use the same objects."""
    a = draw(gens.ints(0, most))
    b = a if balanced and draw(gens.ints(0, 3)) else draw(gens.ints(0, most))
    pairs = [(i, j) for i in range(a) for j in range(b)]
    r = random.Random(draw(gens.SEEDS))
    kind = draw(st.sampled_from(["gnp", "path", "perfect", "staircase",
                                 "long"]))
    if kind == "gnp" or not pairs:
        p = r.choice([.1, .2, .3, .5, .8])
        edges = [e for e in pairs if r.random() < p]
    elif kind == "path":        # long alternating paths
        edges = [(i, j) for i, j in pairs if i - j in (0, 1)]
        edges = [e for e in edges if r.random() < .95]
    elif kind == "perfect":     # a perfect matching plus a few edges
        edges = [(i, i) for i in range(min(a, b))]
        edges += [e for e in pairs if e[0] != e[1]
                  and r.random() < r.choice([.1, .2, .4])]
    elif kind == "long":        # greedy choices leave one long path
        left, right = r.sample(range(a), a), r.sample(range(b), b)
        edges = [(left[i], right[j]) for i in range(a)
                 for j in (i - 1, i) if 0 <= j < b]
        if r.random() < .3:
            edges += [e for e in pairs if r.random() < .2 / (a + b)]
    else:
        edges = [(i, j) for i, j in pairs if j <= i + r.randrange(-1, 2)]
    if kind == "long" and pairs:
        return (a, b, edges, left[::-1], draw(st.sampled_from(gens.LABELS)),
                draw(st.booleans()), draw(st.sampled_from(gens.CONTAINERS)))
    if r.random() < .7:
        left, right = list(range(a)), list(range(b))
        r.shuffle(left)
        r.shuffle(right)
        edges = [(left[i], right[j]) for i, j in edges]
        r.shuffle(edges)
    order = list(range(a))
    if r.random() < .5:
        r.shuffle(order)
    if draw(gens.ints(0, 15)) == 0 and edges:
        edges = edges + [r.choice(edges)]       # a repeated neighbour
    return (a, b, edges, order, draw(st.sampled_from(gens.LABELS)),
            draw(st.booleans()), draw(st.sampled_from(gens.CONTAINERS)))


def build(case):
    a, b, edges, order, label, shared, container = case
    if shared:
        left = gens.labels(label, max(a, b))
        right = left
    else:
        both = gens.labels(label, a + b)
        left, right = both[:a], both[a:]
    adj = {left[i]: [] for i in order}
    for i, j in edges:
        adj[left[i]].append(right[j])
    return {u: gens._contain(vs, container) for u, vs in adj.items()}


def all_bipartite(tier):
    most = 3 if tier == "quick" else 4
    k = 0
    for a in range(most + 1):
        for b in range(most + 1):
            pairs = [(i, j) for i in range(a) for j in range(b)]
            for bits in range(1 << len(pairs)):
                k += 1
                edges = [e for i, e in enumerate(pairs) if bits >> i & 1]
                r = random.Random(k)
                if k % 2:
                    r.shuffle(edges)
                yield (a, b, edges, list(range(a)),
                       gens.LABELS[k % len(gens.LABELS)], k % 3 == 0,
                       gens.CONTAINERS[k % 4])


def check(case, t):
    graph = build(case)
    right = {v for u in graph for v in graph[u]}
    size, _ = oracles.bipartite_matching(graph)
    t.nontrivial(size > 1)
    greedy = {}
    for u in graph:
        for v in graph[u]:
            if v not in greedy:
                greedy[v] = u
                break
    t.label("greedy is maximum" if len(greedy) == size else "needs augmenting")
    result = matching(graph)
    t.check(len(result) == 3, "not a triple")
    M, A, B = result
    for v in M:
        t.check(M[v] in graph and v in graph[M[v]],
                "%r-%r is not an edge", M[v], v)
    t.check(len(set(M.values())) == len(M), "left vertex matched twice")
    t.check(len(M) == size, "matching of size %d, maximum %d", len(M), size)
    A, B = list(A), list(B)
    t.check(len(set(A)) == len(A) and set(A) <= set(graph),
            "left independent set %r", A)
    t.check(len(set(B)) == len(B) and set(B) <= right,
            "right independent set %r", B)
    for u in A:
        t.check(not set(graph[u]) & set(B), "edge between %r and %r", u, B)
    t.check(len(A) + len(B) + len(M) == len(graph) + len(right),
            "independent set of size %d, maximum %d", len(A) + len(B),
            len(graph) + len(right) - size)


@unit("P07", "random", quick=12000, cases=bipartite_cases(9))
def random_graphs(case, t):
    """Random bipartite graphs to 9+9: sparse, dense, alternating paths,
    staircases; nontrivial when the maximum matching has two or more edges."""
    check(case, t)


@unit("P07", "large", quick=800, cases=bipartite_cases(40), shards=8)
def large(case, t):
    """Bipartite graphs to 40+40; nontrivial as for random."""
    check(case, t)


@unit("P07", "small", enum=all_bipartite)
def small(case, t):
    """Every bipartite graph on up to 3+3 vertices (4+4 when thorough);
    nontrivial as for random."""
    check(case, t)


@unit("P07", "larger", quick=160, cases=bipartite_cases(120), shards=8)
def larger(case, t):
    """Bipartite graphs to 120+120; nontrivial as for random."""
    check(case, t)
