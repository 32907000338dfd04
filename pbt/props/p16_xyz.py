import random

from hypothesis import strategies as st

from pads.biconnectivity import NotBiconnected
from pads.xyz_graph import (CubicMatchPartitions, groupByCycles, isxyz,
                            xyzEmbeddings)

from pbt import gens, oracles
from pbt.core import unit


def lcf(n, jumps):
    edges = {tuple(sorted((i, (i + 1) % n))) for i in range(n)}
    edges |= {tuple(sorted((i, (i + jumps[i % len(jumps)]) % n)))
              for i in range(n)}
    return n, sorted(edges)


def petersen(n, k):
    edges = set()
    for i in range(n):
        edges.add(tuple(sorted((i, (i + 1) % n))))
        edges.add((i, n + i))
        edges.add(tuple(sorted((n + i, n + (i + k) % n))))
    return 2 * n, sorted(edges)


def truncated_octahedron():
    import itertools
    perms = list(itertools.permutations(range(4)))
    index = {p: i for i, p in enumerate(perms)}
    edges = set()
    for p in perms:
        for i in range(3):
            q = list(p)
            q[i], q[i + 1] = q[i + 1], q[i]
            edges.add(tuple(sorted((index[p], index[tuple(q)]))))
    return 24, sorted(edges)


BASES = [
    lcf(4, [2]), lcf(6, [3]), petersen(3, 1), petersen(4, 1), petersen(5, 1),
    petersen(5, 2), petersen(6, 1), petersen(8, 3), lcf(8, [4]),
    petersen(6, 2), lcf(14, [5, -5]), lcf(12, [5, -5]), lcf(10, [5]),
    lcf(18, [5, 7, -7, 7, -7, -5]), petersen(10, 3), truncated_octahedron(),
    lcf(16, [5, -5]), lcf(20, [5, -5]), petersen(10, 1),
]


def insert(n, edges, r):
    """Subdivide two edges and join the new vertices: stays biconnected."""
    e, f = r.sample(edges, 2)
    edges = [x for x in edges if x not in (e, f)]
    edges += [(e[0], n), (n, e[1]), (f[0], n + 1), (n + 1, f[1]), (n, n + 1)]
    return n + 2, edges


@st.composite
def cubic(draw):
    base = draw(gens.ints(0, len(BASES) - 1))
    n, edges = BASES[base]
    edges = list(edges)
    r = random.Random(draw(gens.SEEDS))
    for _ in range(draw(gens.ints(0, 3))):
        if n <= 12:
            n, edges = insert(n, edges, r)
    edges, order = gens.scramble(n, edges, r)
    return (n, edges, order, draw(st.sampled_from(gens.LABELS)),
            draw(st.sampled_from(gens.CONTAINERS)))


def colorings(G):
    """All partitions into three perfect matchings, as frozensets of
    frozensets of edges."""
    order = []
    seen = set()
    for root in G:
        stack = [root]
        while stack:
            v = stack.pop()
            if v in seen:
                continue
            seen.add(v)
            order.append(v)
            stack.extend(w for w in G[v] if w not in seen)
    edges = []
    done = set()
    for v in order:
        for w in G[v]:
            e = frozenset((v, w))
            if e not in done:
                done.add(e)
                edges.append((e, v, w))
    used = {v: set() for v in G}
    color = {}
    found = set()

    def extend(i):
        if i == len(edges):
            found.add(frozenset(frozenset(e for e in color if color[e] == c)
                                for c in range(3)))
            return
        e, v, w = edges[i]
        for c in range(3):
            if c not in used[v] and c not in used[w]:
                if i < 3 and c > i:
                    continue    # the first vertex's edges in colour order
                used[v].add(c)
                used[w].add(c)
                color[e] = c
                extend(i + 1)
                del color[e]
                used[v].discard(c)
                used[w].discard(c)
    extend(0)
    return found


def cycles(G, edges):
    """Vertex -> number of its cycle in a union of two matchings."""
    H = {v: [] for v in G}
    for e in edges:
        v, w = e
        H[v].append(w)
        H[w].append(v)
    out = {}
    for i, c in enumerate(oracles.components(H)):
        for v in c:
            out[v] = i
    return out


def is_embedding(G, partition):
    """Do the cycle numbers place exactly adjacent vertices on lines?"""
    a, b, c = partition
    xyz = [cycles(G, a | b), cycles(G, a | c), cycles(G, b | c)]
    point = {v: tuple(x[v] for x in xyz) for v in G}
    order = list(G)
    for i, v in enumerate(order):
        for w in order[:i]:
            same = sum(p == q for p, q in zip(point[v], point[w]))
            if (same >= 2) != (w in G[v]) or same == 3:
                return False
    return True


@unit("P16", "partitions", quick=600, cases=cubic(), shards=8)
def partitions(case, t):
    """Biconnected cubic graphs of 4 to 24 vertices: named ones and ones with
    edges inserted; nontrivial when some partition exists."""
    G = gens.undirected(case)
    want = colorings(G)
    t.nontrivial(bool(want))
    t.label("%d partitions" % min(len(want), 8))
    got = []
    for P in CubicMatchPartitions(G):
        t.equal(set(P), set(G), "vertices")
        parts = [set(), set(), set()]
        for v in P:
            t.check(len(P[v]) == 3 and set(P[v]) == set(G[v]),
                    "neighbours of %r are %r", v, P[v])
            for i in range(3):
                t.check(P[P[v][i]][i] == v, "not matched at %r", v)
                parts[i].add(frozenset((v, P[v][i])))
        got.append(frozenset(map(frozenset, parts)))
        t.check(len(got) <= len(want), "too many partitions")
        if len(got) <= 4:
            for i in range(3):
                for j in range(i):
                    D = groupByCycles(P, j, i)
                    ref = cycles(G, parts[i] | parts[j])
                    pairs = {(D[v], ref[v]) for v in G}
                    t.check(len(pairs) == len({x for x, _ in pairs})
                            == len({y for _, y in pairs}),
                            "cycles grouped wrongly")
    t.check(len(set(got)) == len(got), "partition repeated")
    t.equal(set(got), want, "partitions")
    # embeddings
    fit = {p for p in want if is_embedding(G, p)}
    if fit:
        t.label("embeds")
    found = []
    for E in xyzEmbeddings(G):
        t.equal(set(E), set(G), "embedded vertices")
        points = [tuple(E[v]) for v in G]
        t.check(all(len(p) == 3 for p in points), "not points in space")
        t.check(isxyz(points), "returned points rejected")
        axes = [set(), set(), set()]
        order = list(G)
        for i, v in enumerate(order):
            for w in order[:i]:
                diff = [k for k in range(3) if E[v][k] != E[w][k]]
                t.check((len(diff) == 1) == (w in G[v]),
                        "%r and %r at %r and %r", v, w, E[v], E[w])
                if len(diff) == 1:
                    axes[diff[0]].add(frozenset((v, w)))
        found.append(frozenset(map(frozenset, axes)))
    t.check(len(set(found)) == len(found), "embedding repeated")
    t.equal(set(found), fit, "embeddings")


@unit("P16", "points", quick=3000, cases=st.tuples(
    gens.ints(0, 9), gens.SEEDS))
def points(case, t):
    """Random point sets on a small grid, closed or not under pairing along
    axes; nontrivial when nonempty and accepted."""
    size, seed = case
    r = random.Random(seed)
    if r.random() < .6:         # boxes, which qualify when disjoint
        pts = set()
        for _ in range(size // 3 + 1):
            box = [r.sample(range(4), 2) for _ in range(3)]
            pts ^= {(x, y, z) for x in box[0] for y in box[1] for z in box[2]}
    else:
        pts = {tuple(r.randrange(3) for _ in range(3)) for _ in range(size)}
    pts = sorted(pts)
    r.shuffle(pts)
    want = True
    for p in pts:
        for axis in range(3):
            line = [q for q in pts
                    if all(q[k] == p[k] for k in range(3) if k != axis)]
            want = want and len(line) == 2
    t.nontrivial(bool(pts) and want)
    t.check(bool(isxyz(pts)) == want, "isxyz(%r) is not %s", pts, want)
    t.check(bool(isxyz([list(p) for p in pts])) == want, "isxyz of lists")


@unit("P16", "many-points", quick=300, cases=st.tuples(
    gens.ints(5, 60), gens.SEEDS))
def many_points(case, t):
    """Boxes of points, up to 480 points, some with a point added, moved or
    taken away; nontrivial when accepted and of 100 points or more."""
    size, seed = case
    r = random.Random(seed)
    pts = set()
    for _ in range(size):
        box = [r.sample(range(size * 2), 2) for _ in range(3)]
        new = {(x, y, z) for x in box[0] for y in box[1] for z in box[2]}
        lines = {(k, p[:k] + p[k + 1:]) for p in pts for k in range(3)}
        if not any((k, p[:k] + p[k + 1:]) in lines
                   for p in new for k in range(3)):
            pts |= new
    kind = r.randrange(4)
    if kind < 2:
        pts.discard(r.choice(sorted(pts)))
    if kind in (1, 2):
        pts.add(tuple(r.randrange(size * 2) for _ in range(3)))
    count = {}
    for p in pts:
        for k in range(3):
            line = k, p[:k] + p[k + 1:]
            count[line] = count.get(line, 0) + 1
    want = set(count.values()) <= {2}
    pts = sorted(pts)
    r.shuffle(pts)
    t.nontrivial(want and len(pts) >= 100)
    t.check(bool(isxyz(pts)) == want, "isxyz of %d points is not %s",
            len(pts), want)


@unit("P16", "refusal", quick=1500, cases=st.tuples(
    cubic(), gens.graphs(min_n=1, max_n=8), gens.SEEDS))
def refusal(case, t):
    """Graphs that are directed, not cubic or not biconnected; nontrivial when
    to be refused."""
    good, other, seed = case
    r = random.Random(seed)
    kind = seed % 3
    name = None
    if kind == 0:
        G = gens.undirected(good, container="list")
        v = r.choice(list(G))
        w = G[v][r.randrange(3)]
        u = r.choice([x for x in G if x != v and x not in G[v]] or [v])
        G[v][G[v].index(w)] = u     # v still has three neighbours
    elif kind == 1:
        G = gens.undirected(other)
        if G and all(len(G[v]) == 3 for v in G):
            return
    else:                           # two copies of a cubic graph, or joined
        n, edges, _, label, container = good
        if n > 12:
            return
        both = edges + [(i + n, j + n) for i, j in edges]
        if r.random() < .6:         # joined by a bridge through two new ones
            e = r.choice(edges)
            f = (e[0] + n, e[1] + n)
            both = [x for x in both if x not in (e, f)]
            both += [(e[0], 2 * n), (2 * n, e[1]), (f[0], 2 * n + 1),
                     (2 * n + 1, f[1]), (2 * n, 2 * n + 1)]
            G = gens.undirected((2 * n + 2, both, (), label, container))
        else:
            G = gens.undirected((2 * n, both, (), label, container))
    t.nontrivial()
    for f in (CubicMatchPartitions, xyzEmbeddings):
        t.refuses((ValueError, NotBiconnected), lambda G: list(f(G)), G)
