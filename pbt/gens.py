"""Generators shared by the properties.

A graph case is a tuple (n, edges, order, label, container):
  n          number of vertices, 0..n-1
  edges      list of pairs; its order fixes the order of neighbours
  order      permutation of the vertices fixing the order of the graph's keys,
             or () for 0..n-1
  label      how vertices are named, see `labels`
  container  what holds the neighbours: "list", "tuple", "set" or "dict"
`undirected` and `digraph` turn one into a graph.
"""
import itertools
import random

from hypothesis import strategies as st

# ------------------------------------------------------------------ integers


def ints(low, high):
    """Uniform integers.  (st.integers returns its bounds far too often.)"""
    return st.sampled_from(range(low, high + 1))


SEEDS = ints(0, 2 ** 32 - 1)


def draw_bits(draw, count):
    """Uniform integer of the given number of bits."""
    result = 0
    for i in range(0, count, 30):
        k = min(30, count - i)
        result |= draw(ints(0, (1 << k) - 1)) << i
    return result


# ------------------------------------------------------------------- labels


class Opaque:
    """Hashable, not orderable, with a reproducible hash."""
    __slots__ = ("i",)

    def __init__(self, i):
        self.i = i

    def __hash__(self):
        return hash(("opaque", self.i * 7919 % 104729))

    def __eq__(self, other):
        return isinstance(other, Opaque) and self.i == other.i

    def __repr__(self):
        return "<%d>" % self.i


class Colliding(Opaque):
    """All hashes equal."""
    __slots__ = ()

    def __hash__(self):
        return 1

    def __eq__(self, other):
        return isinstance(other, Colliding) and self.i == other.i


LABELS = ["int", "neg", "str", "tuple", "mixed", "opaque", "fset", "collide",
          "falsy"]
QUICK_LABELS = [x for x in LABELS if x != "collide"]    # for larger graphs
CONTAINERS = ["list", "tuple", "set", "dict"]


def fresh(v):
    """An equal object, another one where that is possible."""
    if isinstance(v, Opaque):
        return type(v)(v.i)
    if isinstance(v, (tuple, frozenset)):
        return type(v)(list(v))
    if isinstance(v, str):
        return "".join(list(v))
    if isinstance(v, float):
        return v + 0
    return v


class Names(list):
    """Every mention of a name gives an equal object, often another one."""

    def __getitem__(self, i):
        return fresh(list.__getitem__(self, i))


def labels(kind, n):
    """List of n distinct hashable objects."""
    return Names(_labels(kind, n))


def _labels(kind, n):
    if kind == "int":
        return list(range(n))
    if kind == "neg":
        return [(-1) ** i * (i * 37 % 1009) - 3 for i in range(n)]
    if kind == "str":
        return ["v%d" % (i * 31 % 997) for i in range(n)]
    if kind == "tuple":
        return [(i % 3, i) for i in range(n)]
    if kind == "mixed":
        return [(i, "s%d" % i, (i,), float(i) + .5, frozenset([i]))[i % 5]
                for i in range(n)]
    if kind == "opaque":
        return [Opaque(i) for i in range(n)]
    if kind == "collide":
        return [Colliding(i) for i in range(n)]
    if kind == "fset":
        return [frozenset(j for j in range(12) if (i + 1) >> j & 1)
                for i in range(n)]
    if kind == "falsy":
        special = [None, 0, "", (), frozenset()]
        return (special + list(range(1, n)))[:n]
    raise ValueError(kind)


# ------------------------------------------------------------ building graphs

def _contain(neighbours, container):
    if container == "list":
        return list(neighbours)
    if container == "tuple":
        return tuple(neighbours)
    if container == "set":
        return set(neighbours)
    if container == "dict":
        return {w: (i + 1) * 3 for i, w in enumerate(neighbours)}
    raise ValueError(container)


def names(case):
    return labels(case[3], case[0])


def adjacency(case, directed=False):
    """Integer adjacency lists, in vertex order."""
    n, edges, order = case[:3]
    adj = {v: [] for v in (order or range(n))}
    for v, w in edges:
        adj[v].append(w)
        if not directed and v != w:
            adj[w].append(v)
    return adj


def undirected(case, directed=False, container=None):
    """The graph of a case."""
    name = names(case)
    container = container or case[4]
    return {name[v]: _contain([name[w] for w in ws], container)
            for v, ws in adjacency(case, directed).items()}


def digraph(case, container=None):
    return undirected(case, True, container)


# ------------------------------------------------------------- random shapes

def _pairs(n):
    return [(i, j) for i in range(n) for j in range(i + 1, n)]


def _g_gnp(n, r):
    p = r.choice([.1, .2, .3, .5, .7, .9]) if r.random() < .6 else min(
        1, r.uniform(.5, 4) / max(1, n))
    return [e for e in _pairs(n) if r.random() < p]


def _g_tree(n, r):
    back = r.choice([1, 3, n])
    return [(r.randrange(max(0, i - back), i), i) for i in range(1, n)]


def _g_treeplus(n, r):
    edges = set(_g_tree(n, r))
    for _ in range(r.randrange(1, 5)):
        if n > 1:
            edges.add(tuple(sorted(r.sample(range(n), 2))))
    return sorted(edges)


def _g_cycle(n, r):
    edges = {tuple(sorted((i, (i + 1) % n))) for i in range(n) if n > 2}
    for _ in range(r.randrange(0, 4)):
        if n > 1:
            edges.add(tuple(sorted(r.sample(range(n), 2))))
    return sorted(edges)


def _g_blocks(n, r):
    """Cycles, cliques and edges glued at vertices."""
    edges = set()
    used = 1
    while used < n:
        k = min(r.choice([1, 2, 2, 3, 4]), n - used)
        block = [r.randrange(used)] + list(range(used, used + k))
        used += k
        if r.random() < .15:
            block.pop(0)
        kind = r.random()
        if kind < .5 or len(block) < 3:
            for a, b in zip(block, block[1:] + block[:1]):
                if a != b:
                    edges.add(tuple(sorted((a, b))))
        elif kind < .8:
            edges.update(tuple(sorted(e))
                         for e in itertools.combinations(block, 2))
        else:
            edges.update(tuple(sorted((block[0], b))) for b in block[1:])
    return sorted(edges)


def _g_bipartite(n, r):
    side = [r.random() < .5 for _ in range(n)]
    p = r.choice([.2, .4, .7, 1])
    edges = [(i, j) for i, j in _pairs(n)
             if side[i] != side[j] and r.random() < p]
    if r.random() < .3 and n > 2:
        edges = sorted(set(edges) | {tuple(sorted(r.sample(range(n), 2)))})
    return edges


def _g_grid(n, r):
    w = max(1, int(n ** .5) + r.randrange(-1, 2))
    edges = [(i, i + 1) for i in range(n - 1) if (i + 1) % w]
    edges += [(i, i + w) for i in range(n - w)]
    drop = r.choice([0, 0, .1, .3])
    return [e for e in edges if r.random() >= drop]


def _g_chordal(n, r):
    """Each vertex joined to a subset of a clique, maybe one edge toggled."""
    cliques = [[]]
    edges = set()
    for v in range(n):
        c = r.choice(cliques)
        c = [w for w in c if r.random() < .8]
        edges.update((w, v) for w in c)
        cliques.append(c + [v])
    if r.random() < .5 and n > 1:
        edges ^= {tuple(sorted(r.sample(range(n), 2)))}
    return sorted(edges)


def _g_cubic(n, r):
    """Maximum degree three, close to cubic, often with a Hamilton cycle."""
    edges = set()
    degree = [0] * n

    def add(a, b):
        e = (min(a, b), max(a, b))
        if a != b and e not in edges and degree[a] < 3 and degree[b] < 3:
            edges.add(e)
            degree[a] += 1
            degree[b] += 1
    if r.random() < .5 and n > 2:
        for i in range(n):
            add(i, (i + 1) % n)
    for _ in range(6 * n):
        free = [v for v in range(n) if degree[v] < 3]
        if len(free) < 2:
            break
        add(*r.sample(free, 2))
        if r.random() < .02:
            break
    return sorted(edges)


def _g_dense(n, r):
    drop = set()
    for _ in range(r.randrange(0, n + 1)):
        if n > 1:
            drop.add(tuple(sorted(r.sample(range(n), 2))))
    return [e for e in _pairs(n) if e not in drop]


def _g_union(n, r):
    k = r.randrange(0, n + 1)
    first = r.choice(_SIMPLE)(k, r)
    second = r.choice(_SIMPLE)(n - k, r)
    return first + [(i + k, j + k) for i, j in second]


_SIMPLE = [_g_gnp, _g_tree, _g_cycle, _g_blocks, _g_bipartite, _g_chordal,
           _g_dense]
UNDIRECTED = {
    "gnp": _g_gnp, "tree": _g_tree, "treeplus": _g_treeplus, "cycle": _g_cycle,
    "blocks": _g_blocks, "bipartite": _g_bipartite, "grid": _g_grid,
    "chordal": _g_chordal, "cubic": _g_cubic, "dense": _g_dense,
    "union": _g_union,
}


def _d_gnp(n, r):
    p = r.choice([.05, .1, .2, .3, .5, .8]) if r.random() < .5 else min(
        1, r.uniform(.5, 3) / max(1, n))
    return [(i, j) for i in range(n) for j in range(n)
            if i != j and r.random() < p]


def _d_dag(n, r):
    p = r.choice([.1, .2, .3, .5, .8]) if r.random() < .5 else min(
        1, r.uniform(.5, 4) / max(1, n))
    return [e for e in _pairs(n) if r.random() < p]


def _d_almostdag(n, r):
    edges = set(_d_dag(n, r))
    for _ in range(r.randrange(1, 4)):
        if n > 1:
            edges.add(tuple(r.sample(range(n), 2)))
    return sorted(edges)


def _d_cycles(n, r):
    edges = set()
    start = 0
    while start < n:
        k = min(r.randrange(1, 6), n - start)
        block = list(range(start, start + k))
        if k > 1:
            edges.update(zip(block, block[1:] + block[:1]))
        start += k
    for _ in range(r.randrange(0, n + 1)):
        if n > 1:
            a, b = r.sample(range(n), 2)
            edges.add((a, b))
    return sorted(edges)


def _d_function(n, r):
    return sorted({(i, r.randrange(n)) for i in range(n)}
                  - {(i, i) for i in range(n)})


def _d_path(n, r):
    edges = {(i, i + 1) for i in range(n - 1)}
    for _ in range(r.randrange(0, 4)):
        if n > 1:
            edges.add(tuple(r.sample(range(n), 2)))
    return sorted(edges)


def _d_layers(n, r):
    """Layers of different widths, each joined to the next."""
    p = r.choice([.5, .8, 1])
    layers, start = [], 0
    while start < n:
        k = min(r.choice([1, 1, 2, 3, 4]), n - start)
        layers.append(range(start, start + k))
        start += k
    return [(i, j) for a, b in zip(layers, layers[1:]) for i in a for j in b
            if r.random() < p]


def _d_symmetric(n, r):
    edges = r.choice(_SIMPLE)(n, r)
    out = [(j, i) for i, j in edges] + list(edges)
    if out and r.random() < .5:
        out.remove(r.choice(out))
    return out


DIRECTED = {
    "gnp": _d_gnp, "dag": _d_dag, "almostdag": _d_almostdag,
    "cycles": _d_cycles, "function": _d_function, "path": _d_path,
    "layers": _d_layers, "symmetric": _d_symmetric,
}


def _loops(edges, n, r):
    return edges + [(v, v) for v in range(n) if r.random() < .2]


@st.composite
def graphs(draw, min_n=0, max_n=10, families=None, directed=False,
           loops=False, label=LABELS, container=CONTAINERS):
    """Strategy of graph cases."""
    table = DIRECTED if directed else UNDIRECTED
    families = families or sorted(table)
    n = draw(ints(min_n, max_n))
    family = draw(st.sampled_from(["bits"] + families))
    if family == "bits":
        pairs = [(i, j) for i in range(n) for j in range(n)
                 if (i < j or directed) and i != j]
        bits = draw_bits(draw, len(pairs))
        edges = [e for k, e in enumerate(pairs) if bits >> k & 1]
    else:
        seed = draw(SEEDS)
        r = random.Random(seed)
        edges = list(table[family](n, r))
        if loops and r.random() < .3:
            edges = _loops(edges, n, r)
    shuffle = draw(ints(0, 2 ** 16)) if draw(ints(0, 3)) else 0
    order = ()
    if shuffle:
        edges, order = scramble(n, edges, random.Random(shuffle),
                                flip=not directed)
    return (n, edges, order, draw(st.sampled_from(label)),
            draw(st.sampled_from(container)))


def scramble(n, edges, r, flip=True):
    """Rename vertices, reorder and flip edges, order the vertices."""
    name = list(range(n))
    r.shuffle(name)
    edges = [(name[i], name[j]) for i, j in edges]
    r.shuffle(edges)
    if flip:
        edges = [(j, i) if r.random() < .5 else (i, j) for i, j in edges]
    order = list(range(n))
    if r.random() < .5:
        r.shuffle(order)
        return edges, tuple(order)
    return edges, ()


# -------------------------------------------------------------- small scopes

def _variant(n, edges, k, flip):
    """Some orders for an enumerated graph, as a function of its number."""
    r = random.Random(k)
    edges = list(edges)
    if k % 3:
        r.shuffle(edges)
    if flip and k % 2:
        edges = [(j, i) for i, j in edges]
    order = ()
    if k % 5 == 1:
        order = tuple(r.sample(range(n), n))
    return (n, edges, order, LABELS[k % len(LABELS)],
            CONTAINERS[(k // 3) % len(CONTAINERS)])


def all_graphs(max_n, min_n=0):
    """Every labelled undirected graph, with varying orders and labels."""
    k = 0
    for n in range(min_n, max_n + 1):
        pairs = _pairs(n)
        for bits in range(1 << len(pairs)):
            yield _variant(n, [e for i, e in enumerate(pairs)
                               if bits >> i & 1], k, True)
            k += 1


def all_digraphs(max_n, loops_n=2, min_n=0):
    """Every labelled digraph, with loops up to loops_n vertices."""
    k = 0
    for n in range(min_n, max_n + 1):
        pairs = [(i, j) for i in range(n) for j in range(n)
                 if i != j or n <= loops_n]
        for bits in range(1 << len(pairs)):
            yield _variant(n, [e for i, e in enumerate(pairs)
                               if bits >> i & 1], k, False)
            k += 1


def all_dags(max_n):
    """Every labelled DAG."""
    for case in all_digraphs(max_n, 0):
        n, edges = case[:2]
        indegree = [0] * n
        for _, j in edges:
            indegree[j] += 1
        stack = [v for v in range(n) if not indegree[v]]
        seen = 0
        while stack:
            v = stack.pop()
            seen += 1
            for i, j in edges:
                if i == v:
                    indegree[j] -= 1
                    if not indegree[j]:
                        stack.append(j)
        if seen == n:
            yield case
