import itertools
import random

import networkx
from hypothesis import strategies as st

from pads.halin import (halin_leaf_vertices, hamiltonian_cycle_D3,
                        is_D3_reducible, is_K4, is_dual_3_tree, is_halin,
                        is_wheel)

from pbt import gens, oracles
from pbt.core import unit

# ------------------------------------------------------------------- oracles


def to_int(G):
    index = {v: i for i, v in enumerate(G)}
    return {index[v]: {index[w] for w in G[v]} for v in G}


def is_leaf_cycle(G, C):
    """Is G a plane tree plus this cycle through its leaves?"""
    C = set(C)
    inner = [v for v in G if v not in C]
    if len(C) < 3 or not inner or any(len(G[v]) < 3 for v in inner):
        return False
    if any(len(G[v]) != 3 or len(G[v] & C) != 2 for v in C):
        return False
    # the cycle, in order
    start = min(C)
    cycle = [start, min(G[start] & C)]
    while len(cycle) < len(C):
        nxt = (G[cycle[-1]] & C) - {cycle[-2]}
        v = nxt.pop()
        if v == start:
            return False
        cycle.append(v)
    if start not in G[cycle[-1]]:
        return False
    T = {v: set(G[v]) - (C if v in C else set()) for v in G}
    m = sum(map(len, T.values())) // 2
    if m != len(G) - 1 or len(oracles.components(T)) != 1:
        return False
    position = {v: i for i, v in enumerate(cycle)}
    k = len(cycle)
    for v in T:
        for w in T[v]:
            side = {v}
            stack = [v]
            while stack:
                x = stack.pop()
                for y in T[x]:
                    if y not in side and {x, y} != {v, w}:
                        side.add(y)
                        stack.append(y)
            mark = [False] * k
            for x in side & C:
                mark[position[x]] = True
            changes = sum(mark[i] != mark[i - 1] for i in range(k))
            if changes > 2:
                return False
    return True


def leaf_cycles(G):
    three = [v for v in G if len(G[v]) == 3]
    for size in range(3, len(three) + 1):
        for C in itertools.combinations(three, size):
            if is_leaf_cycle(G, C):
                yield set(C)


def reductions(G, triangles, paths):
    """All graphs one reduction away, as dicts of sets."""
    for v in G:
        if len(G[v]) != 3:
            continue
        for u, w in itertools.combinations(sorted(G[v]), 2):
            if len(G[u]) != 3 or len(G[w]) != 3:
                continue
            if w in G[u]:
                if not triangles:
                    continue
                outs = [next(iter(G[x] - {u, v, w})) for x in (u, v, w)]
                if len(set(outs)) < 3:
                    continue
                H = {x: set(G[x]) - {u, v, w} for x in G
                     if x not in (u, v, w)}
                H[u] = set(outs)
                for x in outs:
                    H[x].add(u)
                yield H
            elif paths:
                apex = G[u] & G[v] & G[w]
                if len(apex) != 1:
                    continue
                H = {x: set(G[x]) - {v} for x in G if x != v}
                H[u].add(w)
                H[w].add(u)
                yield H


def freeze(G):
    return frozenset(frozenset((v, w)) for v in G for w in G[v]), len(G)


def reducible(G, triangles=True, paths=True):
    """Does some sequence of reductions lead to K4?"""
    seen = set()
    stack = [G]
    while stack:
        H = stack.pop()
        key = freeze(H)
        if key in seen:
            continue
        seen.add(key)
        if len(H) == 4:
            if all(len(H[v]) == 3 for v in H):
                return True
            continue
        stack.extend(reductions(H, triangles, paths))
    return False


def wheel(G):
    n = len(G)
    if n < 4:
        return False
    for hub in G:
        if len(G[hub]) == n - 1:
            H = {v: G[v] - {hub} for v in G if v != hub}
            if (all(len(H[v]) == 2 for v in H)
                    and len(oracles.components(H)) == 1):
                return True
    return False


def greedily(G, triangles=True, paths=True):
    """The same for larger graphs: reducing never closes the way to K4."""
    while len(G) > 4:
        G = next(reductions(G, triangles, paths), None)
        if G is None:
            return False
    return len(G) == 4 and all(len(G[v]) == 3 for v in G)


def halin_by_faces(G):
    """Is some face of the graph, drawn in the plane, a leaf cycle?"""
    g = networkx.Graph((v, w) for v in G for w in G[v])
    plane, drawing = networkx.check_planarity(g)
    if not plane or len(g) < len(G):
        return False
    done = set()
    for v, w in drawing.edges():
        if (v, w) not in done:
            face = drawing.traverse_face(v, w, done)
            if is_leaf_cycle(G, face):
                return True
    return False


# ---------------------------------------------------------------- generators

def grow_d3(n, r, p=None):
    """Start from K4 and undo random reductions, triangles with chance p."""
    G = {i: {j for j in range(4) if j != i} for i in range(4)}
    if p is None:
        p = r.choice([0, .3, .5, .7, 1])
    while len(G) < n:
        new = len(G)
        if p == 1 and new + 2 > n:
            break
        if r.random() < p and new + 2 <= n:
            three = [v for v in G if len(G[v]) == 3]
            v = r.choice(three)
            a, b, c = G[v]
            for x in (b, c):
                G[x].discard(v)
            G[v] = {a, new, new + 1}
            G[new] = {b, v, new + 1}
            G[new + 1] = {c, v, new}
            G[b].add(new)
            G[c].add(new + 1)
        else:
            options = [(u, w, x) for u in G for w in G[u] if u < w
                       and len(G[u]) == len(G[w]) == 3
                       for x in G[u] & G[w]]
            if not options:
                p = 1
                continue
            u, w, x = r.choice(options)
            G[u].discard(w)
            G[w].discard(u)
            G[new] = {u, w, x}
            for y in (u, w, x):
                G[y].add(new)
    return len(G), [(v, w) for v in G for w in G[v] if v < w]


def grow_halin(n, r, planar=False):
    """Random plane tree without degree two, plus its leaf cycle."""
    children = {0: []}
    total = 1
    for _ in range(r.choice([3, 3, 4, 5])):
        children[0].append(total)
        children[total] = []
        total += 1
    while total + 2 <= n:
        leaves = [v for v in children if not children[v]]
        v = r.choice(leaves)
        for _ in range(r.choice([2, 2, 3])):
            if total < n or len(children[v]) < 2:
                children[v].append(total)
                children[total] = []
                total += 1
    order = []

    def visit(v):
        if not children[v]:
            order.append(v)
        for w in children[v]:
            visit(w)
    visit(0)
    if not planar and r.random() < .3:      # break planarity, usually
        i, j = r.sample(range(len(order)), 2)
        order[i], order[j] = order[j], order[i]
    edges = [(v, w) for v in children for w in children[v]]
    edges += [(order[i - 1], order[i]) for i in range(len(order))]
    return total, edges


def grow_wheel(n, r):
    n = max(n, 4)
    return n, ([(0, i) for i in range(1, n)]
               + [(i, i % (n - 1) + 1) for i in range(1, n)])


@st.composite
def cases(draw, low=4, high=9):
    n = draw(gens.ints(low, high))
    r = random.Random(draw(gens.SEEDS))
    grow = draw(st.sampled_from([grow_d3, grow_d3, grow_d3, grow_halin,
                                 grow_halin, grow_wheel]))
    n, edges = grow(n, r)
    edges = sorted({(min(e), max(e)) for e in edges})
    if draw(gens.ints(0, 3)) == 0:      # a near miss
        e = tuple(sorted(r.sample(range(n), 2)))
        edges = sorted(set(edges) ^ {e})
    edges, order = gens.scramble(n, edges, r)
    return (n, edges, order, draw(st.sampled_from(gens.LABELS)),
            draw(st.sampled_from(gens.CONTAINERS)))


# -------------------------------------------------------------------- checks

def check(case, t):
    G = gens.undirected(case)
    H = to_int(G)
    back = list(G)
    k4 = len(H) == 4 and all(len(H[v]) == 3 for v in H)
    d3 = reducible(H)
    halin = next(leaf_cycles(H), None) is not None
    t.nontrivial(d3 and len(H) > 4)
    t.label("halin" if halin else "reducible" if d3 else "neither")
    t.check(bool(is_K4(G)) == k4, "is_K4 is not %s", k4)
    t.check(bool(is_D3_reducible(G)) == d3, "is_D3_reducible is not %s", d3)
    t.check(bool(is_halin(G)) == halin, "is_halin is not %s", halin)
    w = wheel(H)
    t.check(bool(is_wheel(G)) == w, "is_wheel is not %s", w)
    dual = reducible(H, paths=False)
    t.check(bool(is_dual_3_tree(G)) == dual, "is_dual_3_tree is not %s", dual)
    if halin:
        index = {v: i for i, v in enumerate(back)}
        leaves = halin_leaf_vertices(G)
        t.check(set(leaves) <= set(G), "unknown leaf")
        t.check(is_leaf_cycle(H, {index[v] for v in leaves}),
                "%r is not a leaf cycle", leaves)
    else:
        t.refuses(TypeError, halin_leaf_vertices, G)
    if d3:
        check_cycle(G, hamiltonian_cycle_D3(G), t)
    else:
        t.refuses(TypeError, hamiltonian_cycle_D3, G)


def check_cycle(G, C, t):
    t.equal(set(C), set(G), "cycle vertices")
    for v in C:
        t.check(len(set(C[v])) == len(list(C[v])) == 2,
                "%r has neighbours %r on the cycle", v, C[v])
        for w in C[v]:
            t.check(w in G[v] and v in C[w], "%r-%r is not a cycle edge", v,
                    w)
    t.check(len(oracles.components(C)) == 1, "several cycles")


@unit("P15", "reducible", quick=8000, cases=cases(high=10), shards=8)
def grown(case, t):
    """Graphs of 4 to 10 vertices grown from K4 by inverse reductions, Halin
    graphs, wheels and near misses; nontrivial when reducible and not K4."""
    check(case, t)


@unit("P15", "random", quick=2500, cases=gens.graphs(max_n=8), floor=0)
def random_graphs(case, t):
    """Random graphs to 8 vertices, mostly to be refused; nontrivial as for
    reducible."""
    check(case, t)


@unit("P15", "small", enum=lambda tier: gens.all_graphs(
    5 if tier == "quick" else 6), floor=0)
def small(case, t):
    """Every graph on up to 5 vertices (6 when thorough); nontrivial as for
    reducible."""
    check(case, t)


@unit("P15", "large", quick=2000, cases=cases(10, 40), shards=8)
def large(case, t):
    """Grown graphs of 10 to 40 vertices and near misses; nontrivial when
    reducible."""
    G = gens.undirected(case)
    H = to_int(G)
    d3 = greedily(H)
    t.nontrivial(d3)
    t.check(bool(is_D3_reducible(G)) == d3, "is_D3_reducible is not %s", d3)
    halin = halin_by_faces(H)
    t.label("halin" if halin else "reducible" if d3 else "neither")
    t.check(bool(is_halin(G)) == halin, "is_halin is not %s", halin)
    dual = greedily(H, paths=False)
    t.check(bool(is_dual_3_tree(G)) == dual, "is_dual_3_tree is not %s", dual)
    t.check(bool(is_wheel(G)) == wheel(H), "is_wheel is not %s", wheel(H))
    if halin:
        index = {v: i for i, v in enumerate(G)}
        t.check(is_leaf_cycle(H, {index[v] for v in halin_leaf_vertices(G)}),
                "not a leaf cycle")
    else:
        t.refuses(TypeError, halin_leaf_vertices, G)
    if d3:
        check_cycle(G, hamiltonian_cycle_D3(G), t)


@st.composite
def members(draw):
    n = draw(gens.ints(4, 40))
    r = random.Random(draw(gens.SEEDS))
    kind = draw(st.sampled_from(["d3", "halin", "wheel", "dual"]))
    if kind == "halin":
        n, edges = grow_halin(n, r, planar=True)
    elif kind == "wheel":
        n, edges = grow_wheel(n, r)
    elif kind == "dual":
        n, edges = grow_d3(n, r, 1)
    else:
        n, edges = grow_d3(n, r)
    edges = sorted({(min(e), max(e)) for e in edges})
    edges, order = gens.scramble(n, edges, r)
    return kind, (n, edges, order, draw(st.sampled_from(gens.LABELS)),
                  draw(st.sampled_from(gens.CONTAINERS)))


@unit("P15", "members", quick=4000, cases=members(), shards=8)
def known(case, t):
    """Graphs of 4 to 40 vertices that belong to a class by construction and
    must be accepted, with a valid certificate; nontrivial beyond K4."""
    kind, graph = case
    G = gens.undirected(graph)
    H = to_int(G)
    t.nontrivial(len(G) > 4)
    t.label(kind)
    t.check(is_D3_reducible(G), "not recognised as reducible")
    check_cycle(G, hamiltonian_cycle_D3(G), t)
    if kind in ("halin", "wheel"):
        t.check(is_halin(G), "not recognised as Halin")
        index = {v: i for i, v in enumerate(G)}
        t.check(is_leaf_cycle(H, {index[v] for v in halin_leaf_vertices(G)}),
                "not a leaf cycle")
    if kind == "wheel":
        t.check(is_wheel(G), "not recognised as a wheel")
    if kind == "dual":
        t.check(is_dual_3_tree(G), "not recognised as dual of a 3-tree")


@unit("P15", "directed", quick=1500, cases=st.tuples(cases(high=10),
                                                     gens.SEEDS))
def directed(case, t):
    """Grown graphs with one edge made one-way; always nontrivial."""
    graph, seed = case
    G = {v: set(ws) for v, ws in gens.undirected(graph).items()}
    r = random.Random(seed)
    v, w = r.choice([(v, w) for v in G for w in G[v]])
    G[v].remove(w)
    t.nontrivial()
    for f in (is_D3_reducible, is_halin, is_wheel, is_dual_3_tree,
              halin_leaf_vertices, hamiltonian_cycle_D3):
        t.refuses(TypeError, f, G)


@unit("P15", "loops", enum=lambda tier: itertools.product(
    range(1, 16), range(64)))
def loops(case, t):
    """Graphs on four vertices with loops are not K4; nontrivial with edges
    other than loops."""
    at, which = case
    G = {v: {v} if at >> v & 1 else set() for v in range(4)}
    for i, (v, w) in enumerate(itertools.combinations(range(4), 2)):
        if which >> i & 1:
            G[v].add(w)
            G[w].add(v)
    t.nontrivial(which)
    t.check(not is_K4(G), "%r is K4", G)
