"""Reference algorithms, written for obviousness and independent of pads.

Graphs here are dicts of iterables (or anything with the same interface).
"""
import itertools


def edges_of(G):
    return [(v, w) for v in G for w in G[v]]


def unordered(G):
    return {frozenset((v, w)) for v in G for w in G[v]}


def closure(G):
    """dict v -> set of vertices reachable from v by one or more edges."""
    reach = {v: set(G[v]) for v in G}
    for k in G:
        for v in G:
            if k in reach[v]:
                reach[v] |= reach[k]
    return reach


def distances(G, root):
    dist = {root: 0}
    frontier = [root]
    while frontier:
        nxt = []
        for v in frontier:
            for w in G[v]:
                if w not in dist:
                    dist[w] = dist[v] + 1
                    nxt.append(w)
        frontier = nxt
    return dist


def has_cycle(G):
    reach = closure(G)
    return any(v in reach[v] for v in G)


def components(G, removed=()):
    """Connected components of an undirected graph, as sets."""
    left = [v for v in G if v not in removed]
    seen = set()
    out = []
    for v in left:
        if v in seen:
            continue
        comp = {v}
        stack = [v]
        while stack:
            u = stack.pop()
            for w in G[u]:
                if w not in comp and w not in removed:
                    comp.add(w)
                    stack.append(w)
        seen |= comp
        out.append(comp)
    return out


def is_symmetric(G):
    return all(w in G and v in G[w] and v != w for v in G for w in G[v])


def biconnected(G):
    """Connected and still so after removing any one vertex."""
    if len(components(G)) > 1:
        return False
    return all(len(components(G, {v})) <= 1 for v in G)


def blocks(G):
    """Biconnected components: list of (vertex set, edge set).

    Two edges sharing a vertex v are in the same block iff their other ends
    are connected after removing v.
    """
    edges = list(unordered(G))
    parent = {e: e for e in edges}

    def find(e):
        while parent[e] != e:
            e = parent[e]
        return e
    for v in G:
        comp = {}
        for i, c in enumerate(components(G, {v})):
            for w in c:
                comp[w] = i
        first = {}
        for w in G[v]:
            e = frozenset((v, w))
            i = comp[w]
            if i in first:
                parent[find(e)] = find(first[i])
            else:
                first[i] = e
    groups = {}
    for e in edges:
        groups.setdefault(find(e), set()).add(e)
    out = [(set().union(*es), es) for es in groups.values()]
    out += [({v}, set()) for v in G if not G[v]]
    return out


def two_coloring(G):
    """Colouring dict or None."""
    color = {}
    for root in G:
        if root in color:
            continue
        color[root] = 0
        stack = [root]
        while stack:
            v = stack.pop()
            for w in G[v]:
                if w not in color:
                    color[w] = 1 - color[v]
                    stack.append(w)
                elif color[w] == color[v]:
                    return None
    return color


def bipartite_matching(adj, skip_left=(), skip_right=()):
    """Maximum matching size and dict right -> left, by augmenting paths."""
    match = {}

    def augment(u, seen):
        for w in adj[u]:
            if w in seen or w in skip_right:
                continue
            seen.add(w)
            if w not in match or augment(match[w], seen):
                match[w] = u
                return True
        return False
    size = sum(augment(u, set()) for u in adj if u not in skip_left)
    return size, match


def maximum_matching_size(G):
    """Exact, by dynamic programming over vertex subsets (small graphs)."""
    order = list(G)
    index = {v: i for i, v in enumerate(order)}
    adj = [0] * len(order)
    for v in G:
        for w in G[v]:
            adj[index[v]] |= 1 << index[w]
    memo = {0: 0}

    def best(mask):
        if mask in memo:
            return memo[mask]
        low = mask & -mask
        rest = mask ^ low
        i = low.bit_length() - 1
        result = best(rest)
        nbrs = adj[i] & rest
        while nbrs:
            b = nbrs & -nbrs
            nbrs ^= b
            result = max(result, 1 + best(rest ^ b))
        memo[mask] = result
        return result
    return best((1 << len(order)) - 1)


def is_chordal(G):
    """Repeatedly remove a simplicial vertex."""
    left = {v: set(G[v]) for v in G}
    while left:
        for v, ws in left.items():
            if all(b in left[a] for a, b in itertools.combinations(ws, 2)):
                break
        else:
            return False
        for w in left[v]:
            left[w].discard(v)
        del left[v]
    return True


def k_core(G, k):
    left = {v: set(G[v]) for v in G}
    while True:
        low = [v for v in left if len(left[v]) < k]
        if not low:
            return set(left)
        for v in low:
            for w in left[v]:
                if w in left:
                    left[w].discard(v)
            del left[v]


def degeneracy(G):
    k = 0
    while k_core(G, k + 1):
        k += 1
    return k


def triangles(G):
    return {frozenset(t) for t in itertools.combinations(list(G), 3)
            if all(b in G[a] for a, b in itertools.combinations(t, 2))}


def hamiltonian_cycles(G):
    """Set of frozensets of edges (frozensets)."""
    order = list(G)
    n = len(order)
    found = set()
    if n < 3:
        return found
    start = order[0]
    path = [start]
    used = {start}

    def extend():
        v = path[-1]
        if len(path) == n:
            if start in G[v]:
                found.add(frozenset(frozenset((path[i], path[i - 1]))
                                    for i in range(n)))
            return
        for w in G[v]:
            if w not in used:
                used.add(w)
                path.append(w)
                extend()
                path.pop()
                used.discard(w)
    extend()
    return found
