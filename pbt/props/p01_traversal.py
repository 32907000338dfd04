from hypothesis import strategies as st

from pads import bfs, dfs

from pbt import gens, oracles
from pbt.core import unit


def replay_search(G, events, roots, t):
    """Follow the events with a stack; return preorder and postorder."""
    visited = set()
    stack = []
    todo = []                   # parallel to stack: edges not yet reported
    pre, post = [], []
    for event in events:
        t.check(len(event) == 3, "event %r", event)
        v, w, kind = event
        if kind == dfs.forward:
            if not stack:
                t.check(v == w and v in roots, "root event %r", event)
                t.check(w not in visited, "root %r already visited", w)
            else:
                t.check(v == stack[-1], "%r reported while at %r", event,
                        stack[-1])
                t.check(w not in visited, "tree edge to visited %r", w)
                t.check(w in todo[-1], "edge %r not in graph, or repeated",
                        event)
                todo[-1].remove(w)
            visited.add(w)
            pre.append(w)
            stack.append(w)
            todo.append(list(G[w]))
        elif kind == dfs.nontree:
            t.check(stack and v == stack[-1], "%r out of place", event)
            t.check(w in visited, "nontree edge to new vertex %r", w)
            t.check(w in todo[-1], "edge %r not in graph, or repeated", event)
            todo[-1].remove(w)
        elif kind == dfs.reverse:
            t.check(stack and w == stack[-1], "%r out of place", event)
            t.check(not todo[-1], "left %r with edges unreported", w)
            stack.pop()
            todo.pop()
            post.append(w)
            t.check(v == (stack[-1] if stack else w), "%r returns to the "
                    "wrong vertex", event)
        else:
            t.check(False, "unknown event %r", event)
    t.check(not stack, "search ended inside the graph")
    return pre, post


class Recorder(dfs.Searcher):
    def __init__(self, G):
        self.events = []
        dfs.Searcher.__init__(self, G)

    def preorder(self, parent, child):
        self.events.append((parent, child, dfs.forward))

    def postorder(self, parent, child):
        self.events.append((parent, child, dfs.reverse))

    def backedge(self, source, destination):
        self.events.append((source, destination, dfs.nontree))


def check(case, t):
    G = gens.digraph(case)
    n = len(G)
    limit = 2 * n + sum(len(G[v]) for v in G) + 5

    def bounded(it):
        out = []
        for x in it:
            out.append(x)
            t.check(len(out) <= limit, "too many events")
        return out

    reach = oracles.closure(G)
    t.nontrivial(n > 2 and any(len(G[v]) > 1 for v in G))
    t.label("cyclic" if any(v in reach[v] for v in G) else "acyclic")
    events = bounded(dfs.search(G))
    pre, post = replay_search(G, events, G, t)
    t.check(len(pre) == n and set(pre) == set(G), "not all vertices visited")
    t.equal(bounded(dfs.preorder(G)), pre, "preorder")
    t.equal(bounded(dfs.postorder(G)), post, "postorder")
    t.equal(Recorder(G).events, events, "callback search")
    dfs.Searcher(G)
    for v in list(G)[:4]:
        want = reach[v] | {v}
        events = bounded(dfs.search(G, v))
        pre, post = replay_search(G, events, [v], t)
        t.check(len(pre) == len(want) and set(pre) == want,
                "search from %r visits %r, not %r", v, pre, want)
        t.equal(bounded(dfs.preorder(G, v)), pre, "preorder from vertex")
        t.equal(bounded(dfs.postorder(G, v)), post, "postorder from vertex")
        for w in G:
            t.check(bool(dfs.reachable(G, v, w)) == (w in want),
                    "reachable %r %r", v, w)
        # breadth first
        dist = oracles.distances(G, v)
        levels = bounded(bfs.breadth_first_levels(G, v))
        depth = max(dist.values())
        t.check(len(levels) == depth + 1, "%d levels, not %d", len(levels),
                depth + 1)
        for i, level in enumerate(levels):
            t.check(len(list(level)) == len(set(level)), "repeated vertex")
            t.equal(set(level), {w for w in dist if dist[w] == i},
                    "level %d from %r" % (i, v))
            for u in level:
                t.equal(set(level[u]), {w for w in G[u] if dist[w] == i + 1},
                        "level edges of %r" % (u,))
                t.check(len(list(level[u])) == len(set(level[u])),
                        "repeated level edge")


@unit("P01", "random", quick=6000,
      cases=gens.graphs(directed=True, loops=True, max_n=14))
def random_digraphs(case, t):
    """Random digraphs to 14 vertices of several shapes; nontrivial when some
    vertex has two or more neighbours among three or more vertices."""
    check(case, t)


@unit("P01", "symmetric", quick=3000, cases=gens.graphs(max_n=12))
def random_graphs(case, t):
    """Random undirected graphs searched in both directions of each edge;
    nontrivial as for random."""
    n, edges, order, label, container = case
    check((n, edges + [(j, i) for i, j in edges], order, label, container), t)


@unit("P01", "small", enum=lambda tier: gens.all_digraphs(
    3 if tier == "quick" else 4, 3))
def small(case, t):
    """Every digraph on up to 3 vertices (4 when thorough, loops to 3);
    nontrivial as for random."""
    check(case, t)


@unit("P01", "medium", quick=400, cases=gens.graphs(
    directed=True, loops=True, min_n=15, max_n=60, label=gens.QUICK_LABELS))
def medium(case, t):
    """Random digraphs of 15 to 60 vertices; nontrivial as for random."""
    check(case, t)


@unit("P01", "large", quick=240, cases=gens.graphs(
    directed=True, loops=True, min_n=60, max_n=200,
    label=["int", "str", "tuple"], families=["dag", "path", "almostdag",
                                             "cycles", "function"]), shards=8)
def large(case, t):
    """Mostly sparse digraphs of 60 to 200 vertices; nontrivial as for random."""
    check(case, t)
