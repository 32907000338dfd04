import random
from collections import deque

from hypothesis import strategies as st

from pads.repetitivity import NonrepetitiveGraph

from pbt import gens
from pbt.core import unit


@st.composite
def graphs(draw, most=6, labels=7):
    """(number of vertices, label kind, [(v, w, label)], container kind)"""
    n = draw(gens.ints(1, most))
    k = draw(gens.ints(1, labels))
    r = random.Random(draw(gens.SEEDS))
    count = r.choice([n, 2 * n, 3 * n, n * n, 4 * k])
    edges = set()
    hub = r.randrange(n) if r.random() < .4 else None
    for _ in range(count):
        v, w = r.randrange(n), r.randrange(n)
        if hub is not None and r.random() < .7:
            if r.random() < .5:
                v = hub
            else:
                w = hub
        if v == w and r.random() < .8:
            continue
        edges.add((v, w, r.randrange(k)))
    return n, draw(st.sampled_from(gens.LABELS)), sorted(edges), \
        draw(st.sampled_from(["set", "list", "tuple", "str"])), \
        draw(st.booleans())


def build(case):
    n, label, edges, kind, sinks = case
    names = gens.labels(label, n)
    marks = ["a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k", "l"] \
        if kind == "str" else [1, "b", None, (2,), 4.5, "f", frozenset(),
                               7, "h", 9, "j", 11]
    G = {}
    for v in range(n):
        row = {}
        for a, w, L in edges:
            if a == v:
                row.setdefault(names[w], []).append(marks[L])
        if row or sinks:
            G[names[v]] = {w: "".join(Ls) if kind == "str" else
                           {"set": set, "list": list, "tuple": tuple}[kind](
                               Ls) for w, Ls in row.items()}
    triples = [(names[v], names[w], marks[L]) for v, w, L in edges]
    return G, names, marks, triples


def components(nodes, out):
    """Which nodes are on cycles."""
    on = set()
    for s in nodes:
        seen = set()
        todo = list(out[s])
        while todo:
            x = todo.pop()
            if x not in seen:
                seen.add(x)
                todo += out[x]
        if s in seen:
            on.add(s)
    return on


@unit("P38", "graphs", quick=5000, cases=graphs())
def run(case, t):
    """Digraphs of up to 6 vertices and 7 labels (self-loops included), every
    start and end; nontrivial when some walk has three edges and some vertex
    four labels."""
    check(case, t, 6)


@unit("P38", "many-labels", quick=500, cases=graphs(most=3, labels=12))
def many(case, t):
    """Digraphs of up to 3 vertices and 12 labels; nontrivial as before."""
    check(case, t, 8)


def check(case, t, starts):
    G, names, marks, triples = build(case)
    r = random.Random(repr(case))
    NR = NonrepetitiveGraph(G)
    incident = {}
    for v in G:
        incident.setdefault(v, set())
    for v, w, L in triples:
        incident.setdefault(v, set()).add(L)
        incident.setdefault(w, set()).add(L)
    t.check(set(NR) == set(incident), "vertices %r", list(NR))
    for v in names:
        t.check((v in NR) == (v in incident), "membership of %r", v)
    for v in incident:
        t.check(set(NR[v]) == incident[v], "labels at %r are %r", v, NR[v])
    out = {e: [f for f in triples if f[0] == e[1] and f[2] != e[2]]
           for e in triples}
    got = list(NR.cyclic())
    want = components(triples, out)
    t.check(len(set(got)) == len(got) and set(got) == want,
            "cyclic edges %r, not %r", got, want)
    if want:
        t.label("cyclic")
    pairs = [(v, L) for v in incident for L in incident[v]]
    long = False
    for v, L in r.sample(pairs, min(len(pairs), starts)):
        # breadth first over edges from all edges leaving v with label L
        dist = {}
        queue = deque()
        for e in triples:
            if e[0] == v and e[2] == L:
                dist[e] = 1
                queue.append(e)
        while queue:
            e = queue.popleft()
            for f in out[e]:
                if f not in dist:
                    dist[f] = dist[e] + 1
                    queue.append(f)
        ends = {}
        for (a, w, LL), d in dist.items():
            ends[w, LL] = min(d, ends.get((w, LL), d))
        long = long or any(d > 2 for d in ends.values())
        got = list(NR.reachable(v, L))
        t.check(len(set(got)) == len(got) and set(got) == set(ends),
                "reachable from %r,%r: %r, not %r", v, L, got, ends)
        for w, LL in pairs:
            if (w, LL) not in ends:
                t.refuses(ValueError, NR.shortest, v, L, w, LL)
                continue
            path = NR.shortest(v, L, w, LL)
            t.check(path[0] == v and path[-1] == w
                    and len(path) == ends[w, LL] + 1,
                    "path %r from %r,%r to %r,%r", path, v, L, w, LL)
            allowed = {L}
            for k, (a, b) in enumerate(zip(path, path[1:])):
                here = {x for p, q, x in triples if (p, q) == (a, b)}
                if k:
                    allowed = {x for x in here
                               if any(y != x for y in allowed)}
                else:
                    allowed &= here
            t.check(LL in allowed, "path %r from %r,%r to %r,%r", path, v, L,
                    w, LL)
    t.nontrivial(long and any(len(x) > 3 for x in incident.values()))
    t.check(list(NR.reachable(object(), marks[0])) == [],
            "unknown vertex reaches something")
    for v in incident:
        absent = [L for L in marks if L not in incident[v]]
        if absent:
            t.check(list(NR.reachable(v, absent[0])) == [],
                    "label absent at a vertex reaches something")


@unit("P38", "medium", quick=500, cases=graphs(most=14, labels=9))
def medium(case, t):
    """Digraphs of up to 14 vertices and 9 labels; nontrivial as before."""
    check(case, t, 3)
