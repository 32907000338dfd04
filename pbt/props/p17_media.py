import random

from hypothesis import strategies as st

from pads.medium import (BitvectorMedium, ExplicitMedium, HypercubeEmbedding,
                         LabeledGraphMedium, Medium, MediumError, RoutingTable,
                         StateTransitionGraph)

from pbt import gens, oracles
from pbt.core import unit


def cube_distance(states, a):
    """Distances from a moving one bit at a time inside the set."""
    dist = {a: 0}
    frontier = [a]
    bits = max(states).bit_length() if states else 0
    while frontier:
        nxt = []
        for s in frontier:
            for i in range(bits):
                u = s ^ (1 << i)
                if u in states and u not in dist:
                    dist[u] = dist[s] + 1
                    nxt.append(u)
        frontier = nxt
    return dist


def isometric(states):
    for a in states:
        dist = cube_distance(states, a)
        if any(dist.get(b) != bin(a ^ b).count("1") for b in states):
            return False
    return True


def grow(size, bits, r):
    """Random isometric subset of the hypercube."""
    states = {r.randrange(1 << bits)}
    for _ in range(4 * size):
        if len(states) >= size:
            break
        new = r.choice(sorted(states)) ^ (1 << r.randrange(bits))
        if new not in states and isometric(states | {new}):
            states.add(new)
    return sorted(states)


@st.composite
def media(draw, most=12, width=5):
    bits = draw(gens.ints(1, width))
    r = random.Random(draw(gens.SEEDS))
    states = grow(draw(gens.ints(1, most)), bits, r)
    r.shuffle(states)
    extra = draw(gens.ints(0, 1))
    if r.random() < .15:        # spread out to long vectors
        at = sorted(r.sample(range(80), bits))
        states = [sum((s >> i & 1) << k for i, k in enumerate(at))
                  for s in states]
        bits = at[-1] + 1
    return states, bits + extra


def used(states, bits):
    return {i for i in range(bits)
            if len({s >> i & 1 for s in states}) == 2}


def same(M, states, tokens, reverse, action, name, t):
    """M has the given states, tokens and behaviour."""
    t.check(isinstance(M, Medium), "%s is not a medium", name)
    for got in (list(M.states()), list(M)):
        t.check(len(got) == len(states) and set(got) == set(states),
                "%s: states %r", name, got)
    t.check(len(M) == len(states), "%s: length", name)
    got = list(M.tokens())
    t.check(len(got) == len(tokens) and set(got) == set(tokens),
            "%s: tokens %r", name, got)
    for k in tokens:
        t.equal(M.reverse(k), reverse(k), "%s: reverse of %r" % (name, k))
    for s in states:
        row = M[s]
        t.equal(set(row), set(tokens), "%s: tokens from state" % name)
        for k in tokens:
            want = action(s, k)
            t.check(M.action(s, k) == want and M(s, k) == want
                    and row[k] == want, "%s: action of %r on %r", name, k, s)


class Plain(Medium):
    """Medium with only the four required methods."""

    def __init__(self, M):
        self.M = M

    def states(self):
        return self.M.states()

    def tokens(self):
        return self.M.tokens()

    def reverse(self, token):
        return self.M.reverse(token)

    def action(self, state, token):
        return self.M.action(state, token)


def check_forms(states, bits, t):
    """Check the three forms; return one of each."""
    all_tokens = [(i, b) for i in range(bits) for b in (False, True)]

    def reverse(k):
        return k[0], not k[1]

    def action(s, k):
        u = s | 1 << k[0] if k[1] else s & ~(1 << k[0])
        return u if u in states else s

    B = BitvectorMedium(iter(states), bits)
    same(B, states, all_tokens, reverse, action, "bit vectors", t)
    E = ExplicitMedium(B)
    same(E, states, all_tokens, reverse, action, "explicit", t)
    G = StateTransitionGraph(B)
    t.equal(set(G), set(states), "graph states")
    live = used(states, bits)
    for s in G:
        want = {s ^ 1 << i: (i, not s >> i & 1) for i in range(bits)
                if s ^ 1 << i in states}
        t.equal(dict(G[s]), {u: (i, bool(b)) for u, (i, b) in want.items()},
                "transitions of %r" % s)
    L = LabeledGraphMedium(G)
    live_tokens = [k for k in all_tokens if k[0] in live]
    same(L, states, live_tokens, reverse, action, "labelled graph", t)
    t.equal(StateTransitionGraph(L), G, "graph of labelled graph")
    P = Plain(B)
    same(P, states, all_tokens, reverse, action, "base class", t)
    same(ExplicitMedium(L), states, live_tokens, reverse, action,
         "explicit from graph", t)
    return [B, E, L, P]


def forms(case, t):
    order, bits = case
    states = set(order)
    live = used(states, bits)
    distance = {a: cube_distance(states, a) for a in states}
    far = max(max(d.values()) for d in distance.values())
    t.nontrivial(far > 1 and len(live) > 2)
    t.label("diameter %d" % min(far, 5))
    for M in check_forms(states, bits, t):
        R = RoutingTable(M)
        t.equal(set(R), {(a, b) for a in states for b in states if a != b},
                "routed pairs")
        for a, b in R:
            seen = set()
            s = a
            while s != b:
                k = R[s, b]
                t.check(k not in seen and M.reverse(k) not in seen,
                        "token %r repeated from %r to %r", k, a, b)
                seen.add(k)
                u = M(s, k)
                t.check(distance[u][b] == distance[s][b] - 1,
                        "token %r from %r towards %r", k, s, b)
                s = u
        H = HypercubeEmbedding(M)
        t.equal(set(H), states, "embedded states")
        for a in states:
            for b in states:
                t.check(bin(H[a] ^ H[b]).count("1") == distance[a][b],
                        "embedded distance of %r and %r", a, b)


@unit("P17", "names", quick=1500, cases=st.tuples(
    media(9), st.sampled_from(gens.LABELS), st.sampled_from(gens.LABELS)))
def names(case, t):
    """Media as labelled graphs with arbitrary states and tokens; nontrivial
    as for forms."""
    (order, bits), slabel, klabel = case
    name = dict(zip(order, gens.labels(slabel, len(order))))
    tok = gens.labels(klabel, 2 * bits)
    G = {name[s]: {name[s ^ 1 << i]: tok[2 * i + (s >> i & 1)]
                   for i in range(bits) if s ^ 1 << i in name}
         for s in order}
    M = LabeledGraphMedium(G)
    states = set(order)
    t.nontrivial(len(states) > 3)
    t.equal(StateTransitionGraph(M), G, "transition graph")
    R = RoutingTable(M)
    H = HypercubeEmbedding(M)
    for a in order:
        dist = cube_distance(states, a)
        for b in order:
            t.check(bin(H[name[a]] ^ H[name[b]]).count("1") == dist[b],
                    "embedded distance")
            if a != b:
                # dist is symmetric: from name[b], route to name[a]
                k = R[name[b], name[a]]
                c = [s for s in order if name[s] == M(name[b], k)]
                t.check(len(c) == 1 and dist[c[0]] == dist[b] - 1,
                        "route from %r to %r", b, a)


@unit("P17", "malformed", quick=3000, cases=st.tuples(media(9), gens.SEEDS))
def malformed(case, t):
    """Labelled graphs with one fault: a one-way edge, a token used twice at a
    state, or a token with two reverses; nontrivial when a fault was made."""
    (order, bits), seed = case
    states = set(order)
    r = random.Random(seed)
    G = {s: {s ^ 1 << i: (i, bool(~s >> i & 1)) for i in range(bits)
             if s ^ 1 << i in states} for s in order}
    edges = [(s, u) for s in order for u in G[s]]
    if not edges:
        return
    s, u = r.choice(edges)
    kind = r.randrange(5)
    if kind == 4:
        others = [x for x in G[s] if x != u]
        if not others:
            return
        x = r.choice(others)
        G[s][u], G[u][s] = G[s][x], G[x][s]
        t.label("edge twice")
    elif kind == 0:
        del G[s][u]
        t.label("one way")
    elif kind == 1:
        others = [x for x in G[s] if x != u]
        if not others:
            return
        G[s][u] = G[s][r.choice(others)]
        t.label("token twice")
    elif kind == 2:
        used = {G[a][b] for a, b in edges if (a, b) != (s, u)}
        others = sorted(used - set(G[s].values()) - {G[u][s]})
        if not others:
            return
        G[s][u] = r.choice(others)  # now it has two reverses
        t.label("swapped token")
    else:
        others = [e for e in edges if G[e[0]][e[1]] == G[s][u]
                  and e != (s, u)]
        if not others:
            return
        G[s][u] = "new"     # now its reverse has two reverses
        t.label("two reverses")
    t.nontrivial()
    t.refuses(MediumError, LabeledGraphMedium, G)
    for label in (r.choice(gens.LABELS), "falsy"):  # with other names
        first = [v for v in (s, u, *G[s]) if r.random() < .5]
        name = dict(zip(dict.fromkeys(first + order),
                        gens.labels(label, len(order))))
        tokens = sorted({k for v in G for k in G[v].values()}, key=repr)
        r.shuffle(tokens)
        other = dict(zip(tokens, gens.labels(label, len(tokens))))
        t.refuses(MediumError, LabeledGraphMedium, {
            name[v]: {name[w]: other[k] for w, k in G[v].items()}
            for v in G})


class Parallel(Medium):
    """Two tokens with the same effect."""

    def __init__(self, M, k):
        self.M = M
        self.k = k

    def states(self):
        return self.M.states()

    def tokens(self):
        yield from self.M.tokens()
        yield "extra", True
        yield "extra", False

    def reverse(self, token):
        if token[0] == "extra":
            return "extra", not token[1]
        return self.M.reverse(token)

    def action(self, state, token):
        if token[0] == "extra":
            return self.M.action(state, (self.k, token[1]))
        return self.M.action(state, token)


class Renamed(Medium):
    """The tokens of another medium with other names."""

    def __init__(self, M, tokens, label):
        self.M = M
        self.given = tokens
        self.names = gens.labels(label, len(tokens))

    def states(self):
        return self.M.states()

    def tokens(self):
        return iter(self.names)

    def reverse(self, token):
        other = self.M.reverse(self.given[self.names.index(token)])
        return self.names[self.given.index(other)]

    def action(self, state, token):
        return self.M.action(state, self.given[self.names.index(token)])


@unit("P17", "parallel", quick=500, cases=media(8))
def parallel(case, t):
    """A medium with a duplicated token, which has no transition graph;
    nontrivial when the token has an effect."""
    order, bits = case
    live = sorted(used(set(order), bits))
    if not live:
        return
    t.nontrivial()
    M = Parallel(BitvectorMedium(order, bits), live[0])
    t.refuses(MediumError, StateTransitionGraph, M)
    tokens = list(M.tokens())
    for given in (tokens, tokens[::-1], tokens[2 * live[0]:]
                  + tokens[:2 * live[0]]):
        for label in ("int", "falsy"):
            t.refuses(MediumError, StateTransitionGraph,
                      Renamed(M, given, label))


@unit("P17", "forms", quick=4000, cases=media())
def few_states(case, t):
    """Media of up to 12 states on up to 6 of up to 81 bits in every form, with
    routing tables and embeddings; nontrivial with three or more tokens pairs in use
    and a pair of states at distance two or more."""
    forms(case, t)


@unit("P17", "medium", quick=300, cases=media(32, 10))
def more_states(case, t):
    """Media of up to 32 states on up to 11 of up to 81 bits; nontrivial as for forms."""
    forms(case, t)
