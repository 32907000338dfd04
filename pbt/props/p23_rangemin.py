import random

from hypothesis import strategies as st

from pads.lca import (LCA, LogarithmicRangeMin, OfflineLCA,
                      PrecomputedRangeMin, RangeMin, RestrictedRangeMin)

from pbt import gens
from pbt.core import unit


def slices(n, r, most=2500):
    """Nonempty and empty slices, all when short."""
    pairs = [(i, j) for i in range(n + 1) for j in range(n + 1)]
    if len(pairs) > most:
        pairs = [(r.randrange(n + 1), r.randrange(n + 1))
                 for _ in range(most)]
        pairs += [(i, i + 1) for i in range(n)] + [(0, n)]
    return pairs


def bound(i, n, r):
    """Another way to write the same slice bound."""
    choice = r.randrange(4)
    if choice == 0 and i < n:
        return i - n
    if choice == 1 and i == n:
        return r.choice([None, n + r.randrange(1, 4)])
    if choice == 2 and i == 0:
        return r.choice([None, -n - r.randrange(1, 4)])
    return i


def check(R, X, r, t, name, empty=False, most=2500):
    n = len(X)
    t.check(len(R) == n, "%s: length %r", name, len(R))
    for i, j in slices(n, r, most):
        if i >= j:
            if empty:
                t.check(R[i:j] is None, "%s[%d:%d] is not None", name, i, j)
            continue
        want = min(X[i:j])
        t.check(R[i:j] == want, "%s[%d:%d] is %r, not %r", name, i, j,
                R[i:j], want)
        first, last = bound(i, n, r), bound(j, n, r)
        if first is None and i or last is None and j != n:
            continue
        if X[first:last] == X[i:j]:
            t.check(R[first:last] == want, "%s[%r:%r] is not %r", name,
                    first, last, want)
    for bad in (0, n, "a", None, (0, 1), slice(None, None, 2),
                slice(None, None, -1)):
        t.refuses(ValueError, R.__getitem__, bad)


@st.composite
def lists(draw, most):
    n = draw(gens.ints(0, most))
    r = random.Random(draw(gens.SEEDS))
    kind = draw(gens.ints(0, 5))
    if kind == 0:
        X = [r.randrange(3) for _ in range(n)]
    elif kind == 1:
        X = [r.randrange(-9, 9) / 2 for _ in range(n)]
    elif kind == 2:
        X = list(range(n))
        if r.random() < .5:
            X.reverse()
    elif kind == 3:
        X = ["".join(r.choice("ab") for _ in range(r.randrange(3)))
             for _ in range(n)]
    elif kind == 4:
        X = [(r.randrange(2), r.randrange(3)) for _ in range(n)]
    else:
        X = [r.randrange(100) for _ in range(n)]
    return X


@unit("P23", "lists", quick=3000, cases=st.tuples(lists(24), gens.SEEDS))
def general(case, t):
    """Lists of up to 24 numbers, strings or pairs, every slice, in the three
    general structures; nontrivial with five or more items not all equal."""
    X, seed = case
    r = random.Random(seed)
    t.nontrivial(len(X) > 4 and min(X) != max(X))
    check(RangeMin(X), X, r, t, "RangeMin", empty=True)
    check(RangeMin(tuple(X)), X, r, t, "RangeMin of tuple", empty=True)
    if X:
        check(LogarithmicRangeMin(X), X, r, t, "LogarithmicRangeMin")
        check(PrecomputedRangeMin(X), X, r, t, "PrecomputedRangeMin")


@unit("P23", "long-lists", quick=120, cases=st.tuples(lists(400), gens.SEEDS))
def long_lists(case, t):
    """Lists of up to 400 items, sampled slices; nontrivial with over 60
    items not all equal."""
    X, seed = case
    r = random.Random(seed)
    t.nontrivial(len(X) > 60 and min(X) != max(X))
    check(RangeMin(X), X, r, t, "RangeMin", empty=True)
    if X:
        check(LogarithmicRangeMin(X), X, r, t, "LogarithmicRangeMin")


@st.composite
def walks(draw, most):
    n = draw(gens.ints(1, most))
    r = random.Random(draw(gens.SEEDS))
    up = r.choice([.5, .5, .2, .8])
    x, X = r.randrange(-3, 4), []
    for _ in range(n):
        X.append(x)
        x += 1 if r.random() < up else -1
    return X, r.randrange(1 << 30)


@unit("P23", "walks", quick=1500, cases=walks(70))
def restricted(case, t):
    """Sequences of up to 70 numbers changing by one, every slice; nontrivial
    with 17 or more numbers (several blocks)."""
    X, seed = case
    r = random.Random(seed)
    t.nontrivial(len(X) > 16)
    check(RestrictedRangeMin(X), X, r, t, "RestrictedRangeMin", most=6000)
    check(RangeMin(X), X, r, t, "RangeMin", most=500, empty=True)


@unit("P23", "long-walks", quick=150, cases=walks(1500))
def long_walks(case, t):
    """Sequences of up to 1500 numbers changing by one, sampled slices;
    nontrivial with over 256 numbers."""
    X, seed = case
    r = random.Random(seed)
    t.nontrivial(len(X) > 256)
    check(RestrictedRangeMin(X), X, r, t, "RestrictedRangeMin")


def all_walks(tier):
    for n in range(1, 10 if tier == "quick" else 13):
        for code in range(1 << (n - 1)):
            X = [0]
            for i in range(n - 1):
                X.append(X[-1] + (1 if code >> i & 1 else -1))
            yield X, code


@unit("P23", "all-walks", enum=all_walks, floor=0)
def short_walks(case, t):
    """Every sequence of up to 9 numbers changing by one (12 when thorough);
    nontrivial with five or more numbers."""
    X, seed = case
    t.nontrivial(len(X) > 4)
    check(RestrictedRangeMin(X), X, random.Random(seed), t,
          "RestrictedRangeMin")


# ------------------------------------------------------------------------ trees

@st.composite
def trees(draw, most):
    """(parent list for nodes 1..n-1, node order, labels, seed)"""
    n = draw(gens.ints(2, most))
    r = random.Random(draw(gens.SEEDS))
    kind = r.randrange(5)
    parents = []
    for i in range(1, n):
        if kind == 0:
            p = r.randrange(i)
        elif kind == 1:
            p = i - 1
        elif kind == 2:
            p = r.randrange(max(0, i - 3), i)
        elif kind == 3:
            p = 0 if r.random() < .7 else r.randrange(i)
        else:
            p = (i - 1) // 2
        parents.append(p)
    order = list(range(1, n))
    r.shuffle(order)
    return parents, order, draw(st.sampled_from(gens.LABELS)), \
        r.randrange(1 << 30)


def build(case):
    parents, order, label, seed = case
    name = gens.labels(label, len(parents) + 1)
    r = random.Random(seed)
    mixed = list(range(len(name)))
    r.shuffle(mixed)
    name = [name[i] for i in mixed]
    return {name[i]: name[parents[i - 1]] for i in order}, name, r


def check_tree(case, t, group=3, queries=None):
    parents, order, label, seed = case
    parent, name, r = build(case)
    n = len(name)
    up = [[0]]
    for i in range(1, n):
        up.append([i] + up[parents[i - 1]])

    def answer(*nodes):
        common = set(up[nodes[0]]).intersection(*[up[i] for i in nodes[1:]])
        return next(i for i in up[nodes[0]] if i in common)
    t.nontrivial(n > 4 and max(len(u) for u in up) > 2)
    pairs = [(i, j) for i in range(n) for j in range(n)]
    if queries and len(pairs) > queries:
        pairs = r.sample(pairs, queries)
    structures = [("LCA", LCA(parent)),
                  ("LCA with sparse table",
                   LCA(parent, LogarithmicRangeMin))]
    if n < 30:
        structures.append(("LCA with table",
                           LCA(parent, PrecomputedRangeMin)))
    for what, A in structures:
        for i, j in pairs:
            got, want = A(name[i], name[j]), name[answer(i, j)]
            t.check(got == want, "%s(%r, %r) is %r, not %r", what, name[i],
                    name[j], got, want)
        for _ in range(20):
            nodes = [r.randrange(n) for _ in range(r.randrange(1, group + 2))]
            got = A(*[name[i] for i in nodes])
            t.check(got == name[answer(*nodes)], "%s of %r is %r", what,
                    [name[i] for i in nodes], got)
    some = [p for p in pairs if r.random() < .6]
    O = OfflineLCA(parent, [(name[i], name[j]) for i, j in some])
    for i, j in some:
        want = name[answer(i, j)]
        t.check(O[name[i]][name[j]] == want and O[name[j]][name[i]] == want,
                "OfflineLCA of %r and %r is not %r", name[i], name[j], want)


@unit("P23", "trees", quick=2500, cases=trees(14))
def small_trees(case, t):
    """Trees of up to 14 nodes of any hashable kind, all pairs and random
    groups, online and offline; nontrivial with five or more nodes and depth
    two or more."""
    check_tree(case, t)


@unit("P23", "big-trees", quick=150, cases=trees(300))
def big_trees(case, t):
    """Trees of up to 300 nodes, sampled pairs and groups; nontrivial as for
    trees."""
    check_tree(case, t, group=6, queries=600)


def all_trees(tier):
    import itertools
    for n in range(2, 6 if tier == "quick" else 8):
        for k, parents in enumerate(itertools.product(
                *[range(i) for i in range(1, n)])):
            yield (list(parents), list(range(1, n)),
                   gens.LABELS[k % len(gens.LABELS)], k)


@unit("P23", "all-trees", enum=all_trees, floor=0)
def every_tree(case, t):
    """Every increasing tree of up to 5 nodes (7 when thorough); nontrivial
    as for trees."""
    check_tree(case, t)


@unit("P23", "not-trees", quick=1500, cases=trees(8))
def not_trees(case, t):
    """Parent maps with a cycle or a second root; nontrivial always."""
    parent, name, r = build(case)
    kind = r.randrange(4)
    extra = ["c%d" % i for i in range(r.randrange(1, 4))]
    if kind == 0:                       # cycle apart from the tree
        for i, x in enumerate(extra):
            parent[x] = extra[i - 1]
        t.label("extra cycle")
    elif kind == 1:                     # root's parent is in the tree
        parent[name[0]] = r.choice(name)
        t.label("no root")
    elif kind == 2:                     # another root
        parent[extra[0]] = "other root"
        t.label("two roots")
    else:
        x = r.choice(list(parent))      # a node that is its own parent
        parent[x] = x
        t.label("own parent")
    children = {}
    for x in parent:
        children.setdefault(parent[x], []).append(x)
    roots = [x for x in children if x not in parent]
    if len(roots) == 1:                 # still a tree?
        seen, todo = set(), [roots[0]]
        while todo:
            x = todo.pop()
            seen.add(x)
            todo += children.get(x, [])
        if len(seen) == len(parent) + 1:
            return
    t.nontrivial()
    t.refuses(ValueError, LCA, parent)
    pairs = [(r.choice(name), r.choice(name)) for _ in range(3)]
    t.refuses(ValueError, OfflineLCA, parent, pairs)
