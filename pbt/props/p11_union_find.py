import random

from hypothesis import strategies as st

from pads.union_find import UnionFind

from pbt import gens
from pbt.core import unit


@st.composite
def histories(draw):
    label = draw(st.sampled_from(gens.LABELS))
    item = gens.ints(0, draw(gens.ints(1, 11)))
    op = st.one_of(
        st.tuples(st.just("get"), item),
        st.tuples(st.just("union"), st.lists(item, min_size=1, max_size=4)),
        st.tuples(st.just("union"), st.lists(item, min_size=2, max_size=2)))
    size = draw(gens.ints(0, 30))
    return label, draw(st.lists(op, min_size=size, max_size=size))


def check(case, t):
    """Compare with explicit sets.  Looking an item up may change the
    structure, so each history is run twice: looking at every item after
    every operation, and looking at nothing but the list of items until the
    end, deepest items first."""
    for looking in (True, False):
        run(case, t, looking)


def run(case, t, looking):
    label, ops = case
    items = gens.labels(label, 200)
    X = UnionFind()
    part = {}               # item -> its set (shared mutable)
    names = {}              # frozenset -> name it had

    def look(order):
        now = {}
        for mine in {id(part[x]): part[x] for x in part}.values():
            mine = order(mine)
            name = now[frozenset(mine)] = X[mine[0]]
            for x in mine:
                got = X[x]
                t.check(got in part[x], "%r names the set of %r", got, x)
                t.check(got == name, "two names for one set")
        t.check(len(set(now.values())) == len(now), "one name for two sets")
        for key, name in now.items():
            if key in names:
                t.check(names[key] == name, "unchanged set renamed")
        return now

    for kind, arg in ops:
        if kind == "get":
            x = items[arg]
            part.setdefault(x, {x})
            name = X[x]
            t.check(name in part[x], "%r names the set of %r", name, x)
        else:
            xs = [items[i] for i in arg]
            old = {id(part.setdefault(x, {x})): part[x] for x in xs}
            merged = set().union(*old.values())
            t.nontrivial(sum(len(s) > 1 for s in old.values()) > 1)
            for x in merged:
                part[x] = merged
            X.union(*xs)
        listed = list(X)
        t.check(len(listed) == len(part) and set(listed) == set(part),
                "items listed: %r", listed)
        if looking:
            names = look(list)
    if not looking:
        place = {x: i for i, x in enumerate(items)}
        look(lambda mine: sorted(mine, key=place.get, reverse=True))
        look(list)


@unit("P11", "history", quick=6000, cases=histories())
def short(case, t):
    """Histories of up to 30 lookups and merges of up to 12 items; nontrivial
    when some merge joins two sets of two or more items."""
    check(case, t)


@st.composite
def long_histories(draw):
    """Merges of many items: in pairs of growing sets, in a chain, at
    random."""
    r = random.Random(draw(gens.SEEDS))
    n = draw(gens.ints(20, 200))
    kind = r.randrange(4)
    ops = []
    if kind == 0:                       # tournament
        k, turn = 1, r.random() < .5
        while k < n:
            for i in range(0, n - k, 2 * k):
                pair = [i + r.choice([0, r.randrange(k)]), i + k]
                if turn:
                    r.shuffle(pair)
                ops.append(("union", pair))
            k *= 2
    elif kind == 1:
        ops = [("union", [i + 1, i] if r.random() < .5 else [i, i + 1])
               for i in range(n - 1)]
    elif kind == 2:
        ops = [("union", r.sample(range(n), r.choice([2, 2, 2, 3, 9])))
               for _ in range(n // 2)]
    else:
        ops = [("union", r.sample(range(n), n // 2)),
               ("union", list(range(n)))]
    for _ in range(5):
        ops.insert(r.randrange(len(ops) + 1), ("get", r.randrange(n)))
    return draw(st.sampled_from(gens.QUICK_LABELS)), ops


@unit("P11", "long", quick=300, cases=long_histories())
def long(case, t):
    """Up to 200 items merged in rounds, in a chain, at random or many at
    once; nontrivial as for history."""
    check(case, t)
