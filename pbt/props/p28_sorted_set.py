import random

from hypothesis import strategies as st

from pads.sorted_set import SortedSet

from pbt import gens
from pbt.core import unit


@st.composite
def histories(draw, items=9, most=30):
    r = random.Random(draw(gens.SEEDS))
    n = draw(gens.ints(1, items))
    ops = []
    for _ in range(draw(gens.ints(0, most))):
        ops.append((r.choice(["add", "add", "remove", "update", "change",
                              "list", "list", "part"]), r.randrange(n),
                    r.randrange(20)))
    start = [r.randrange(n) for _ in range(r.randrange(n + 1))]
    return n, draw(st.sampled_from(["default", "str", "reverse", "weights"])), \
        start, ops, r.randrange(1 << 20)


def run(case, t):
    n, kind, start, ops, seed = case
    r = random.Random(seed)
    items = list(range(n)) if kind != "str" else ["%d" % (i * 37 % 100)
                                                  for i in range(n)]
    weight = {x: r.randrange(20) for x in items}

    def sort_key(x):
        if kind == "weights":
            return weight[x]
        return -x if kind == "reverse" else x

    def comparison(x, y):
        a, b = sort_key(x), sort_key(y)
        return (a > b) - (a < b)
    first = [items[i] for i in start]
    if kind in ("default", "str"):
        S = SortedSet(first)
    else:
        S = SortedSet(iter(first), comparison)
    model = set(first)
    listed = dirty = False

    def listing(got):
        t.check(len(got) == len(model) and set(got) == model,
                "iteration gives %r, members %r", got, model)
        keys = [sort_key(x) for x in got]
        t.check(keys == sorted(keys), "iteration %r is not sorted", got)

    for op, i, w in ops:
        x = items[i]
        if op == "add":
            S.add(x)
            dirty = dirty or x not in model
            model.add(x)
        elif op == "remove":
            if x in model:
                S.remove(x)
                model.remove(x)
                dirty = True
            else:
                t.refuses(KeyError, S.remove, x)
        elif op in ("change", "update") and x in model:
            if op == "change":
                dirty = dirty or weight[x] != w
                weight[x] = w
            S.update(x)
        elif op == "part":
            it = iter(S)
            for _ in range(w % 4):
                next(it, None)
            listed = True
        elif op == "list":
            t.nontrivial(listed and dirty)
            listed, dirty = True, False
            listing(list(S))
        t.check(len(S) == len(model), "length %d, members %r", len(S), model)
    listing(list(S))
    listing(list(S))


@unit("P28", "same-twice", quick=500, cases=st.tuples(
    st.lists(st.integers(-9, 9), max_size=8), st.integers(-9, 9)))
def twice(case, t):
    """Adding a member again, before and after iterating; nontrivial when it
    was there."""
    start, x = case
    t.nontrivial(x in start)
    S = SortedSet(start)
    for _ in range(3):
        S.add(x)
        t.equal(list(S), sorted(set(start) | {x}), "members")
        S.remove(x)
        S.add(x)
        S.add(x)
        t.equal(list(S), sorted(set(start) | {x}), "members")
        t.equal(len(S), len(set(start) | {x}), "length")


@unit("P28", "histories", quick=8000, cases=histories())
def short(case, t):
    """Histories of up to 30 additions, removals, flagged changes and
    iterations over up to 9 items with four comparisons; nontrivial when an
    iteration follows both another iteration and a change since."""
    run(case, t)


@unit("P28", "long", quick=500, cases=histories(80, 200))
def long(case, t):
    """Histories of up to 200 operations over up to 80 items; nontrivial as
    before."""
    run(case, t)


@unit("P28", "longer", quick=80, cases=histories(300, 900), shards=8)
def longer(case, t):
    """Histories of up to 900 operations over up to 300 items; nontrivial as
    before."""
    run(case, t)
