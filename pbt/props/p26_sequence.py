import random

from hypothesis import strategies as st

from pads.sequence import Sequence, SequenceError

from pbt import gens
from pbt.core import unit


class Item:
    """Item that can only be told apart by its key."""
    __hash__ = None

    def __init__(self, k, copy=0):
        self.k = k
        self.copy = copy

    def __len__(self):          # some items are false
        return self.k % 2

    def __repr__(self):
        return "Item(%r,%r)" % (self.k, self.copy)


def key_of(x):
    return x.k


def half(x):
    return x // 2


@st.composite
def histories(draw, most=25, items=8):
    r = random.Random(draw(gens.SEEDS))
    n = draw(gens.ints(1, items))
    ops = []
    for _ in range(draw(gens.ints(0, most))):
        ops.append((r.choice(["append", "after", "after", "before", "before",
                              "remove", "remove"]),
                    r.randrange(n), r.randrange(n), r.randrange(2)))
    start = r.sample(range(n), r.randrange(n + 1)) if r.random() < .5 else []
    return (n, draw(st.sampled_from(gens.LABELS + [
        "key", "id", "halves"])), start, ops)


def setup(case, cls):
    """Sequence, function making the item number i, items in order."""
    n, label, start, ops = case
    if label == "key":
        made = [[Item(i, c) for c in (0, 1)] for i in range(n)]
        S = cls([made[i][0] for i in start], key=key_of)

        def item(i, copy):
            return made[i][copy]
    elif label == "id":
        lists = [[i] * (i % 3) for i in range(n)]
        S = cls([lists[i] for i in start], key=id)

        def item(i, copy):
            return lists[i]
    elif label == "halves":
        S = cls([2 * i for i in start], key=half)

        def item(i, copy):
            return 2 * i + copy
    else:
        names = gens.labels(label, n)
        S = cls(names[i] for i in start)

        def item(i, copy):
            return names[i]
    return S, item, [(i, 0) for i in start]


def same(x, y, label):
    return x is y if label in ("key", "id") else x == y


def agree(S, item, model, case, t):
    n, label = case[:2]
    want = [item(i, c) for i, c in model]
    for got in (list(S), [S[k] for k in range(len(want))]):
        t.check(len(got) == len(want)
                and all(same(x, y, label) for x, y in zip(got, want)),
                "sequence %r, not %r", got, want)
    t.check(len(S) == len(want), "length %d of %r", len(S), want)
    t.check(bool(S) == bool(want), "truth value of %r", want)
    for k in (len(want), len(want) + 1):
        t.refuses(IndexError, S.__getitem__, k)
    t.equal(repr(S), "Sequence([" + ",".join(map(repr, want)) + "])", "repr")
    for p, (i, c) in enumerate(model):
        for copy in (c, 1 - c):
            x = item(i, copy)
            t.check(same(S.predecessor(x), want[p - 1], label),
                    "predecessor of %r", x)
            t.check(same(S.successor(x), want[(p + 1) % len(want)], label),
                    "successor of %r", x)


def step(S, item, model, op, t):
    """Apply one operation to both; returns whether it was carried out."""
    name, i, j, c = op
    at = {k: p for p, (k, _) in enumerate(model)}
    x, y = item(i, 0), item(j, c)
    if name == "append":
        if j in at:
            t.refuses(SequenceError, S.append, y)
            return False
        S.append(y)
        model.append((j, c))
    elif name == "remove":
        if j not in at:
            t.refuses(KeyError, S.remove, y)
            return False
        S.remove(y)
        del model[at[j]]
    else:
        insert = S.insertAfter if name == "after" else S.insertBefore
        if i not in at:
            return False
        if j in at:
            t.refuses(SequenceError, insert, x, y)
            return False
        insert(x, y)
        model.insert(at[i] + (name == "after"), (j, c))
    return True


def run(case, t):
    n, label, start, ops = case
    S, item, model = setup(case, Sequence)
    agree(S, item, model, case, t)
    done = []
    for op in ops:
        if step(S, item, model, op, t):
            done.append(op[0])
        agree(S, item, model, case, t)
    t.label("keyed" if label in ("key", "id", "halves") else "plain")
    t.nontrivial(done.count("after") + done.count("before") > 1
                 and "remove" in done)


@unit("P26", "histories", quick=6000, cases=histories())
def short(case, t):
    """Histories of up to 25 operations over up to 8 items, plain or found by
    a key function; nontrivial with two insertions next to an item and a
    removal."""
    run(case, t)


@unit("P26", "long", quick=400, cases=histories(150, 40))
def long(case, t):
    """Histories of up to 150 operations over up to 40 items; nontrivial as
    before."""
    run(case, t)


@unit("P26", "longer", quick=48, cases=histories(300, 150), shards=8)
def longer(case, t):
    """Histories of up to 300 operations over up to 150 items; nontrivial as
    before."""
    run(case, t)
