import random

from hypothesis import strategies as st

from pads.bucketqueue import BucketQueue

from pbt import gens
from pbt.core import unit


@st.composite
def histories(draw, items=9, most=30):
    r = random.Random(draw(gens.SEEDS))
    n = draw(gens.ints(1, items))
    width = r.choice([2, 5, 30, 400])
    low = r.choice([0, -5, 3, -40])
    ops = []
    for _ in range(draw(gens.ints(0, most))):
        kind = r.random()
        i = r.randrange(n)
        if kind < .5:
            ops.append(("set", i, low + r.randrange(width)))
        elif kind < .65:
            ops.append(("shift", i, r.randrange(-3, 4)))
        elif kind < .8:
            ops.append(("delete", i, 0))
        elif kind < .95:
            ops.append(("next", r.randrange(2),
                        r.randrange(1, 2 + items // 4)))
        else:
            ops.append(("fresh", r.randrange(2), 0))
    return n, draw(st.sampled_from(gens.LABELS)), ops


def agree(Q, model, names, t):
    t.check(len(Q) == len(model), "length %d of %r", len(Q), model)
    for v in names:
        t.check((v in Q) == (v in model), "membership of %r", v)
        if v in model:
            t.equal(Q[v], model[v], "priority of %r" % (v,))
        else:
            t.refuses(KeyError, Q.__getitem__, v)


def run(case, t):
    n, label, ops = case
    names = gens.labels(label, n)
    looking = len(ops) % 3 > 0      # else only at the end
    Q = BucketQueue()
    model = {}
    iterators = [iter(Q), Q.items()]
    dead = [False, False]
    changed = False

    def drawn(got, pairs):
        v = got
        if pairs:
            v, p = got
            t.check(v in model and p == model[v],
                    "drew %r from %r", got, model)
        t.check(v in model, "drew absent item %r", v)
        t.check(model[v] == min(model.values()),
                "drew %r of priority %r from %r", v, model[v], model)
        t.nontrivial(changed and len(model) > 2)
        del model[v]

    agree(Q, model, names, t)
    for op, i, x in ops:
        if op == "set":
            changed = changed or model.get(names[i], x) != x
            Q[names[i]] = x
            model[names[i]] = x
        elif op == "shift" and names[i] in model:
            changed = True
            Q[names[i]] += x
            model[names[i]] += x
        elif op == "delete":
            if names[i] in model:
                del Q[names[i]]
                del model[names[i]]
            else:
                t.refuses(KeyError, Q.__delitem__, names[i])
        elif op == "next":
            for _ in range(x):
                if dead[i]:
                    break
                try:
                    got = next(iterators[i])
                except StopIteration:
                    t.check(not model, "queue ended with %r left", model)
                    dead[i] = True
                else:
                    drawn(got, i == 1)
                    if looking:
                        agree(Q, model, names, t)
        elif op == "fresh":
            iterators[i] = Q.items() if i else iter(Q)
            dead[i] = False
        if looking:
            agree(Q, model, names, t)
    kind = len(ops) % 2
    for got in (Q.items() if kind else Q):
        drawn(got, kind)
    t.check(not model, "drain left %r", model)
    agree(Q, model, names, t)


@unit("P25", "priorities", quick=500, cases=st.tuples(
    st.sampled_from([1.0, 0.5, "1", None, (1,), [1], 2 + 0j]),
    gens.ints(0, 3)))
def not_integers(case, t):
    """Priorities that are not integers; nontrivial always."""
    bad, count = case
    t.nontrivial()
    Q = BucketQueue()
    for i in range(count):
        Q[i] = 5 - i
    t.refuses(TypeError, Q.__setitem__, "x", bad)
    t.check("x" not in Q and len(Q) == count, "refused item was added")
    if count:
        t.refuses(TypeError, Q.__setitem__, 0, bad)
        t.check(Q[0] == 5, "refused priority was set")
    t.equal(list(Q.items()), [(i, 5 - i) for i in range(count)][::-1],
            "drain")


@unit("P25", "histories", quick=8000, cases=histories())
def short(case, t):
    """Histories of up to 30 operations (set, shift, delete, draw some items
    from a running iterator, start a new iterator) over up to 9 items, then a
    full drain; nontrivial when a drawn item had company and an earlier
    operation changed a priority."""
    run(case, t)


@unit("P25", "long", quick=400, cases=histories(50, 200))
def long(case, t):
    """Histories of up to 200 operations over up to 50 items; nontrivial as
    before."""
    run(case, t)


class Rank(int):
    pass


@unit("P25", "kinds", quick=300, cases=st.lists(st.tuples(
    gens.ints(-2, 2), st.sampled_from([int, bool, Rank])), max_size=6))
def kinds_of_integers(case, t):
    """Priorities that are truth values or of a subclass of int; nontrivial
    with two or more items."""
    t.nontrivial(len(case) > 1)
    Q = BucketQueue()
    for i, (p, kind) in enumerate(case):
        Q[i] = kind(p)
    want = [int(kind(p)) for p, kind in case]
    t.equal([Q[i] for i in range(len(case))], want, "priorities")
    got = list(Q.items())
    t.equal([p for i, p in got], sorted(want), "order of priorities")
    t.equal(sorted(got), sorted(enumerate(want)), "items")


@unit("P25", "longer", quick=80, cases=histories(200, 800), shards=8)
def longer(case, t):
    """Histories of up to 800 operations over up to 200 items; nontrivial as
    before."""
    run(case, t)
