import random

from hypothesis import strategies as st

from pads.ordered_sequence import (LogarithmicOrderedSequence,
                                   SimpleOrderedSequence)

from pbt import gens
from pbt.core import unit
from pbt.props.p26_sequence import agree, histories, setup, step


def in_order(S, items, t, sample=None, r=None):
    """cmp agrees with positions."""
    pairs = [(i, j) for i in range(len(items)) for j in range(len(items))]
    if sample and len(pairs) > sample:
        pairs = r.sample(pairs, sample)
        pairs += [(i, i + 1) for i in range(len(items) - 1)]
    for i, j in pairs:
        got = S.cmp(items[i], items[j])
        t.check(got == (i > j) - (i < j),
                "cmp of items %d and %d of %d is %r", i, j, len(items), got)


@unit("P27", "histories", quick=4000, cases=histories())
def run(case, t):
    """Histories of up to 25 operations over up to 8 items, plain or keyed, in
    both structures, all pairs compared throughout; nontrivial with two
    insertions next to an item and a removal."""
    n, label, start, ops = case
    for cls in (SimpleOrderedSequence, LogarithmicOrderedSequence):
        S, item, model = setup(case, cls)
        done = []
        agree(S, item, model, case, t)
        in_order(S, [item(i, c) for i, c in model], t)
        for op in ops:
            if step(S, item, model, op, t):
                done.append(op[0])
                in_order(S, [item(i, c) for i, c in model], t)
        agree(S, item, model, case, t)
    t.nontrivial(done.count("after") + done.count("before") > 1
                 and "remove" in done)


@st.composite
def bursts(draw, most=6, length=150):
    """Runs (where, operation, count)."""
    r = random.Random(draw(gens.SEEDS))
    runs = []
    for _ in range(draw(gens.ints(1, most))):
        runs.append((r.randrange(1000), r.choice(
            ["before same", "before new", "after same", "after new",
             "alternate", "append", "remove"]),
            r.choice([5, 40, 70, length])))
    return draw(st.booleans()), draw(st.booleans()), runs


@unit("P27", "bursts", quick=300, cases=bursts())
def crowded(case, t):
    """Runs of up to 150 insertions at one place, exhausting the gaps between
    labels, in both structures; nontrivial with a run of 70 or more."""
    simple, keyed, runs = case
    r = random.Random(repr(case))
    cls = SimpleOrderedSequence if simple else LogarithmicOrderedSequence
    t.label(cls.__name__)
    t.nontrivial(any(count >= 70 and op != "remove"
                     for _, op, count in runs))
    fresh = iter(range(10 ** 6))
    if keyed:
        S = cls(key=lambda x: -x[0])

        def new():
            return [next(fresh)]
    else:
        S = cls()

        def new():
            return next(fresh)
    model = []
    for where, op, count in runs:
        if not model:
            model.append(new())
            S.append(model[0])
        at = where % len(model)
        flip = 0
        for _ in range(count):
            if op == "remove":
                if len(model) > 1:
                    S.remove(model.pop(where % len(model)))
                continue
            x = new()
            if op == "append":
                S.append(x)
                model.append(x)
                continue
            side = op.split()[0]
            if op == "alternate":
                side = ["before", "after"][flip]
                flip = 1 - flip
            if side == "before":
                S.insertBefore(model[at], x)
                model.insert(at, x)
                if op != "before new":
                    at += 1
            else:
                S.insertAfter(model[at], x)
                model.insert(at + 1, x)
                if op != "after same":
                    at += 1
            i, j = r.randrange(len(model)), r.randrange(len(model))
            t.check(S.cmp(model[i], model[j]) == (i > j) - (i < j),
                    "order of items %d and %d", i, j)
        in_order(S, model, t, 300, r)
        t.check(list(S) == model, "sequence")
    t.check(len(S) == len(model), "length")


@unit("P27", "crowds", quick=12, thorough=200, cases=st.tuples(
    st.booleans(), gens.SEEDS), floor=0)
def crowds(case, t):
    """Two thousand random insertions clustered near a few places; nontrivial
    always."""
    simple, seed = case
    t.nontrivial()
    r = random.Random(seed)
    cls = SimpleOrderedSequence if simple else LogarithmicOrderedSequence
    S = cls([0])
    model = [0]
    for x in range(1, 2000):
        if x % 100 == 1:
            centre = r.randrange(len(model))
        at = min(len(model) - 1, centre + r.randrange(3))
        if r.random() < .5:
            S.insertBefore(model[at], x)
            model.insert(at, x)
        else:
            S.insertAfter(model[at], x)
            model.insert(at + 1, x)
    in_order(S, model, t, 3000, r)
    t.check(list(S) == model, "sequence")
