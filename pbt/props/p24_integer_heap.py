import random

from hypothesis import strategies as st

from pads.integer_heap import BitVectorHeap, FlatHeap, IntegerHeap, LinearHeap

from pbt import gens
from pbt.core import unit


def pool(bits, r, most=10):
    """Values of so many bits, sharing high and low parts."""
    top = 1 << bits
    out = {0, top - 1}
    highs = [r.randrange(top) for _ in range(3)]
    for _ in range(r.randrange(2, most + 2)):
        kind = r.randrange(4)
        if kind == 0:
            x = r.randrange(top)
        elif kind == 1:                 # same high part
            half = max(1, bits // 2)
            x = r.choice(highs) >> half << half | r.randrange(1 << half)
        elif kind == 2:
            x = r.choice(highs) ^ (1 << r.randrange(bits))
        else:
            x = min(r.randrange(9), top - 1)
        out.add(x)
    out = sorted(out)
    r.shuffle(out)
    return out


@st.composite
def histories(draw, most=30):
    """(kind, order, operations); operations are ("add", x), ("remove", x),
    ("absent", x) and ("drain", count)."""
    kind = draw(st.sampled_from(["flat", "integer", "bits", "linear"]))
    order = draw(gens.ints(1, 9)) if kind == "flat" else \
        draw(gens.ints(0, 9)) if kind == "integer" else 0
    r = random.Random(draw(gens.SEEDS))
    bits = 1 << order if kind in ("flat", "integer") else \
        r.choice([3, 8, 10] if kind == "bits" else [3, 8, 60, 200])
    values = pool(bits, r, most // 3)
    have = set()
    ops = []
    growing = .6
    for _ in range(draw(gens.ints(0, most))):
        if r.random() < .1:
            growing = r.choice([.2, .5, .8])
        if r.random() < growing or not have:
            x = r.choice(values)
            have.add(x)
            ops.append(("add", x))
        elif r.random() < .3:
            x = min(have)
            have.remove(x)
            ops.append(("remove", x))
        else:
            x = r.choice(sorted(have))
            have.remove(x)
            ops.append(("remove", x))
        if r.random() < .1:
            x = r.choice(values)
            if x not in have:
                ops.append(("absent", x))
        if r.random() < .03:
            ops.append(("drain", min(len(have), r.randrange(9))))
            for _ in range(ops[-1][1]):
                have.remove(min(have))
    return kind, order, ops


def make(kind, order):
    return {"flat": lambda: FlatHeap(order), "bits": BitVectorHeap,
            "integer": lambda: IntegerHeap(order), "linear": LinearHeap}[
                kind]()


def agree(Q, have, t):
    t.check(bool(Q) == bool(have), "truth value of heap of %r", have)
    if have:
        t.equal(Q.min(), min(have), "minimum of %r" % sorted(have))
    else:
        t.refuses(ValueError, Q.min)


def run(case, t):
    kind, order, ops = case
    t.label("%s %d" % (kind, order))
    looking = [1, 4, len(ops) + 1][len(ops) % 3]     # look after every so many operations
    Q = make(kind, order)
    have = set()
    agree(Q, have, t)
    for step, (op, x) in enumerate(ops):
        if op == "add":
            Q.add(x)
            have.add(x)
        elif op == "remove":
            t.nontrivial(x != min(have))
            Q.remove(x)
            have.remove(x)
        elif op == "absent":
            t.label("absent value removed")
            try:
                Q.remove(x)
            except (KeyError, ValueError):
                pass
        else:
            for _ in range(x):
                y = Q.min()
                Q.remove(y)
                have.remove(y)
        if step % looking == 0:
            agree(Q, have, t)
    while have:
        x = min(have)
        t.equal(Q.min(), x, "minimum while draining")
        Q.remove(x)
        have.remove(x)
    agree(Q, have, t)
    for op, x in ops[:5]:
        if op == "add":
            Q.add(x)
            have.add(x)
            agree(Q, have, t)


@unit("P24", "range", quick=800, cases=st.tuples(gens.ints(1, 9), gens.SEEDS))
def out_of_range(case, t):
    """Values outside a bounded heap's range; nontrivial always."""
    order, seed = case
    r = random.Random(seed)
    t.nontrivial()
    Q = FlatHeap(order)
    have = set()
    for x in pool(1 << order, r)[:r.randrange(6)]:
        Q.add(x)
        have.add(x)
    top = 1 << (1 << order)
    for x in (-1, top, top + r.randrange(9), -r.randrange(1, 99), top * top):
        t.refuses(ValueError, Q.add, x)
        t.refuses(ValueError, Q.remove, x)
        agree(Q, have, t)
    if order > 3:
        Q = IntegerHeap(order)
        t.refuses(ValueError, Q.add, top)
        t.refuses(ValueError, Q.add, -1)
        agree(Q, set(), t)


@unit("P24", "histories", quick=12000, cases=histories())
def short(case, t):
    """Histories of up to 30 insertions and removals of present values, then a
    full drain, for all heaps and orders 0 to 9; nontrivial when a value other
    than the minimum was removed."""
    run(case, t)


@unit("P24", "long", quick=500, cases=histories(400))
def long(case, t):
    """Histories of up to 400 insertions and removals; nontrivial as
    before."""
    run(case, t)
