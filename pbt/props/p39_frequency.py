import random
from collections import Counter

from hypothesis import strategies as st

from pads.frequencyestimator import FrequencyEstimator

from pbt import gens
from pbt.core import unit

ACCURACY = [(1, 1), (1, 2), (1, 3), (2, 3), (1, 4), (1, 5), (1, 7), (3, 10),
            (1, 10), (1, 49), (2, 7), (9, 10)]


@st.composite
def streams(draw, most=120):
    r = random.Random(draw(gens.SEEDS))
    n = draw(gens.ints(0, most))
    k = r.choice([1, 2, 3, 5, 8, 20])
    kind = r.randrange(4)
    out = []
    for i in range(n):
        if kind == 0:
            x = r.randrange(k)
        elif kind == 1:                         # skewed
            x = min(int(r.expovariate(1)), k)
        elif kind == 2:                         # heavy items, then noise
            x = r.randrange(2) if i < n // 2 else r.randrange(k)
        else:                                   # one heavy item among many
            x = 0 if r.random() < .4 else r.randrange(1, 60)
        out.append(x)
    return draw(st.sampled_from(ACCURACY)), draw(st.sampled_from(
        ["int", "str", "mixed"])), out


def name(x, kind):
    return x if kind == "int" else "s%d" % x if kind == "str" else \
        (None, (), "", 0.5, frozenset())[x] if x < 5 else (x,)


def run(case, t):
    (p, q), kind, stream = case
    F = FrequencyEstimator(p / q)
    true = Counter()
    for x in [name(i, kind) for i in range(8)]:
        t.check(F[x] == 0, "frequency in an empty stream")
    t.check(list(F) == [], "items of an empty stream")
    for i, x in enumerate(stream, 1):
        same = F
        F += name(x, kind)
        t.check(F is same, "another object after counting")
        true[name(x, kind)] += 1
        kept = list(F)
        t.check(len(kept) <= q // p and len(set(kept)) == len(kept),
                "%d items remembered at accuracy %d/%d", len(kept), p, q)
        for y in list(true) + [("never",)]:
            est = F[y]
            t.check(est * i <= true[y] + 1e-6,
                    "frequency of %r estimated %r, true %d/%d", y, est,
                    true[y], i)
            t.check((true[y] - est * i) * q <= p * i + 1e-6,
                    "frequency of %r estimated %r, true %d/%d", y, est,
                    true[y], i)
            if true[y] * q > p * i:
                t.check(y in kept, "%r of %d/%d is forgotten", y, true[y], i)
        t.nontrivial(len(true) > q // p
                     and max(true.values()) * q > p * i)


@unit("P39", "streams", quick=3000, cases=streams())
def short(case, t):
    """Streams of up to 120 items with accuracies from 1/49 to 1, everything
    compared after every item; nontrivial when more kinds than counters
    occurred and some item is more frequent than the accuracy."""
    run(case, t)


@unit("P39", "long", quick=200, cases=streams(1500))
def long(case, t):
    """Streams of up to 1500 items; nontrivial as before."""
    run(case, t)
