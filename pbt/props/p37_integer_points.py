import itertools
import random

from hypothesis import strategies as st

from pads.integerpoints import IntegerPointsByDistance

from pbt import gens
from pbt.core import unit


def radii(tier):
    return [3, 20, 100, 220] if tier == "quick" else [3, 100, 600]


@unit("P37", "prefix", enum=radii)
def prefix(radius, t):
    """All points within radius 220 (about 152000); nontrivial from
    radius 20."""
    t.nontrivial(radius > 10)
    limit = radius * radius
    last = 0
    seen = set()
    for x, y in IntegerPointsByDistance():
        d = x * x + y * y
        t.check(type(x) is int and type(y) is int, "point %r", (x, y))
        t.check(d >= last, "point %r after squared distance %d", (x, y), last)
        last = d
        if d > limit:
            break
        t.check((x, y) not in seen, "point %r twice", (x, y))
        seen.add((x, y))
    want = sum(2 * int((limit - x * x) ** .5 + 1e-9) + 1
               for x in range(-radius, radius + 1))
    t.check(len(seen) == want, "%d points within %d, not %d", len(seen),
            radius, want)


@unit("P37", "interleaved", quick=100, cases=st.tuples(gens.ints(2, 4),
                                                      gens.SEEDS))
def interleaved(case, t):
    """Up to four generators advanced in random turns; nontrivial always."""
    count, seed = case
    r = random.Random(seed)
    t.nontrivial()
    running = [IntegerPointsByDistance() for _ in range(count)]
    out = [[] for _ in running]
    for _ in range(r.randrange(50, 1500)):
        k = r.randrange(count)
        out[k] += itertools.islice(running[k], r.randrange(1, 5))
    for points in out:
        t.check(len(set(points)) == len(points), "a point was repeated")
        d = [x * x + y * y for x, y in points]
        t.check(d == sorted(d), "points out of order")
        if not d:
            continue
        radius = int(d[-1] ** .5) + 1
        inside = {(x, y) for x in range(-radius, radius + 1)
                  for y in range(-radius, radius + 1)
                  if x * x + y * y < d[-1]}
        t.check(inside <= set(points), "a point is missing")
