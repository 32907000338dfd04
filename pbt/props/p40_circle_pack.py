import cmath
import math
import random

from hypothesis import strategies as st

from pads.circle_pack import (InvertAround, InvertPacking, NormalizePacking,
                              circle_pack)

from pbt import gens
from pbt.core import unit

CLOSE = 1e-6


def disk(sides, steps, r):
    """Triangulated disk without chords: (number of vertices, oriented
    triangles).  The boundary is 0..sides-1, the rest are interior."""
    faces = {(i, (i + 1) % sides, sides) for i in range(sides)}
    n = sides + 1
    for _ in range(steps):
        if r.random() < .45:                    # new vertex in a face
            a, b, c = r.choice(sorted(faces))
            faces.remove((a, b, c))
            faces |= {(a, b, n), (b, c, n), (c, a, n)}
            n += 1
            continue
        sides_of = {}
        for a, b, c in faces:
            for u, v, w in ((a, b, c), (b, c, a), (c, a, b)):
                sides_of[u, v] = w, (a, b, c)
        u, v = r.choice(sorted(e for e in sides_of if e[::-1] in sides_of))
        w, f = sides_of[u, v]
        x, g = sides_of[v, u]
        degree = sum(e[0] == u for e in sides_of), \
            sum(e[0] == v for e in sides_of)
        if (w, x) in sides_of or (x, w) in sides_of \
                or (w < sides and x < sides) \
                or any(y >= sides and d < 4 for y, d in zip((u, v), degree)) \
                or any(y < sides and not any(
                    e[0] == y and e[1] >= sides and e != (y, z)
                    for e in sides_of) for y, z in ((u, v), (v, u))):
            continue
        faces -= {f, g}
        faces |= {(u, x, w), (v, w, x)}
    return n, faces


def flowers(n, sides, faces):
    """Cycle of neighbours of each interior vertex."""
    out = {}
    for v in range(sides, n):
        after = {}
        for a, b, c in faces:
            for x, y, z in ((a, b, c), (b, c, a), (c, a, b)):
                if x == v:
                    after[y] = z
        cycle = [min(after)]
        while after[cycle[-1]] != cycle[0]:
            cycle.append(after[cycle[-1]])
        out[v] = cycle
    return out


@st.composite
def disks(draw, steps=12):
    """(label, flowers with random starts and order, radii, clockwise)"""
    sides = draw(gens.ints(3, 8))
    count = draw(gens.ints(0, steps))
    r = random.Random(draw(gens.SEEDS))
    n, faces = disk(sides, count, r)
    cycles = flowers(n, sides, faces)
    clockwise = r.random() < .5
    inner = []
    for v in sorted(cycles, key=lambda v: r.random()):
        c = cycles[v]
        k = r.randrange(len(c))
        c = c[k:] + c[:k]
        inner.append((v, c[::-1] if clockwise else c))
    kind = r.randrange(3)
    radii = [1.0 if kind == 0 else r.uniform(.5, 2) if kind == 1
             else 2.0 ** r.randrange(-3, 4) for _ in range(sides)]
    if r.random() < .2:
        radii = [int(x) + 1 for x in radii]
    return draw(st.sampled_from(gens.LABELS)), n, inner, radii


def build(case):
    label, n, inner, radii = case
    names = gens.labels(label, n)
    internal = {names[v]: [names[w] for w in c] for v, c in inner}
    external = {names[i]: x for i, x in enumerate(radii)}
    return internal, external


def near(x, y, scale):
    return abs(x - y) <= CLOSE * scale


def tangent(P, Q):
    return near(abs(P[0] - Q[0]), P[1] + Q[1], P[1] + Q[1])


def edges(internal):
    for v, c in internal.items():
        for i, w in enumerate(c):
            yield v, w
            yield c[i - 1], w


@unit("P40", "packings", quick=1000, cases=disks())
def packing(case, t):
    """Triangulated disks of 3 to 8 boundary and up to 13 interior circles
    with equal or uneven radii; nontrivial with three or more interior
    circles."""
    internal, external = build(case)
    t.nontrivial(len(internal) > 2)
    out = circle_pack(internal, external)
    t.check(set(out) == set(internal) | set(external), "circles %r", out)
    for k, (z, r) in out.items():
        t.check(r > 0 and cmath.isfinite(z) and math.isfinite(r),
                "circle %r is %r", k, (z, r))
        if k in external:
            t.check(r == external[k], "radius of %r is %r", k, r)
    for v, w in edges(internal):
        t.check(tangent(out[v], out[w]), "circles %r and %r: %r %r", v, w,
                out[v], out[w])
    for v, c in internal.items():
        z = out[v][0]
        turn = 0
        for i, w in enumerate(c):
            step = cmath.phase((out[w][0] - z) / (out[c[i - 1]][0] - z))
            t.check(step < 0, "neighbours %r of %r turn by %r", (c[i - 1], w),
                    v, step)
            turn += step
        t.check(near(turn, -2 * math.pi, 10), "neighbours of %r turn by %r",
                v, turn)


@unit("P40", "refusals", quick=400, cases=st.tuples(disks(steps=3),
                                                   gens.SEEDS))
def refusals(case, t):
    """Boundary radii that are zero or negative, and circles both inside and
    on the boundary; nontrivial always."""
    disk_case, seed = case
    r = random.Random(seed)
    internal, external = build(disk_case)
    t.nontrivial()
    k = r.choice(list(external))
    for bad in (0, -1, -0.5, 0.0):
        t.refuses(ValueError, circle_pack, internal,
                  {**external, k: bad})
    v = r.choice(list(internal))
    t.refuses(ValueError, circle_pack, internal, {**external, v: 1})


@st.composite
def circles(draw):
    """Circles [(x, y, r)] and a centre, not on any of them."""
    r = random.Random(draw(gens.SEEDS))
    n = draw(gens.ints(1, 8)) if draw(gens.ints(0, 4)) else draw(
        gens.ints(9, 40))
    out = [(r.randrange(-20, 21) / 2, r.randrange(-20, 21) / 2,
            r.randrange(1, 15) / 2) for _ in range(n)]
    for _ in range(100):
        c = r.choice([(0, 0), out[0][:2], (r.uniform(-15, 15),
                                           r.uniform(-15, 15))])
        if all(abs(math.hypot(c[0] - x, c[1] - y) - q) > .1
               for x, y, q in out):
            break
    else:
        c = (1000, 1000)
    return out, c


@unit("P40", "inversions", quick=3000, cases=circles())
def inversions(case, t):
    """Random circles inverted with random centres, inside and outside them;
    nontrivial with a centre inside one circle and outside another."""
    given, (cx, cy) = case
    centre = complex(cx, cy)
    pack = {"c%d" % i: (complex(x, y), r) for i, (x, y, r) in enumerate(given)}
    t.nontrivial(len({abs(centre - z) < r for z, r in pack.values()}) == 2)
    out = InvertPacking(pack, centre)
    t.check(set(out) == set(pack), "circles %r", out)
    for k, (z, r) in pack.items():
        w, s = out[k]
        t.check(s > 0, "radius %r", s)
        for a in range(7):
            p = 1 / (z + r * cmath.exp(1j * a) - centre)
            t.check(near(abs(p - w), s, max(s, abs(p))),
                    "image of a point of %r is not on %r", (z, r), (w, s))
    for v in pack:
        for target in (None, 2.5):
            args = [v] if target is None else [v, target]
            size = NormalizePacking(pack, *args)
            scale = (target or 1) / pack[v][1]
            for k in pack:
                t.check(near(size[k][0], pack[k][0] * scale,
                             1 + abs(size[k][0]))
                        and near(size[k][1], pack[k][1] * scale,
                                 size[k][1]), "scaled circle %r", size[k])
    size = NormalizePacking(pack)
    t.check(near(min(r for _, r in size.values()), 1, 1), "smallest radius")
    scale = 1 / min(r for _, r in pack.values())
    for k in pack:
        t.check(near(size[k][1], pack[k][1] * scale, size[k][1])
                and near(size[k][0], pack[k][0] * scale,
                         1 + abs(size[k][0])), "scaled circle %r", size[k])
    size = NormalizePacking(pack, target=.25)
    t.check(near(min(r for _, r in size.values()), .25, 1), "target radius")


def smallest(pack, k, chosen, centre):
    """Least radius of the chosen circles in units of the radius of k after
    inverting."""
    out = InvertPacking(pack, centre)
    return min(out[j][1] for j in chosen) / out[k][1]


@unit("P40", "surrounding", quick=160, cases=st.tuples(
    disks(steps=6), gens.SEEDS))
def surrounding(case, t):
    """Packings inverted around one of their circles; nontrivial with two or
    more interior circles."""
    disk_case, seed = case
    r = random.Random(seed)
    internal, external = build(disk_case)
    pack = circle_pack(internal, external)
    keys = list(pack)
    if any(abs(pack[u][0] - pack[v][0]) < (pack[u][1] + pack[v][1])
           * (1 - CLOSE) for u in keys for v in keys if u != v):
        t.label("overlapping")
        return
    t.nontrivial(len(internal) > 1)
    k = r.choice([j for j in keys if j is not None])    # None: no circle
    # with one circle only, the best inversion may be a limit
    some = [j for j in keys if j != k]
    some = r.sample(some, r.randrange(2, len(some) + 1)) + [k][
        :r.randrange(2)]
    for chosen in (None, some):
        out = InvertAround(pack, k, chosen) if chosen else \
            InvertAround(pack, k)
        t.check(set(out) == set(pack), "circles %r", out)
        z, R = out[k]
        for j in keys:
            if j != k:
                t.check(abs(out[j][0] - z) + out[j][1] <= R * (1 + CLOSE),
                        "circle %r is not inside %r", j, k)
        for u, v in edges(internal):
            if k in (u, v):
                u, v = k, (v if u == k else u)
                t.check(near(abs(out[u][0] - out[v][0]),
                             out[u][1] - out[v][1], R),
                        "circle %r does not touch the outer one", v)
            else:
                t.check(near(abs(out[u][0] - out[v][0]),
                             out[u][1] + out[v][1], R),
                        "circles %r and %r do not touch", u, v)
        best = min(out[j][1] for j in (chosen or keys)) / R
        for _ in range(60):
            centre = pack[k][0] + pack[k][1] * r.uniform(0, .999) \
                * cmath.exp(1j * r.uniform(0, 7))
            other = smallest(pack, k, chosen or keys, centre)
            t.check(other <= best * (1 + 1e-4),
                    "least radius %r, but %r is possible", best, other)
