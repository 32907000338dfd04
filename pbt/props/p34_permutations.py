import collections
import itertools

from hypothesis import strategies as st

from pads import permutations as pm

from pbt import gens
from pbt.core import unit


def copies(it, limit=None):
    return [tuple(p) for p in itertools.islice(it, limit)]


def swaps(p, q):
    """Positions where two arrangements differ."""
    return [i for i in range(len(p)) if p[i] != q[i]]


def exchanged(p, q, gap):
    d = swaps(p, q)
    return (len(p) == len(q) and len(d) == 2 and d[1] - d[0] == gap
            and p[d[0]] == q[d[1]] and p[d[1]] == q[d[0]])


def sizes(tier):
    return range(0, 9 if tier == "quick" else 10)


def count(n):
    out = 1
    for i in range(2, n + 1):
        out *= i
    return out


@unit("P34", "permutations", enum=sizes)
def permutations(n, t):
    """All permutations of 0 to 8 items; nontrivial for 3 or more."""
    t.nontrivial(n > 2)
    out = copies(pm.SteinhausJohnsonTrotter(n))
    t.check(out[0] == tuple(range(n)), "first permutation %r", out[0])
    t.check(len(out) == count(n) and set(out) == set(
        itertools.permutations(range(n))), "permutations of %d", n)
    for p, q in zip(out, out[1:]):
        t.check(exchanged(p, q, 1), "%r is followed by %r", p, q)
    moves = list(pm.PlainChanges(n))
    t.equal(moves, [swaps(p, q)[0] for p, q in zip(out, out[1:])],
            "swaps of %d items" % n)


@unit("P34", "sequences", quick=600, cases=st.lists(
    st.sampled_from(["a", "b", 3, None, (), 2.5, "zz"]), max_size=6
    ).flatmap(lambda x: st.tuples(
        st.just(x), st.sampled_from(["list", "tuple", "iter"]))))
def sequences(case, t):
    """All permutations of given items, of which some may be the same;
    nontrivial for 3 or more."""
    items, kind = case
    t.nontrivial(len(items) > 2)
    if len(set(items)) < len(items):
        t.label("repeated items")
    out = copies(pm.SteinhausJohnsonTrotter(
        {"list": list, "tuple": tuple, "iter": iter}[kind](items)))
    t.check(out[0] == tuple(items), "first permutation %r", out[0])
    t.equal(collections.Counter(out), collections.Counter(
        itertools.permutations(items)), "permutations of %r" % (items,))
    for p, q in zip(out, out[1:]):
        t.check(exchanged(p, q, 1) or p == q and any(
            a == b for a, b in zip(p, p[1:])), "%r is followed by %r", p, q)
    word = "".join(str(x)[:1] for x in items)
    if len(word) == len(items):
        t.equal(["".join(p) for p in pm.SteinhausJohnsonTrotter(word)],
                ["".join(str(x)[:1] for x in p) for p in out],
                "permutations of a string")


def doubles(n):
    """All double permutations, values in order of first occurrence."""
    def extend(word, left):
        if len(word) == 2 * n:
            yield tuple(word)
            return
        new = len(left)
        for x in sorted(left):
            if left[x]:
                left[x] -= 1
                yield from extend(word + [x], left)
                left[x] += 1
        if new < n:
            left[new] = 1
            yield from extend(word + [new], left)
            del left[new]
    yield from extend([], {})


def stirling(n):
    """Double permutations with only larger values between equal ones."""
    out = {()}
    for i in range(n):
        out = {w[:k] + (i, i) + w[k:] for w in out for k in range(len(w) + 1)}
    return out


def half_sizes(tier):
    return range(0, 7 if tier == "quick" else 8)


@unit("P34", "double", enum=half_sizes)
def double(n, t):
    """All double and Stirling permutations of 0 to 6 values; nontrivial for
    3 or more."""
    t.nontrivial(n > 2)
    start = tuple(i // 2 for i in range(2 * n))
    out = copies(pm.DoubleSteinhausJohnsonTrotter(n))
    want = set(doubles(n))
    t.check(out[0] == start, "first double permutation %r", out[0])
    t.check(len(out) == len(want) and set(out) == want,
            "double permutations of %d", n)
    for p, q in zip(out, out[1:]):
        t.check(exchanged(p, q, 1), "%r is followed by %r", p, q)
    out = copies(pm.StirlingPermutations(n))
    want = stirling(n)
    t.check(out[0] == start, "first Stirling permutation %r", out[0])
    t.check(len(out) == len(want) and set(out) == want,
            "Stirling permutations of %d", n)
    for p, q in zip(out, out[1:]):
        t.check(exchanged(p, q, 2), "%r is followed by %r", p, q)


def involutions(n):
    """All involutions of n items."""
    if n == 0:
        return [()]
    out = [p + (n - 1,) for p in involutions(n - 1)]
    for p in involutions(n - 2) if n > 1 else []:
        for k in range(n - 1):
            # k exchanges with n-1; the others are numbered around k
            number = [i for i in range(n - 1) if i != k]
            q = list(range(n))
            for i, x in enumerate(p):
                q[number[i]] = number[x]
            q[k], q[n - 1] = n - 1, k
            out.append(tuple(q))
    return out


def exchange_partners(p):
    """All results of the documented small changes to p."""
    out = set()
    for c in range(len(p) - 1):
        d = c + 1
        q = list(p)
        if p[c] == c and p[d] == d:             # add an adjacent pair
            q[c], q[d] = d, c
        elif p[c] == d:                         # remove one
            q[c], q[d] = c, d
        else:
            x, y = p[c], p[d]
            q[c], q[d] = (c, d)
            if y != d:
                q[c], q[y] = y, c
            if x != c:
                q[d], q[x] = x, d
        out.add(tuple(q))
    return out


def inv_sizes(tier):
    return range(0, 11 if tier == "quick" else 13)


@unit("P34", "involutions", enum=inv_sizes)
def check_involutions(n, t):
    """All involutions of 0 to 10 items; nontrivial for 4 or more."""
    t.nontrivial(n > 3)
    out = copies(pm.Involutions(n))
    want = involutions(n)
    t.check(out[0] == tuple(range(n)), "first involution %r", out[0])
    t.check(len(out) == len(want) and set(out) == set(want),
            "involutions of %d", n)
    for p, q in zip(out, out[1:]):
        t.check(q in exchange_partners(p), "%r is followed by %r", p, q)
    if n > 1:
        t.equal(out[-1], tuple(range(n - 2)) + (n - 1, n - 2),
                "last involution")


@unit("P34", "beginnings", quick=200, cases=st.tuples(
    gens.ints(10, 80), gens.ints(10, 1500)))
def beginnings(case, t):
    """Beginnings for 10 to 80 items: distinct arrangements, each a small
    change; nontrivial always."""
    n, limit = case
    t.nontrivial()
    for make, gap in ((pm.SteinhausJohnsonTrotter, 1),
                      (pm.DoubleSteinhausJohnsonTrotter, 1),
                      (pm.StirlingPermutations, 2), (pm.Involutions, 0)):
        out = copies(make(n), limit)
        t.check(len(out) == limit == len(set(out)),
                "%s repeats or ends", make.__name__)
        for p, q in zip(out, out[1:]):
            if gap:
                t.check(exchanged(p, q, gap), "%s: %r is followed by %r",
                        make.__name__, p, q)
            else:
                t.check(all(q[q[i]] == i for i in range(n))
                        and len(swaps(p, q)) <= 4,
                        "%r is followed by %r", p, q)
