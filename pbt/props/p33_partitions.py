import random
from functools import lru_cache

from hypothesis import strategies as st

from pads import integer_partitions as ip

from pbt import gens
from pbt.core import unit


@lru_cache(maxsize=None)
def parts(n, largest, powers=False):
    """All partitions with parts at most largest, reverse lexicographic."""
    if n == 0:
        return ((),)
    out = []
    for k in range(min(n, largest), 0, -1):
        if not powers or k & (k - 1) == 0:
            out += [(k,) + rest for rest in parts(n - k, k, powers)]
    return tuple(out)


def copies(it, limit=None):
    out = []
    for p in it:
        t = tuple(p)
        out.append(t)
        if limit and len(out) >= limit:
            break
    return out


def numbers(tier):
    top = 29 if tier == "quick" else 34
    for n in range(-3, top):
        yield n


@unit("P33", "all", enum=numbers)
def everything(n, t):
    """Complete output of the generators of all partitions for n from -3 to
    28; nontrivial for n of 4 or more."""
    t.nontrivial(n > 3)
    want = list(parts(n, n)) if n >= 0 else []
    for f in (ip.mckay, ip.revlex_partitions, ip.partitions):
        t.check(copies(f(n)) == want, "%s(%d)", f.__name__, n)
    t.check(copies(ip.lex_partitions(n)) == want[::-1],
            "lex_partitions(%d)", n)
    for p in want:
        columns = [sum(x > i for x in p) for i in range(p[0] if p else 0)]
        t.equal(list(ip.conjugate(list(p))), columns, "conjugate of %r" % (p,))


def binary_numbers(tier):
    for n in range(-3, 81 if tier == "quick" else 100):
        yield n


@unit("P33", "binary", enum=binary_numbers)
def binary(n, t):
    """Complete output for powers of two, n from -3 to 80; nontrivial for n of
    4 or more."""
    t.nontrivial(n > 3)
    want = list(parts(n, n, True)) if n >= 0 else []
    t.check(copies(ip.binary_partitions(n)) == want,
            "binary_partitions(%d)", n)


def lengths(tier):
    top = 26 if tier == "quick" else 30
    for n in range(-3, top):
        for L in range(0, max(n, 0) + 4):
            yield n, L


@unit("P33", "fixed", enum=lengths)
def fixed(case, t):
    """Complete output with exactly L parts for n from -3 to 25 and L from 0
    to n+3; nontrivial with five or more partitions."""
    n, L = case
    want = [p for p in (parts(n, n) if n >= 0 else []) if len(p) == L]
    want.sort(key=lambda p: p[::-1])
    t.nontrivial(len(want) > 4)
    t.check(copies(ip.fixed_length_partitions(n, L)) == want,
            "fixed_length_partitions(%d,%d)", n, L)


@unit("P33", "beginnings", quick=400, cases=st.tuples(
    gens.ints(25, 200), gens.ints(2, 40), gens.ints(1, 300), gens.SEEDS))
def beginnings(case, t):
    """First few hundred partitions of numbers to 200, each the successor of
    the one before by definition; nontrivial always."""
    n, L, limit, seed = case
    t.nontrivial()

    def after(p):
        """Next partition in reverse lexicographic order."""
        p = list(p)
        ones = 0
        while p and p[-1] == 1:
            ones += p.pop()
        k = p.pop() - 1
        rest = ones + 1
        p.append(k)
        while rest:
            p.append(min(rest, k))
            rest -= p[-1]
        return tuple(p)
    runs = [copies(f(n), limit) for f in (ip.mckay, ip.revlex_partitions)]
    t.check(runs[0] == runs[1] and runs[0][0] == (n,), "first of %d", n)
    for p, q in zip(runs[0], runs[0][1:]):
        t.check(q == after(p), "%r is followed by %r", p, q)
    rising = copies(ip.lex_partitions(n), limit)
    t.check(rising[0] == (1,) * n, "lex_partitions(%d) starts %r", n,
            rising[0])
    for p, q in zip(rising, rising[1:]):
        t.check(after(q) == p, "%r is followed by %r", p, q)
    short = copies(ip.fixed_length_partitions(n, min(L, n)), limit)
    for p in short:
        t.check(len(p) == min(L, n) and sum(p) == n and list(p) == sorted(
            p, reverse=True) and p[-1] > 0, "part list %r", p)
    back = [p[::-1] for p in short]
    t.check(back == sorted(set(back)), "order of fixed length partitions")
    two = copies(ip.binary_partitions(n), limit)
    for p in two:
        t.check(sum(p) == n and list(p) == sorted(p, reverse=True)
                and all(x & (x - 1) == 0 for x in p), "part list %r", p)
    t.check(two == sorted(set(two), reverse=True), "order of binary ones")


@unit("P33", "conjugates", quick=2000, cases=st.tuples(
    gens.ints(0, 150), st.sampled_from([3, 10, 60, 400]), gens.SEEDS))
def conjugates(case, t):
    """Conjugates of random partitions of up to 150 parts; nontrivial with a
    repeated part and three different ones."""
    n, top, seed = case
    r = random.Random(seed)
    p = sorted((r.randrange(1, top + 1) for _ in range(n)), reverse=True)
    t.nontrivial(3 <= len(set(p)) < len(p))
    q = ip.conjugate(p)
    t.equal(list(q), [sum(x > i for x in p) for i in range(p[0] if p else 0)],
            "conjugate")
    t.equal(list(ip.conjugate(q)), p, "conjugate twice")


@unit("P33", "binary-long", quick=40, cases=st.tuples(
    gens.ints(81, 330), gens.ints(1, 12000)))
def binary_long(case, t):
    """First partitions into powers of two of numbers to 330, up to 12000 of
    them, each the successor of the one before; nontrivial when some part of
    32 or more was split."""
    n, limit = case
    got = copies(ip.binary_partitions(n), limit)
    p = []
    for i in range(n.bit_length(), -1, -1):
        if n >> i & 1:
            p.append(1 << i)
    for q in got:
        t.check(q == tuple(p), "%r instead of %r", q, p)
        # split the last part that is not one and divide what follows it
        ones = 0
        while p and p[-1] == 1:
            ones += p.pop()
        if not p:
            t.equal(got[-1], q, "the end")
            break
        k = p.pop() // 2
        t.nontrivial(k > 15)
        rest = ones + k
        p.append(k)
        while k:
            while rest >= k:
                p.append(k)
                rest -= k
            k //= 2
    t.check(p == [] or len(got) == limit, "ended early")
