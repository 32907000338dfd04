import itertools
import random
from fractions import Fraction

from hypothesis import strategies as st

from pads.lcs import longest_common_subsequence
from pads.longest_increasing_subsequence import longest_increasing_subsequence

from pbt import gens
from pbt.core import unit


def is_subsequence(S, X):
    it = iter(X)
    return all(any(x == s for x in it) for s in S)


def lcs_length(A, B):
    row = [0] * (len(B) + 1)
    for a in A:
        new = [0]
        for j, b in enumerate(B):
            new.append(max(row[j + 1], new[j], row[j] + (a == b)))
        row = new
    return row[-1]


def common(A, B, t):
    for X, Y in ((A, B), (B, A)):
        out = longest_common_subsequence(X, Y)
        t.check(isinstance(out, list), "result %r", out)
        t.check(is_subsequence(out, A) and is_subsequence(out, B),
                "%r is not a common subsequence", out)
        want = lcs_length(A, B)
        t.check(len(out) == want, "length %d, not %d", len(out), want)
    t.equal(longest_common_subsequence(iter(A), (b for b in B)),
            longest_common_subsequence(A, B), "iterators")
    return want


def small(tier):
    length = 5 if tier == "quick" else 6
    for n in range(length + 1):
        for A in itertools.product("ab", repeat=n):
            for m in range(length + 1):
                for B in itertools.product("ab", repeat=m):
                    yield "".join(A), "".join(B)
    for n in range(4):
        for A in itertools.product("abc", repeat=n):
            for m in range(5):
                for B in itertools.product("abc", repeat=m):
                    yield "".join(A), "".join(B)


@unit("P32", "common-exhaustive", enum=small)
def common_small(case, t):
    """All pairs of binary words to length 5 and ternary to 3 and 4;
    nontrivial when neither is a subsequence of the other."""
    A, B = case
    t.nontrivial(not is_subsequence(A, B) and not is_subsequence(B, A))
    common(A, B, t)


@unit("P32", "common", quick=2500, cases=st.tuples(
    gens.ints(0, 25), gens.ints(0, 25), gens.ints(1, 8), gens.ints(0, 3),
    gens.SEEDS))
def common_random(case, t):
    """Pairs of sequences to length 25 of characters, mixed items or lists;
    nontrivial when the answer is shorter than both and not empty."""
    n, m, alphabet, kind, seed = case
    r = random.Random(seed)
    pool = [list(range(alphabet)), [[i] for i in range(alphabet)],
            [None, "a", 1, (2,), 2.5, True, b"x", frozenset()][:alphabet],
            ["w%d" % i for i in range(alphabet)]][kind]
    A = [r.choice(pool) for _ in range(n)]
    B = [r.choice(pool) for _ in range(m)]
    if r.random() < .4:                 # an edited copy
        B = [x for x in A if r.random() < .8]
        for _ in range(r.randrange(4)):
            B.insert(r.randrange(len(B) + 1), r.choice(pool))
    got = common(A, B, t)
    t.nontrivial(0 < got < min(len(A), len(B)))


class Ranked:
    """Ordered by rank only; tag tells occurrences apart."""

    def __init__(self, rank, tag):
        self.rank = rank
        self.tag = tag

    def __lt__(self, other):
        return self.rank < other.rank

    def __gt__(self, other):
        return self.rank > other.rank

    def __le__(self, other):
        return self.rank <= other.rank

    def __ge__(self, other):
        return self.rank >= other.rank

    def __eq__(self, other):
        return self.rank == other.rank

    def __repr__(self):
        return "%r@%d" % (self.rank, self.tag)

    __hash__ = None


def increasing(S, t):
    X = [Ranked(s, i) for i, s in enumerate(S)]
    out = longest_increasing_subsequence(X)
    t.check(all(a.rank < b.rank and a.tag < b.tag
                for a, b in zip(out, out[1:])),
            "%r is not an increasing subsequence", out)
    ends = []           # length of longest ending at each position
    for j, s in enumerate(S):
        ends.append(1 + max((ends[i] for i in range(j) if S[i] < s),
                            default=0))
    most = max(ends, default=0)
    t.check(len(out) == most, "length %d, not %d", len(out), most)
    if most:
        best = min((s, j) for j, s in enumerate(S) if ends[j] == most)
        t.check((out[-1].rank, out[-1].tag) == best,
                "ends with %r, not %r", out[-1], best)
    plain = longest_increasing_subsequence(iter(S))
    t.check(plain == [x.rank for x in out], "plain values give %r", plain)
    return most


def short(tier):
    n = 6 if tier == "quick" else 7
    for k in range(n + 1):
        yield from itertools.product(range(min(k, 4 if k > 5 else 5)),
                                     repeat=k)


@unit("P32", "increasing-exhaustive", enum=short)
def increasing_small(case, t):
    """All sequences of up to 6 items of up to 4 or 5 values; nontrivial when
    longest subsequences have two to four items."""
    t.nontrivial(2 <= increasing(list(case), t) <= 4)


@unit("P32", "increasing", quick=4000, cases=st.tuples(
    gens.ints(0, 60), gens.ints(1, 60), gens.ints(0, 3), gens.SEEDS))
def increasing_random(case, t):
    """Sequences of up to 60 integers, strings, fractions or tuples, some
    nearly sorted; nontrivial when the longest has four or more."""
    n, values, kind, seed = case
    r = random.Random(seed)
    S = [r.randrange(-values // 2, values) for _ in range(n)]
    if r.random() < .3:
        S.sort()
        for _ in range(r.randrange(1, 9)):
            if n > 1:
                i, j = r.randrange(n), r.randrange(n)
                S[i], S[j] = S[j], S[i]
    S = [[s, "%03d" % (s + 200), Fraction(s, 3), (s // 4, s % 4)][kind]
         for s in S]
    t.nontrivial(increasing(S, t) > 3)


@unit("P32", "long", quick=60, cases=st.tuples(
    gens.ints(60, 300), gens.ints(60, 300), gens.ints(2, 40), gens.SEEDS))
def long(case, t):
    """Sequences of 60 to 300 items; nontrivial when the common subsequence is
    shorter than both."""
    n, m, values, seed = case
    r = random.Random(seed)
    A = [r.randrange(values) for _ in range(n)]
    B = [r.randrange(values) for _ in range(m)]
    t.nontrivial(common(A, B, t) < min(n, m))
    increasing(A, t)
    increasing([r.randrange(5000) for _ in range(n)], t)
