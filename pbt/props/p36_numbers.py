import itertools
import random

from hypothesis import strategies as st

from pads import eratosthenes as er

from pbt import gens
from pbt.core import unit


def factor(n):
    out = {}
    p = 2
    while p * p <= n:
        while n % p == 0:
            out[p] = out.get(p, 0) + 1
            n //= p
        p += 1
    if n > 1:
        out[n] = out.get(n, 0) + 1
    return out


def moebius(F):
    return 0 if any(x > 1 for x in F.values()) else (-1) ** len(F)


def smallest_factors(top):
    least = list(range(top + 1))
    for p in range(2, int(top ** .5) + 1):
        if least[p] == p:
            for k in range(p * p, top + 1, p):
                if least[k] == k:
                    least[k] = p
    return least


def tops(tier):
    return [120000 if tier == "quick" else 400000]


@unit("P36", "tables", enum=tops, floor=0)
def tables(top, t):
    """Every integer to 120000; nontrivial always."""
    t.nontrivial()
    least = smallest_factors(top)
    want = [n for n in range(2, top + 1) if least[n] == n]
    got = list(itertools.takewhile(lambda p: p <= top, er.primes()))
    t.check(got == want, "primes to %d", top)
    kept = []
    for n, (k, F) in enumerate(itertools.islice(er.factored_integers(), top),
                               1):
        t.check(k == n, "integer %r at position %d", k, n)
        want = {}
        m = n
        while m > 1:
            want[least[m]] = want.get(least[m], 0) + 1
            m //= least[m]
        t.check(F == want, "factorisation of %d is %r", n, F)
        kept.append((F, want))
    for n, (F, want) in enumerate(kept, 1):
        t.check(F == want, "factorisation of %d became %r", n, F)
    values = [moebius(want) for _, want in kept]
    t.check(list(itertools.islice(er.moebius_sequence(), top)) == values,
            "Moebius sequence")
    for n in (1, top // 2, 7, top):
        t.check(er.moebius_function(n) == values[n - 1],
                "Moebius function of %d", n)


def practical(n):
    """By definition: every smaller number is a sum of distinct divisors."""
    sums = 1
    for d in range(1, n + 1):
        if n % d == 0:
            sums |= sums << d
    need = (1 << n) - 1
    return sums & need == need


def practical_tops(tier):
    return [(lo, lo + 250) for lo in range(
        1, 4001 if tier == "quick" else 10001, 250)]


@unit("P36", "practical", enum=practical_tops)
def practicals(case, t):
    """Practical numbers to 4000 by their definition; nontrivial always."""
    lo, hi = case
    t.nontrivial()
    got = {n for n in itertools.takewhile(
        lambda n: n < hi, er.practical_numbers())}
    for n in range(lo, hi):
        t.check((n in got) == practical(n), "%d practical: %r", n, n in got)
        t.check(bool(er.is_practical_factorization(factor(n)))
                == practical(n), "%d practical by its factors", n)
    listed = list(itertools.takewhile(lambda n: n < hi,
                                      er.practical_numbers()))
    t.check(listed == sorted(set(listed)), "order of practical numbers")


@unit("P36", "interleaved", quick=200, cases=st.tuples(gens.ints(2, 5),
                                                      gens.SEEDS))
def interleaved(case, t):
    """Up to five generators advanced in random turns over 400 steps, and
    values of the Moebius function asked in between; nontrivial always."""
    count, seed = case
    r = random.Random(seed)
    t.nontrivial()
    makers = [er.primes, er.factored_integers, er.moebius_sequence,
              er.practical_numbers]
    running = []
    for _ in range(count):
        k = r.randrange(4)
        running.append([k, makers[k](), [], 1])
    seen = []
    for _ in range(400):
        if r.random() < .05:
            n = r.randrange(1, 900)
            t.check(er.moebius_function(n) == moebius(factor(n)),
                    "Moebius function of %d", n)
            continue
        state = r.choice(running)
        k, it, out, at = state
        got = next(it)
        if k == 0:
            at += 1
            while len(factor(at)) != 1 or factor(at) != {at: 1}:
                at += 1
            t.check(got == at, "prime %r, not %d", got, at)
            state[3] = at
        elif k == 1:
            t.check(got == (at, factor(at)), "%r, at %d", got, at)
            state[3] = at + 1
            seen.append(got)
        elif k == 2:
            t.check(got == moebius(factor(at)), "Moebius of %d", at)
            state[3] = at + 1
        else:
            while not practical(at):
                at += 1
            t.check(got == at, "practical number %r, not %d", got, at)
            state[3] = at + 1
    for n, F in seen:
        t.check(F == factor(n), "factorisation of %d became %r", n, F)


@unit("P36", "factorisations", quick=2000, cases=st.tuples(
    gens.ints(1, 6), gens.ints(1, 4), gens.SEEDS))
def factorisations(case, t):
    """Practicality of products of up to 6 primes below 60, decided by sums
    of divisors in turn; nontrivial when a prime exceeds twice the one before
    and two or more primes occur."""
    count, power, seed = case
    r = random.Random(seed)
    small = [2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43, 47, 53, 59]
    F = {}
    for p in r.sample(small[:r.randrange(count, 17)], count):
        F[p] = r.randrange(1, power + 1)
    if r.random() < .7:
        F[2] = r.randrange(1, power + 2)
    keys = sorted(F)
    t.nontrivial(len(F) > 1 and any(q > 2 * p for p, q in zip(
        keys, keys[1:])))
    # contiguous sums of divisors of the part made of smaller primes
    whole = 1
    good = True
    for p in keys:
        divisors = [d for d in range(1, whole + 1) if whole % d == 0] \
            if whole < 20000 else None
        if divisors is None:
            return
        if p - 1 > sum(divisors):
            good = False
            break
        whole *= p ** F[p]
    t.check(bool(er.is_practical_factorization(dict(F))) == good,
            "%r practical", F)
