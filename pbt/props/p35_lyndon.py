import itertools
import random

from hypothesis import strategies as st

from pads import lyndon as ly

from pbt import gens
from pbt.core import unit


def is_lyndon(w):
    return all(w < w[i:] + w[:i] for i in range(1, len(w)))


def shapes(tier):
    limit = 7000 if tier == "quick" else 70000
    for s in range(1, 8):
        for n in range(0, 13):
            if s ** n <= limit:
                yield s, n


@unit("P35", "generators", enum=shapes)
def generators(case, t):
    """Every alphabet size s up to 7 and length n with at most 7000 words:
    all Lyndon words and the de Bruijn sequence; nontrivial with ten or more
    Lyndon words."""
    s, n = case
    by_length = [[w for w in itertools.product(range(s), repeat=k)
                  if is_lyndon(w)] for k in range(n + 1)]
    t.nontrivial(len(by_length[n]) > 9)
    got = [tuple(w) for w in ly.LengthLimitedLyndonWords(s, n)]
    t.equal(got, sorted(sum(by_length[1:], [])),
            "Lyndon words of length at most %d" % n)
    got = [tuple(w) for w in ly.LyndonWordsWithLength(s, n)]
    t.equal(got, by_length[n], "Lyndon words of length %d" % n)
    t.equal(ly.CountLyndonWords(s, n), len(by_length[n]),
            "number of Lyndon words")
    want = sum(by_length, [])
    got = [tuple(w) for w in itertools.islice(ly.LyndonWords(s), len(want))]
    t.equal(got, want, "all Lyndon words")
    if n:
        cycle = ly.DeBruijnSequence(s, n)
        t.check(len(cycle) == s ** n, "length %d", len(cycle))
        around = list(cycle) + list(cycle[:n - 1])
        while len(around) < len(cycle) + n - 1:
            around += list(cycle)
        words = {tuple(around[i:i + n]) for i in range(len(cycle))}
        t.check(words == set(itertools.product(range(s), repeat=n)),
                "some word is not in the sequence")


@unit("P35", "counts", quick=300, cases=st.tuples(gens.ints(1, 40),
                                                 gens.ints(1, 40)))
def counts(case, t):
    """The counting function up to 40 symbols and length 40 against the count
    of words by their primitive roots; nontrivial for lengths that are not
    prime."""
    s, n = case
    t.nontrivial(any(n % d == 0 for d in range(2, n)))
    primitive = {}
    for k in range(1, n + 1):
        if n % k == 0:
            primitive[k] = s ** k - sum(primitive[d] for d in primitive
                                        if k % d == 0)
    t.equal(ly.CountLyndonWords(s, n), primitive[n] // n, "number")


def form(word, kind):
    if kind == "str":
        return "".join(chr(97 + x) for x in word)
    if kind == "bytes":
        return bytes(97 + x for x in word)
    if kind == "pairs":
        return [(x // 2, x % 2) for x in word]
    return {"list": list, "tuple": tuple}[kind](word)


def definitions(s, t, kind):
    n = len(s)
    factors = list(ly.ChenFoxLyndon(s))
    t.check(sum((list(f) for f in factors), []) == list(s),
            "factors %r of %r", factors, s)
    for f in factors:
        t.check(type(f) is type(s) and len(f) and is_lyndon(f),
                "factor %r of %r", f, s)
    for f, g in zip(factors, factors[1:]):
        t.check(f >= g, "factors %r and %r of %r", f, g, s)
    ends = list(itertools.accumulate(len(f) for f in factors))
    t.equal(list(ly.ChenFoxLyndonBreakpoints(s)), ends, "break points")
    t.equal(bool(ly.isLyndonWord(s)), is_lyndon(s), "Lyndon test of %r" % (
        s,))
    if n:
        t.equal(ly.SmallestSuffix(s), min(s[i:] for i in range(n)),
                "smallest suffix of %r" % (s,))
        t.equal(ly.SmallestRotation(s), min(s[i:] + s[:i] for i in range(n)),
                "smallest rotation of %r" % (s,))
    return factors


def words(tier):
    for s, top in ((1, 8), (2, 11 if tier == "quick" else 14),
                   (3, 7 if tier == "quick" else 9), (4, 5)):
        for n in range(top + 1):
            yield from itertools.product(range(s), repeat=n)


@unit("P35", "words", enum=words)
def all_words(case, t):
    """Every word to length 11 over two symbols, 7 over three, 5 over four;
    nontrivial with three or more factors."""
    t.nontrivial(len(definitions(form(case, "str"), t, "str")) > 2)


@unit("P35", "random", quick=3000, cases=st.tuples(
    gens.ints(0, 60), gens.ints(1, 9),
    st.sampled_from(["str", "bytes", "pairs", "list", "tuple"]), gens.SEEDS))
def random_words(case, t):
    """Words of up to 60 items in several types, some periodic; nontrivial
    with two factors or more, one repeated."""
    n, s, kind, seed = case
    r = random.Random(seed)
    word = [r.randrange(s) for _ in range(n)]
    if r.random() < .5 and n:
        period = word[:r.randrange(1, n + 1)]
        word = (period * n)[:n]
        if r.random() < .5:
            word[r.randrange(n)] = r.randrange(s)
    factors = definitions(form(word, kind), t, kind)
    t.nontrivial(len(factors) > 1 and any(
        f == g for f, g in zip(factors, factors[1:])))


@unit("P35", "long", quick=120, cases=st.tuples(
    gens.ints(80, 400), gens.ints(1, 9),
    st.sampled_from(["str", "bytes", "pairs", "list", "tuple"]), gens.SEEDS),
    shards=8)
def long_words(case, t):
    """Words of 80 to 400 items, otherwise as random; nontrivial as there."""
    random_words(case, t)
