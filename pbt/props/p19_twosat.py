import itertools
import random

from hypothesis import strategies as st

from pads._not import DoubleNegationError, Not, SymbolicNegation
from pads.two_satisfiability import Forced, Satisfiable, Symmetrize

from pbt import gens, oracles
from pbt.core import unit


@st.composite
def systems(draw, most=6):
    """(variables, implications (i, si, j, sj), label, container, keys)"""
    n = draw(gens.ints(1, most))
    r = random.Random(draw(gens.SEEDS))
    count = draw(gens.ints(0, 3 * n))
    imps = []
    for _ in range(count):
        i, j = r.randrange(n), r.randrange(n)
        if i == j and r.random() < .7:
            continue
        imps.append((i, r.randrange(2), j, r.randrange(2)))
    return (n, imps, draw(st.sampled_from(gens.LABELS)),
            draw(st.sampled_from(["list", "tuple", "set"])))


def build(case):
    n, imps, label, container = case
    name = gens.labels(label, n)

    def lit(i, s):
        return name[i] if s else Not(name[i])
    G = {}
    for i, si, j, sj in imps:
        G.setdefault(lit(i, si), []).append(lit(j, sj))
    return {v: gens._contain(dict.fromkeys(ws), container)
            for v, ws in G.items()}, name


def by_trial(imps, mentioned):
    """Satisfiable, and the forced values, by trying all assignments."""
    good = []
    for values in itertools.product((False, True), repeat=len(mentioned)):
        value = dict(zip(mentioned, values))
        if all(value[i] != bool(si) or value[j] == bool(sj)
               for i, si, j, sj in imps):
            good.append(value)
    want = {}
    for i in mentioned:
        seen = {value[i] for value in good}
        if len(seen) == 1:
            want[i] = seen.pop()
    return bool(good), want


def by_reach(imps, mentioned):
    """The same from what each literal implies: a value is impossible when it
    implies its own opposite."""
    G = {(i, s): set() for i in mentioned for s in (0, 1)}
    for i, si, j, sj in imps:
        G[i, si].add((j, sj))
        G[j, 1 - sj].add((i, 1 - si))
    reach = oracles.closure(G)
    wrong = {(i, s) for i, s in G if (i, 1 - s) in reach[i, s]}
    return (not any((i, 0) in wrong and (i, 1) in wrong for i in mentioned),
            {i: not s for i, s in wrong})


def check(case, t):
    n, imps, label, container = case
    G, name = build(case)
    mentioned = sorted({i for imp in imps for i in (imp[0], imp[2])})
    good, values = by_reach(imps, mentioned)
    if n <= 6:
        trial = by_trial(imps, mentioned)
        assert trial[0] == good and (not good or trial[1] == values)
    t.nontrivial(len(imps) > 2)
    t.label("satisfiable" if good else "unsatisfiable")
    t.check(bool(Satisfiable(G)) == bool(good), "Satisfiable is not %s",
            bool(good))
    forced = Forced(G)
    if not good:
        t.check(forced is None, "forced values %r of unsatisfiable", forced)
    else:
        want = {name[i]: value for i, value in values.items()}
        if want:
            t.label("forced")
        t.check(forced is not None, "satisfiable system refused")
        t.equal(dict(forced), want, "forced values")
        t.check(all(v is True or v is False for v in forced.values()),
                "forced values are not truth values")
    S = Symmetrize(G)
    arcs = {(v, w) for v in G for w in G[v]}
    arcs |= {(Not(w), Not(v)) for v, w in arcs}
    t.equal({(v, w) for v in S for w in S[v]}, arcs, "completed system")
    t.equal(set(S), {x for i in mentioned
                     for x in (name[i], Not(name[i]))}, "literals")


@unit("P19", "random", quick=8000, cases=systems())
def random_systems(case, t):
    """Random implication systems on up to 6 variables; nontrivial with three
    or more implications."""
    check(case, t)


def small_systems(tier):
    lits = [(0, 0), (0, 1), (1, 0), (1, 1)]
    imps = [a + b for a in lits for b in lits if a != b]
    for size in range(4 if tier == "quick" else 6):
        for k, chosen in enumerate(itertools.combinations(imps, size)):
            yield (2, list(chosen), gens.LABELS[k % len(gens.LABELS)], "list")


@unit("P19", "small", enum=small_systems)
def small(case, t):
    """Every system of up to 3 implications on two variables (5 when
    thorough); nontrivial as for random."""
    check(case, t)


VALUES = st.recursive(
    st.one_of(st.integers(-5, 5), st.text(max_size=3), st.booleans(),
              st.none(), st.floats(allow_nan=False, allow_infinity=False,
                                   width=16)),
    lambda s: st.tuples(s, s), max_leaves=4)


@unit("P19", "negation", quick=3000, cases=st.tuples(VALUES, VALUES))
def negation(case, t):
    """Pairs of values under symbolic negation; nontrivial when different."""
    x, y = case
    t.nontrivial(x != y)
    t.check(Not(Not(x)) == x and Not(Not(Not(x))) == Not(x), "involution")
    t.check((Not(x) == Not(y)) == (x == y), "equality")
    t.check((Not(x) != Not(y)) == (x != y), "inequality")
    t.check(not Not(x) == x and not x == Not(x) and Not(x) != x,
            "value equals its negation")
    t.check(not Not(x) == y or isinstance(y, SymbolicNegation), "equality")
    if x == y:
        t.check(hash(Not(x)) == hash(Not(y)), "hashes differ")
    t.check(len({Not(x), Not(y), Not(Not(x))}) ==
            len({x, y}) + 1, "set of negations")
    t.check(isinstance(Not(x), SymbolicNegation)
            and not isinstance(Not(Not(x)), SymbolicNegation), "type")
    t.check(Not(x).negate() == x, "negate")
    t.equal(repr(Not(x)), "Not(%r)" % (x,), "repr")
    t.refuses(DoubleNegationError, SymbolicNegation, Not(x))
    # values that are not hashable can be negated too
    t.check(Not([x]) == Not([x]) and Not(Not([x])) == [x], "list negation")


@st.composite
def chains(draw):
    """Many variables, few implications each, so that about half are
    satisfiable and long chains of implications occur."""
    n = draw(gens.ints(7, 50))
    r = random.Random(draw(gens.SEEDS))
    imps = []
    if r.random() < .5:
        path = [(i, r.randrange(2)) for i in r.sample(range(n), n // 2)]
        imps += [a + b for a, b in zip(path, path[1:])]
        if r.random() < .7:
            i, s = path[-1]
            imps.append((i, s, path[0][0], 1 - path[0][1]))
    for _ in range(r.randrange(int(1.2 * n))):
        i, j = r.sample(range(n), 2)
        imps.append((i, r.randrange(2), j, r.randrange(2)))
    r.shuffle(imps)
    return (n, imps, draw(st.sampled_from(gens.LABELS)),
            draw(st.sampled_from(["list", "tuple", "set"])))


@unit("P19", "medium", quick=800, cases=chains())
def medium(case, t):
    """Systems on 7 to 50 variables; nontrivial as for random."""
    check(case, t)
