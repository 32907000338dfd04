import itertools
import random

from hypothesis import strategies as st

from pads.smawk import ConcaveMinima, OnlineConcaveMinima

from pbt import gens
from pbt.core import unit


def monotone(M):
    """The documented condition, on a list of rows."""
    rows, cols = len(M), len(M[0])
    return all(not M[i][j] > M[k][j] or M[i][q] > M[k][q]
               for i in range(rows) for k in range(i + 1, rows)
               for j in range(cols) for q in range(j + 1, cols))


def matrix(rows, cols, r, plain=False):
    """A random matrix with the documented property, rows giving way to later
    ones at chosen columns; sums with a function of the row keep the property
    if it is plain."""
    if not plain and r.random() < .5:
        return ordered(rows, cols, r)
    wmax, dense = r.choice([(1, .2), (1, .5), (3, .5), (9, .9), (1, .05)])
    cross = [r.randrange(cols) for _ in range(rows)] if cols else [0] * rows
    if r.random() < .7:
        cross.sort()
    low = 0
    M = []
    above = [0] * cols
    for i in range(rows):
        run = 0
        drop = []
        for j in range(cols):
            if r.random() < dense:
                run += r.randrange(wmax + 1)
            drop.append(run)
        if i and cols:
            low += drop[cross[i]] + r.choice([-1, 0, 0, 0, 1])
        above = [a + d for a, d in zip(above, drop)]
        M.append([low - a for a in above])
    if plain:
        return M
    if r.random() < .5:             # strictly increasing map per column
        for j in range(cols):
            a, b = r.randrange(1, 4), r.randrange(-5, 6)
            if r.random() < .3:
                for i in range(rows):
                    M[i][j] = M[i][j] ** 3 + b
            else:
                for i in range(rows):
                    M[i][j] = a * M[i][j] + b
    if r.random() < .1:
        M = [[x / 2 for x in row] for row in M]
    return M


def ordered(rows, cols, r):
    """A random matrix with the documented property and no more: each column
    is any ranking of the rows in which a pair once inverted stays inverted,
    while other pairs may tie and untie."""
    order = list(range(rows))           # by increasing value
    pace = r.choice([1, 2, rows, 2 * rows])
    tie = r.choice([0, .3, .6, .9])
    columns = []
    for j in range(cols):
        for _ in range(r.randrange(pace + 1) if rows > 1 else 0):
            i = r.randrange(rows - 1)
            if order[i] < order[i + 1]:
                order[i], order[i + 1] = order[i + 1], order[i]
        values = {}
        value = r.randrange(-3, 4)
        for i, row in enumerate(order):
            if i and not (order[i - 1] < row and r.random() < tie):
                value += r.randrange(1, 4)
            values[row] = value
        columns.append(values)
    return [[c[i] for c in columns] for i in range(rows)]


ROWS = ["range", "list", "tuple", "spread", "reversed", "shuffled", "mixed"]


def row_labels(kind, n, r):
    if kind == "range":
        return range(n)
    if kind == "tuple":
        return tuple(range(n))
    if kind == "list":
        return list(range(n))
    if kind == "spread":
        return [3 * i - 7 for i in range(n)]
    if kind == "reversed":
        return list(range(n))[::-1]
    if kind == "mixed":
        return [(i, str(i), None, (i,))[i % 4 if i != 2 else 2]
                if i < 4 else "x%d" % i if i % 2 else i for i in range(n)]
    out = list(range(n))
    r.shuffle(out)
    return out


def offline(M, rows, cols, t):
    where = {r: i for i, r in enumerate(rows)}
    column = {c: j for j, c in enumerate(cols)}
    out = ConcaveMinima(rows, cols, lambda i, j: M[where[i]][column[j]])
    t.check(set(out) == set(cols), "columns %r answered, not %r", out, cols)
    for c, j in column.items():
        best = min(range(len(M)), key=lambda i: M[i][j])
        t.check(out[c] == (M[best][j], rows[best]),
                "column %d gives %r, not %r", j, out[c],
                (M[best][j], rows[best]))


@unit("P30", "offline", quick=16000, cases=st.tuples(
    gens.ints(1, 12), gens.ints(0, 12), st.sampled_from(ROWS),
    st.sampled_from(ROWS), gens.SEEDS))
def minima(case, t):
    """Monotone matrices of up to 12 rows and columns with various labels;
    nontrivial when the minima lie in three or more rows."""
    n, m, rkind, ckind, seed = case
    r = random.Random(seed)
    M = matrix(n, m, r)
    offline(M, row_labels(rkind, n, r), row_labels(ckind, m, r), t)
    t.nontrivial(m and len({min(range(n), key=lambda i: M[i][j])
                            for j in range(m)}) > 2)
    if any(len({row[j] for row in M}) < n for j in range(m)):
        t.label("ties")


@unit("P30", "large", quick=200, cases=st.tuples(
    gens.ints(1, 150), gens.ints(1, 150), gens.SEEDS))
def large(case, t):
    """Matrices of up to 150 rows and columns; nontrivial when the minima lie
    in ten or more rows."""
    n, m, seed = case
    r = random.Random(seed)
    M = matrix(n, m, r)
    offline(M, range(n), range(m), t)
    t.nontrivial(len({min(range(n), key=lambda i: M[i][j])
                      for j in range(m)}) > 9)


def small(tier):
    shapes = [(1, 3), (2, 3), (3, 2), (3, 3), (2, 4)]
    if tier != "quick":
        shapes += [(4, 3), (3, 4)]
    for n, m in shapes:
        values = 3 if n * m <= 9 else 2
        for flat in itertools.product(range(values), repeat=n * m):
            M = [list(flat[i * m:i * m + m]) for i in range(n)]
            if monotone(M):
                yield M


@unit("P30", "exhaustive", enum=small)
def every(M, t):
    """Every matrix of up to 3 by 3 with entries 0, 1, 2 that has the
    property; nontrivial with three rows used."""
    t.nontrivial(len({min(range(len(M)), key=lambda i: M[i][j])
                      for j in range(len(M[0]))}) > 1)
    offline(M, range(len(M)), range(len(M[0])), t)


@unit("P30", "online", quick=6000, cases=st.tuples(
    gens.ints(1, 25), gens.SEEDS, st.booleans()))
def online(case, t):
    """Online minima over up to 25 columns in random request order, half of
    them defined from earlier values; nontrivial when four or more rows give
    minima."""
    n, seed, recursive = case
    r = random.Random(seed)
    M = matrix(n, n + 1, r, plain=recursive)
    if recursive and r.random() < .6:
        # convex function of line length, as in paragraph breaking
        ends = [0]
        for _ in range(n):
            ends.append(ends[-1] + r.randrange(0, 4))
        target, over = r.randrange(1, 12), r.randrange(1, 30)

        def gap(x):
            return (target - x) ** 2 if x <= target else over * (x - target)
        M = [[gap(ends[j] - ends[i]) if j > i else 0 for j in range(n + 1)]
             for i in range(n)]
    start = r.choice([0, 5, -3, 100])
    want = [start]
    for j in range(1, n + 1):
        want.append(min((want[i] if recursive else 0) + M[i][j]
                        for i in range(j)))
    calls = []

    def entry(i, j):
        calls.append((i, j))
        t.check(0 <= i < j, "entry %d,%d examined", i, j)
        if j > n:
            return -i
        if recursive:
            t.equal(search.value(i), want[i], "value %d inside entry" % i)
            return want[i] + M[i][j]
        return M[i][j]

    search = OnlineConcaveMinima(entry, start)

    def row(j, i):
        if j == 0:
            return
        t.check(0 <= i < j and
                (want[i] if recursive else 0) + M[i][j] == want[j],
                "row %r for column %d", i, j)
    it = iter(search)
    at = 0
    used = set()
    for _ in range(n):
        kind = r.randrange(4)
        j = r.randrange(n + 1) if r.random() < .5 else min(at, n)
        if kind == 0:
            t.equal(search.value(j), want[j], "value of column %d" % j)
        elif kind == 1:
            row(j, search.index(j))
        elif at <= n:
            value, i = next(it)
            t.equal(value, want[at], "iterated value of column %d" % at)
            row(at, i)
            at += 1
    for j in range(n + 1):
        t.equal(search.value(j), want[j], "final value of column %d" % j)
        row(j, search.index(j))
        used.add(search.index(j))
    for j, (value, i) in zip(range(n + 1), search):
        t.equal(value, want[j], "value of column %d iterated again" % j)
        row(j, i)
    t.nontrivial(len(used) > 4)
    t.label("recursive" if recursive else "given")


@unit("P30", "paragraphs", quick=400, cases=st.tuples(
    gens.ints(20, 120), gens.SEEDS))
def paragraphs(case, t):
    """Online minima over up to 120 columns of dynamic programs; nontrivial
    when ten or more rows give minima."""
    n, seed = case
    r = random.Random(seed)
    ends = [0]
    for _ in range(n):
        ends.append(ends[-1] + r.randrange(0, 5))
    target = r.randrange(3, 30)
    flat = r.randrange(0, 30)
    power = r.choice([1, 2, 3])

    def cost(i, j):
        return flat + abs(target - ends[j] + ends[i]) ** power
    want = [0]
    for j in range(1, n + 1):
        want.append(min(want[i] + cost(i, j) for i in range(j)))
    search = OnlineConcaveMinima(
        lambda i, j: -i if j > n else search.value(i) + cost(i, j), 0)
    used = set()
    for j in range(n, 0, -1) if r.random() < .5 else range(1, n + 1):
        t.equal(search.value(j), want[j], "value of column %d" % j)
        i = search.index(j)
        t.check(i < j and want[i] + cost(i, j) == want[j],
                "row %r for column %d", i, j)
        used.add(i)
    t.nontrivial(len(used) > 9)
