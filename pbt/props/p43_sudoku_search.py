import io
import random

from hypothesis import strategies as st

from pads.sudoku import BadSudoku, Sudoku, all_solutions, unisolvent

from pbt import gens, sudokus
from pbt.core import unit


@st.composite
def puzzles(draw):
    r = random.Random(draw(gens.SEEDS))
    kind = r.choice(["one", "many", "many", "sparse", "none"])
    if kind == "one":
        p = sudokus.hard(r)
    elif kind == "many":
        p, _ = sudokus.many(r, 80)
    elif kind == "sparse":
        p, _ = sudokus.sparse(r, 80)
    else:
        p = sudokus.none(r)
    return sudokus.text(p), r.random() < .7, r.random() < .5, r.random() < .2


@unit("P43", "all", cases=puzzles(), quick=800, shards=8)
def everything(case, t):
    """At least two solutions."""
    puzzle, fast, twosat, verbose = case
    puzzle = [int(x) for x in puzzle]
    want = sudokus.solutions(puzzle, 200)
    grid = Sudoku(puzzle)
    grid.twosat = twosat
    if verbose:
        grid.logstream = io.StringIO()
    got = []
    for s in all_solutions(grid, fast):
        t.check(s.complete(), "an unfinished grid was yielded")
        got.append(tuple(s.contents))
        t.check(len(got) <= 3 * len(want) + 3, "far too many solutions",
                len(got), "instead of", len(want))
    t.equal(len(set(got)), len(got), "a solution was yielded twice")
    t.equal(sorted(got), sorted(want), "solutions")
    t.label("%d solutions" % min(len(want), 2))
    if len(want) > 8:
        t.label("many")
    t.nontrivial(len(want) > 1)


@unit("P43", "kept", cases=puzzles(), quick=300, shards=8)
def kept(case, t):
    """At least two solutions."""
    puzzle = [int(x) for x in case[0]]
    want = sudokus.solutions(puzzle, 200)
    grids = list(all_solutions(Sudoku(puzzle)))
    t.equal(sorted(tuple(g) for g in grids), sorted(want),
            "solutions looked at after the search")
    t.nontrivial(len(want) > 1)


@unit("P43", "unique", cases=puzzles(), quick=800, shards=8)
def uniqueness(case, t):
    """The puzzle has one solution, or at least two."""
    puzzle = [int(x) for x in case[0]]
    n = len(sudokus.solutions(puzzle, 2))
    t.equal(unisolvent(Sudoku(puzzle)), n == 1, "uniquely solvable")
    t.label("%d solutions" % n)
    t.nontrivial(n > 0)


@unit("P43", "first", cases=st.tuples(gens.SEEDS, gens.ints(0, 16)),
      quick=150, shards=8)
def first(case, t):
    """At most ten givens."""
    seed, k = case
    r = random.Random(seed)
    full = sudokus.solved(r)
    puzzle = [0] * 81
    for c in r.sample(range(81), k):
        puzzle[c] = full[c]
    got = set()
    for s in all_solutions(Sudoku(puzzle)):
        t.check(sudokus.is_solution(s.contents), "not a solution")
        t.check(all(a in (0, b) for a, b in zip(puzzle, s.contents)),
                "not a completion of the puzzle")
        t.check(tuple(s.contents) not in got, "a solution was yielded twice")
        got.add(tuple(s.contents))
        if len(got) == 25:
            break
    t.equal(len(got), len(sudokus.solutions(puzzle, 25)),
            "number of solutions up to 25")
    t.equal(unisolvent(Sudoku(puzzle)),
            len(sudokus.solutions(puzzle, 2)) == 1, "uniquely solvable")
    t.nontrivial(k <= 10)


@st.composite
def ruled_out(draw):
    r = random.Random(draw(gens.SEEDS))
    p, sols = sudokus.many(r, 80) if r.random() < .6 else \
        sudokus.sparse(r, 80)
    spots = sorted({(s[c], c) for s in sols for c in range(81)
                    if len({x[c] for x in sols}) > 1})
    out = r.sample(spots, min(len(spots), r.choice([1, 1, 2, 3])))
    return sudokus.text(p), out, r.random() < .7


@unit("P43", "excluded", cases=ruled_out(), quick=300, shards=8)
def respected(case, t):
    """At least two solutions remain, and at least one has gone."""
    puzzle, out, fast = case
    puzzle = [int(x) for x in puzzle]
    every = sudokus.solutions(puzzle, 200)
    want = [s for s in every if all(s[c] != d for d, c in out)]
    grid = Sudoku(puzzle)
    for d, c in out:
        grid.unplace(d, 1 << c)
    got = [tuple(s.contents) for s in all_solutions(grid, fast)]
    t.equal(len(set(got)), len(got), "a solution was yielded twice")
    t.equal(sorted(got), sorted(want), "solutions")
    t.nontrivial(1 < len(want) < len(every))


@st.composite
def clashing(draw):
    """(digit, cell) pairs of which one contradicts another."""
    r = random.Random(draw(gens.SEEDS))
    full = sudokus.solved(r)
    cells = r.sample(range(81), r.choice([1, 5, 20, 40, 81]))
    pairs = [(full[c], c) for c in cells]
    c = r.choice(cells)
    if r.random() < .5:
        bad = (r.choice([d for d in range(1, 10) if d != full[c]]), c)
    else:
        bad = (full[c], r.choice(sudokus.PEERS[c]))
    pairs.insert(r.randrange(len(pairs) + 1), bad)
    return pairs, r.random() < .5


@unit("P43", "clashing", cases=clashing(), quick=800)
def clash(case, t):
    """Givens of which two are in one cell or alike in one row, column or
    square, refused or without completion; all nontrivial."""
    pairs, fast = case
    t.nontrivial()
    try:
        grid = Sudoku(pairs)
    except BadSudoku:
        t.label("refused")
        return
    t.equal([tuple(s) for s in all_solutions(grid, fast)], [], "completions")
