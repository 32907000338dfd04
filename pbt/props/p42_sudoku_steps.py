import io
import random

from hypothesis import strategies as st

from pads import sudoku
from pads.sudoku import BadSudoku, Sudoku, step

from pbt import gens, sudokus
from pbt.core import unit


def state(grid):
    return list(grid.contents), list(grid.locations)


def prepare(t, puzzle, form, unique, twosat):
    """Construct a grid in one of the accepted ways."""
    if form == "digits":
        grid = Sudoku(list(puzzle))
    elif form == "text":
        grid = Sudoku(sudokus.text(puzzle))
    elif form == "pairs":
        grid = Sudoku([(d, c) for c, d in enumerate(puzzle) if d][::-1])
    elif form == "iterator":
        grid = Sudoku(iter(puzzle))
    else:
        grid = Sudoku(Sudoku(list(puzzle)))
    t.equal(list(grid), list(puzzle), "contents after construction")
    t.equal(grid.complete(), 0 not in puzzle, "complete() after construction")
    grid.assume_unique = unique
    grid.twosat = twosat
    return grid


def sound(t, grid, sols, before, moved):
    """Nothing lost, nothing gained, progress reported exactly."""
    contents, locations = state(grid)
    t.equal(moved, (contents, locations) != before, "progress reported")
    for c in range(81):
        if before[0][c]:
            t.equal(contents[c], before[0][c], "a filled cell changed")
    for d in range(1, 10):
        t.check(not locations[d] & ~before[1][d], "a position came back", d)
    for s in sols:
        for c in range(81):
            t.check(locations[s[c]] >> c & 1 and contents[c] in (0, s[c]),
                    "a solution was lost at cell", c, "digit", s[c],
                    "rules", sorted(grid.rules_used))
    if grid.complete():
        t.check(sudokus.is_solution(contents), "complete but not a solution",
                contents)
        t.check(tuple(contents) in [tuple(s) for s in sols],
                "complete but not a solution of this puzzle")


def follow(t, case, sols, excluded=()):
    """Step to the end, now and then removing candidates no solution uses."""
    puzzle, form, unique, twosat, quick, verbose, seed, rounds = case
    puzzle = [int(x) for x in puzzle]
    r = random.Random(seed)
    grid = prepare(t, puzzle, form, unique, twosat)
    twin = None
    if verbose:
        twin = prepare(t, puzzle, "digits", unique, twosat)
        twin.logstream = io.StringIO()
    for d, c in excluded:
        grid.unplace(d, 1 << c)
        if twin is not None:
            twin.unplace(d, 1 << c)
    fired = set()
    for turn in range(rounds + 1):
        while True:
            before = state(grid)
            grid.rules_used = set()
            try:
                moved = step(grid, quick)
            except BadSudoku as e:
                t.check(not sols, "contradiction reported in a puzzle with",
                        len(sols), "solutions:", str(e),
                        sorted(grid.rules_used))
                moved = None
            if moved is not None:
                sound(t, grid, sols, before, moved)
                fired |= grid.rules_used
            if twin is not None:
                was = state(twin)
                twin.rules_used = set()
                try:
                    said = step(twin, quick)
                except BadSudoku:
                    said = None
                if said is not None:
                    sound(t, twin, sols, was, said)
                else:
                    t.check(not sols, "contradiction reported when verbose")
                if (moved, said) == (None, None):
                    pass
                elif state(twin) != state(grid) or moved != said:
                    # which of several equally short cycles is found first
                    # is not determined
                    t.check("repeat" in grid.rules_used or
                            "repeat" in twin.rules_used,
                            "explanations changed the deductions: silent",
                            sorted(grid.rules_used), "verbose",
                            sorted(twin.rules_used))
                    twin = None
            if not moved:
                break
        if moved is None or grid.complete() or turn == rounds:
            break
        spare = [(d, c) for d in range(1, 10) for c in range(81)
                 if not grid.contents[c] and grid.locations[d] >> c & 1 and
                 all(s[c] != d for s in sols)]
        if not spare:
            break
        for d, c in r.sample(spare, min(len(spare), r.choice([1, 1, 2, 4]))):
            grid.unplace(d, 1 << c)
            if twin is not None:
                twin.unplace(d, 1 << c)
    if twin is not None:
        t.check(twin.logstream.getvalue(), "nothing was explained")
    for name in fired:
        t.label(name)
    t.nontrivial(len(fired) > 2)
    return grid


FORMS = st.sampled_from(["digits", "text", "pairs", "iterator", "grid"])


@st.composite
def unique_cases(draw):
    r = random.Random(draw(gens.SEEDS))
    p = sudokus.hard(r) if r.random() < .8 else sudokus.minimal(r)
    if r.random() < .2:
        full = sudokus.solutions(p, 1)[0]
        for c in r.sample(range(81), r.randrange(8)):
            p[c] = full[c]
    return sudokus.text(p), draw(FORMS), r.random() < .8, r.random() < .5, \
        r.random() < .15, r.random() < .4, r.randrange(1 << 30), 3


@unit("P42", "unique", cases=unique_cases(), quick=1500, shards=8)
def unique(case, t):
    """More than two different rules made progress."""
    puzzle = [int(x) for x in case[0]]
    sols = sudokus.solutions(puzzle, 2)
    assert len(sols) == 1
    follow(t, case, sols)


@st.composite
def many_cases(draw):
    r = random.Random(draw(gens.SEEDS))
    p, _ = sudokus.many(r, 60)
    return sudokus.text(p), draw(FORMS), False, r.random() < .6, \
        r.random() < .1, r.random() < .4, r.randrange(1 << 30), \
        r.choice([0, 2, 6, 12])


@unit("P42", "several", cases=many_cases(), quick=800, shards=8)
def several(case, t):
    """More than two different rules made progress."""
    puzzle = [int(x) for x in case[0]]
    sols = sudokus.solutions(puzzle, 61)
    assert 2 <= len(sols) <= 60
    grid = follow(t, case, sols)
    t.check(not grid.complete(), "one of", len(sols), "solutions was chosen")


@st.composite
def none_cases(draw):
    r = random.Random(draw(gens.SEEDS))
    p = sudokus.none(r)
    return sudokus.text(p), draw(FORMS), r.random() < .4, r.random() < .6, \
        r.random() < .1, r.random() < .5, r.randrange(1 << 30), 0


@unit("P42", "impossible", cases=none_cases(), quick=500, shards=8)
def impossible(case, t):
    """More than two different rules made progress."""
    puzzle = [int(x) for x in case[0]]
    assert not sudokus.solutions(puzzle, 1)
    grid = follow(t, case, [])
    t.check(not grid.complete(), "an impossible puzzle was completed")


@st.composite
def excluded_cases(draw):
    """Some positions are excluded, often too many for a row, column or
    square to be filled."""
    r = random.Random(draw(gens.SEEDS))
    p = [0] * 81
    full = sudokus.solved(r)
    kind = r.choice(["sparse", "many", "empty"])
    if kind == "sparse":
        p, _ = sudokus.sparse(r, 60)
    elif kind == "many":
        p, _ = sudokus.many(r, 60)
    out = set()
    if r.random() < .8 or kind == "empty":
        u = r.choice(sudokus.UNITS)
        empty = [c for c in u if not p[c]]
        left = [d for d in range(1, 10) if all(p[c] != d for c in u)]
        k = r.randrange(2, 7)
        ds = r.sample(left, min(k, len(left)))
        keep = r.sample(empty, min(len(ds) - r.choice([0, 1, 1]),
                                   len(empty)))
        out |= {(d, c) for d in ds for c in empty if c not in keep}
    if kind != "empty":
        out |= {(r.randrange(1, 10), r.randrange(81))
                for _ in range(r.randrange(12))}
    out = [(d, c) for d, c in sorted(out) if p[c] != d]
    if kind == "empty" and sudokus.solutions(p, 1, None, out):
        p = full
        for c in r.sample(range(81), 40):
            p[c] = 0
        out = [(d, c) for d, c in out if p[c] != d]
    return sudokus.text(p), draw(FORMS), False, r.random() < .6, \
        r.random() < .1, r.random() < .4, r.randrange(1 << 30), 0, out


@unit("P42", "excluded", cases=excluded_cases(), quick=800, shards=8)
def excluded(case, t):
    """More than two different rules made progress."""
    puzzle = [int(x) for x in case[0]]
    out = case[-1]
    sols = sudokus.solutions(puzzle, 200, None, out)
    if len(sols) == 200:
        return
    t.label("%d solutions" % min(2, len(sols)))
    follow(t, case[:-1], sols, out)


@st.composite
def clash_cases(draw):
    r = random.Random(draw(gens.SEEDS))
    full = sudokus.solved(r)
    p = [d if r.random() < .4 else 0 for d in full]
    c = r.randrange(81)
    kind = draw(st.sampled_from(["fine", "clash", "range"]))
    if kind == "clash":
        q = r.choice(sudokus.PEERS[c])
        p[q] = p[c] = r.randrange(1, 10)
    elif kind == "range":
        p[c] = r.choice([10, 11, -1, 57])
    return kind, p, draw(st.sampled_from(["digits", "pairs"])), c


@unit("P42", "givens", cases=clash_cases(), quick=300)
def givens(case, t):
    """Two givens conflict, or one is out of range."""
    kind, p, form, c = case
    given = p if form == "digits" else [(d, i) for i, d in enumerate(p) if d]
    if kind == "clash":
        t.refuses(BadSudoku, Sudoku, given)
    elif kind == "range":
        t.refuses(ValueError, Sudoku, given)
    else:
        grid = Sudoku(given)
        t.equal(list(grid.contents), p, "contents")
        for i in range(81):
            fits = [p[i]] if p[i] else [
                d for d in range(1, 10)
                if all(p[q] != d for q in sudokus.PEERS[i])]
            t.equal(list(grid.choices(i)), fits, "choices for a cell")
        before = state(grid)
        if p[c]:
            t.refuses(BadSudoku, grid.place, p[c] % 9 + 1, c)
            grid.place(p[c], c)
        else:
            fits = grid.choices(c)
            for d in range(1, 10):
                if d not in fits:
                    t.refuses(BadSudoku, grid.place, d, c)
        for d in (0, 10, -3):
            t.refuses(ValueError, grid.place, d, c)
            t.refuses(ValueError, grid.unplace, d, 1 << c)
        t.equal(state(grid), before, "state after refused placements")
    t.nontrivial(kind != "fine")
