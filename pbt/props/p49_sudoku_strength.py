import io
import random

from hypothesis import strategies as st

from pads.sudoku import BadSudoku, step

from pbt import gens, sudokus
from pbt.core import unit
from pbt.props.p42_sudoku_steps import FORMS, prepare

DIGITS = range(1, 10)
LINES, SQUARES = sudokus.UNITS[:18], sudokus.UNITS[18:]
PEERS = [set(p) for p in sudokus.PEERS]

# the documented order in which the rules are tried
ORDER = ["locate", "eliminate", "align", "pair", "triad", "trapezoid",
         "rectangle", "subproblem", "nishio", "bilocal", "bivalue", "repeat",
         "path", "conflict", "twosat"]
FAST = ORDER[:7]
# corners, by row and column, of the rectangles in two squares
RECTANGLES = [(9 * a + b, 9 * a + d, 9 * c + b, 9 * c + d)
              for c in range(9) for a in range(c)
              for d in range(9) for b in range(d)
              if (a // 3 == c // 3) != (b // 3 == d // 3)]


class Position:
    """What is still possible, as sets."""

    def __init__(self, grid, unique, given, two):
        self.filled = list(grid.contents)
        self.cells = {d: {c for c in range(81)
                          if grid.locations[d] >> c & 1} for d in DIGITS}
        self.digits = [{d for d in DIGITS if c in self.cells[d]}
                       for c in range(81)]
        self.given = given
        self.unique = unique
        self.two = two

    def contradiction(self):
        return any(not self.digits[c] for c in range(81)) or \
            any(not self.cells[d] & set(u) for d in DIGITS
                for u in sudokus.UNITS)

    # Each of the following gives the conclusions that the rule's description
    # allows and that have not been drawn: digits and cells, to be placed or
    # excluded as goes with the rule, and what they follow from.

    def excluding(self, digits, cells, *why):
        for c in cells:
            for d in self.digits[c].intersection(digits):
                yield (d, c) + why

    def locate(self):
        for d in DIGITS:
            for u in sudokus.UNITS:
                where = self.cells[d].intersection(u)
                if len(where) == 1 and self.filled[min(where)] != d:
                    yield d, min(where)

    def eliminate(self):
        for c in range(81):
            if len(self.digits[c]) == 1 and not self.filled[c]:
                yield min(self.digits[c]), c

    def align(self):
        for d in DIGITS:
            for s in SQUARES:
                for n in LINES:
                    both = set(s) & set(n)
                    if both:
                        a = self.cells[d] & set(s)
                        b = self.cells[d] & set(n)
                        # one cell only is the business of locate
                        if len(a) > 1 and a <= both:
                            for c in b - a:
                                yield d, c, frozenset(a)
                        if len(b) > 1 and b <= both:
                            for c in a - b:
                                yield d, c, frozenset(b)

    def pair(self):
        confined = {}
        for d in DIGITS:
            for u in sudokus.UNITS:
                where = frozenset(self.cells[d].intersection(u))
                if len(where) == 2:
                    confined.setdefault(where, set()).add(d)
        for where, ds in confined.items():
            if len(ds) == 2:
                yield from self.excluding(set(DIGITS) - ds, where, where)

    def triad(self):
        for s in SQUARES:
            for n in LINES:
                both = set(s) & set(n)
                if not both:
                    continue
                forced = {d for d in DIGITS
                          if self.cells[d] & set(s) <= both
                          or self.cells[d] & set(n) <= both}
                if len(forced) == 3:
                    yield from self.excluding(set(DIGITS) - forced, both, 0)
                    yield from self.excluding(forced,
                                              (set(s) | set(n)) - both,
                                              frozenset(both))

    def empty_rectangles(self):
        return [k for k in RECTANGLES if not any(self.given[c] for c in k)]

    def trapezoid(self):
        """Two digits with four corners and one more cell in two squares."""
        if not self.unique:
            return
        for corners in self.empty_rectangles():
            s1, s2 = {tuple(sudokus.UNITS_OF[c][2]) for c in corners}
            squares = set(s1 + s2)
            outside = {d: self.cells[d] & squares - set(corners)
                       for d in DIGITS}
            if sum(not outside[d] for d in DIGITS) > 1:
                continue        # a rectangle is unavoidable
            few = [d for d in DIGITS if len(outside[d]) < 2]
            for e in few:
                for d in few:
                    if d >= e or len(outside[d] | outside[e]) != 1:
                        continue
                    x = min(outside[d] | outside[e])
                    far = [c for c in corners if (c in s1) != (x in s1)]
                    used = [x] + far
                    for c in corners:
                        if c in far:
                            continue
                        # the line through x, c and the other square
                        for u in sudokus.UNITS_OF[c][:2]:
                            if x in u and set(u).intersection(far):
                                yield from self.excluding(
                                    (d, e), [c], x, *corners)
                                used += [b for b in corners
                                         if b not in far and b != c]
                    yield from self.excluding(
                        set(DIGITS) - {d, e}, used, d, e, x, *corners)

    def rectangle(self):
        """Three corners with the same two choices and a fourth with one of
        these and more, or one of the other three ways."""
        if not self.unique:
            return
        for corners in self.empty_rectangles():
            for k, c in enumerate(corners):
                rest = [self.digits[e] for e in
                        corners[:k] + corners[k + 1:]]
                if len(rest[0]) == 2 and rest[0] == rest[1] == rest[2] \
                        and self.digits[c] & rest[0] \
                        and self.digits[c] - rest[0]:
                    yield from self.excluding(rest[0], [c])
            some = set().union(*[self.digits[c] for c in corners])
            if len(some) == 3:
                for d in some:
                    at = self.cells[d].intersection(corners)
                    for u in sudokus.UNITS_OF[min(at)]:
                        if at <= set(u):
                            yield from self.excluding(
                                [d], set(u) - at, *sorted(some), *corners)
            a, b, c, d = corners
            for near, far, line, sides in (
                    ((a, b), (c, d), 0, 1), ((c, d), (a, b), 0, 1),
                    ((a, c), (b, d), 1, 0), ((b, d), (a, c), 1, 0)):
                two = self.digits[near[0]] | self.digits[near[1]]
                if len(two) != 2:
                    continue
                for x in two:
                    y = min(two - {x})
                    at = self.cells[x].intersection(
                        sudokus.UNITS_OF[far[0]][line])
                    if at <= set(far):
                        yield from self.excluding([y], at, *corners)
                    for k in (0, 1):
                        side = self.cells[x].intersection(
                            sudokus.UNITS_OF[far[k]][sides])
                        if side <= {near[k], far[k]}:
                            yield from self.excluding(
                                [y], [far[1 - k]], *corners)

    def subproblem(self):
        for u in sudokus.UNITS:
            open_cells = [c for c in u if not self.filled[c]]
            # completions of the unit, by subsets of digits used
            ahead = [{0}]
            for c in open_cells:
                ahead.append({m | 1 << d for m in ahead[-1]
                              for d in self.digits[c] if not m >> d & 1})
            full = sum(1 << d for d in DIGITS) - sum(
                1 << self.filled[c] for c in u if self.filled[c])
            back = {full}
            for i in range(len(open_cells) - 1, -1, -1):
                c = open_cells[i]
                usable = {d for d in self.digits[c] for m in back
                          if m >> d & 1 and m & ~(1 << d) in ahead[i]}
                yield from self.excluding(set(DIGITS) - usable, [c])
                back = {m & ~(1 << d) for m in back for d in self.digits[c]
                        if m >> d & 1} & ahead[i]

    def nishio(self):
        for d in DIGITS:
            rows = [sorted(c % 9 for c in self.cells[d] if c // 9 == r)
                    for r in range(9)]
            # squares filled are known from the columns used within a band
            ahead = [{(0, 0)}]
            for r in range(9):
                new = set()
                for used, band in ahead[-1]:
                    for c in rows[r]:
                        if not used >> c & 1 and not band >> c // 3 & 1:
                            b = band | 1 << c // 3
                            new.add((used | 1 << c, 0 if r % 3 == 2 else b))
                ahead.append(new)
            alive = ahead[9]
            for r in range(8, -1, -1):
                usable, before = set(), set()
                for used, band in ahead[r]:
                    for c in rows[r]:
                        if not used >> c & 1 and not band >> c // 3 & 1:
                            b = band | 1 << c // 3
                            if (used | 1 << c, 0 if r % 3 == 2 else b) \
                                    in alive:
                                usable.add(c)
                                before.add((used, band))
                for c in set(rows[r]) - usable:
                    yield d, 9 * r + c
                alive = before

    # Links between cells: arcs (v, w, digit); a walk may not use the same
    # digit on two consecutive arcs.

    def bilocal_arcs(self):
        arcs = set()
        for d in DIGITS:
            for u in sudokus.UNITS:
                where = sorted(self.cells[d].intersection(u))
                if len(where) == 2:
                    arcs |= {(where[0], where[1], d), (where[1], where[0], d)}
        return arcs

    def bivalue_arcs(self):
        two = [c for c in range(81) if len(self.digits[c]) == 2]
        return {(v, w, d) for v in two for w in two if w in PEERS[v]
                for d in self.digits[v] & self.digits[w]}

    def bilocal(self):
        near = {}
        for v, w, d in on_cycles(self.bilocal_arcs()):
            near.setdefault(v, set()).add(d)
            near.setdefault(w, set()).add(d)
        for c, ds in near.items():
            if len(ds) == 2:
                yield from self.excluding(set(DIGITS) - ds, [c])

    def bivalue(self):
        for v, w, d in on_cycles(self.bivalue_arcs()):
            for u in sudokus.UNITS_OF[v]:
                if w in u:
                    yield from self.excluding([d], set(u) - {v, w},
                                              v, w)

    def repeats(self):
        """cell -> whether all shortest cycles with one repetition there
        leave and enter by different cells, and the placements following"""
        result = {}
        for kind in "bilocal", "bivalue":
            arcs = getattr(self, kind + "_arcs")()
            out = followers(arcs)
            for c in range(81):
                if self.filled[c]:
                    continue
                for d in self.digits[c]:
                    lengths = []
                    for a in [a for a in arcs if a[0] == c and a[2] == d]:
                        for b, n in distances(out, a).items():
                            if b[1] == c and b[2] == d and n:
                                lengths.append((n, a[1] == b[0]))
                    if not lengths:
                        continue
                    at = result.setdefault(c, [True, set()])
                    at[1].add((d if kind == "bilocal" else
                               min(self.digits[c] - {d}), c))
                    if (min(lengths)[0], True) in lengths:
                        at[0] = False
        return result

    def repeat(self):
        for good, placements in self.repeats().values():
            if good:
                yield from placements

    def implied(self):
        """(cell, digit) -> pairs that hold if that one does not, by chains
        of links of the first kind, and of the second."""
        first, second = {}, {}
        arcs = self.bilocal_arcs()
        out = followers(arcs)
        for c in range(81):
            if not self.filled[c]:
                for d in self.digits[c]:
                    first[c, d] = {(w, e) for v, w, e in walk(
                        out, [a for a in arcs if a[0] == c and a[2] == d])}
        arcs = self.bivalue_arcs()
        out = followers(arcs)
        for c in range(81):
            if not self.filled[c] and len(self.digits[c]) == 2:
                for d in self.digits[c]:
                    start = [a for a in arcs if a[0] == c and a[2] != d]
                    second[c, d] = {(w, min(self.digits[w] - {e}))
                                    for v, w, e in walk(out, start)}
        return first, second

    def path(self):
        for chains in self.implied():
            for (c, d), ends in chains.items():
                for w, e in ends:
                    if d == e:
                        yield from self.excluding([d], PEERS[c] & PEERS[w],
                                                  c, w)

    def conflict(self):
        first, second = self.implied()
        for key in first:
            ends = first[key] | second.get(key, set())
            for e in DIGITS:
                at = {w for w, x in ends if x == e}
                if not at:
                    continue
                seen = set().union(*[PEERS[w] for w in at])
                if at & seen or any(self.cells[e].intersection(u) <= seen
                                    for u in sudokus.UNITS):
                    yield key[1], key[0]
                    break

    def twosat(self):
        """What follows from there being two choices for a cell or for a
        digit in a unit, by implications; the rule may find more."""
        if not self.two:
            return
        names = [(c, d) for c in range(81) if len(self.digits[c]) > 1
                 for d in sorted(self.digits[c])]
        index = {x: 2 * i for i, x in enumerate(names)}     # + 1 if false
        out = [set() for _ in range(2 * len(names))]
        for c, d in names:
            i = index[c, d]
            out[i].update(index[c, e] + 1 for e in self.digits[c] if e != d)
            out[i].update(index[e, d] + 1 for e in PEERS[c]
                          if (e, d) in index)
            if len(self.digits[c]) == 2:
                out[i + 1].update(index[c, e] for e in self.digits[c]
                                  if e != d)
        for v, w, d in self.bilocal_arcs():
            if (v, d) in index and (w, d) in index:
                out[index[v, d] + 1].add(index[w, d])
        reach = [1 << i for i in range(len(out))]
        changed = True
        while changed:
            changed = False
            for i in range(len(out)):
                new = reach[i]
                for j in out[i]:
                    new |= reach[j]
                if new != reach[i]:
                    reach[i] = new
                    changed = True
        for i in range(len(out)):
            if reach[i] >> (i ^ 1) & 1:
                yield names[i // 2][1], names[i // 2][0], i % 2


def followers(arcs):
    start = {}
    for a in arcs:
        start.setdefault(a[0], []).append(a)
    return {(v, w, d): [b for b in start.get(w, []) if b[2] != d]
            for v, w, d in arcs}


def walk(out, todo):
    seen = set(todo)
    todo = list(todo)
    while todo:
        for b in out[todo.pop()]:
            if b not in seen:
                seen.add(b)
                todo.append(b)
    return seen


def distances(out, start):
    far = {start: 0}
    todo = [start]
    for a in todo:
        for b in out[a]:
            if b not in far:
                far[b] = far[a] + 1
                todo.append(b)
    return far


def on_cycles(arcs):
    out = followers(arcs)
    return {a for a in arcs if a in walk(out, out[a])}


EXACT = ["locate", "eliminate", "align", "pair", "triad", "trapezoid",
         "rectangle", "subproblem",
         "nishio", "bilocal", "bivalue", "path", "conflict"]
# these let the rest wait after the first group or cell with a conclusion
ONE_AT_A_TIME = ["subproblem", "repeat", "conflict"]
KNOWN = EXACT + ["repeat", "twosat"]


def spares(grid, sols):
    """Candidates that no solution uses."""
    return [(d, c) for d in DIGITS for c in range(81)
            if not grid.contents[c] and grid.locations[d] >> c & 1 and
            all(s[c] != d for s in sols)]


def follow(t, grid, given, unique, quick, solvable, r, rounds, sols,
           witness=None):
    used = set()
    doomed = False
    tried = FAST if quick else ORDER
    for turn in range(rounds + 1):
        while True:
            before = Position(grid, unique, given, grid.twosat)
            grid.rules_used = set()
            doomed = doomed or before.contradiction()
            try:
                moved = step(grid, quick)
            except BadSudoku:
                t.check(not solvable, "contradiction in a solvable puzzle")
                t.label("contradiction")
                return used
            if not moved:
                t.equal(grid.rules_used, set(), "rules without progress")
                t.check(not doomed,
                        "no choice left for a cell or digit, unnoticed")
                limit = len(tried)
            else:
                t.equal(len(grid.rules_used), 1, "rules used in a step")
                rule = min(grid.rules_used)
                t.check(rule in tried, "unexpected rule", rule)
                limit = tried.index(rule)
                used.add(rule)
                t.check(rule in ORDER[:2] or not doomed, "no choice left for "
                        "a cell or digit, unnoticed by", rule)
            if solvable and not grid.complete() or moved:
                for name in tried[:limit]:
                    if name in KNOWN and (solvable or name in EXACT[:5]):
                        left = next(getattr(before, name)(), None)
                        t.check(not left, name, "could have concluded", left)
                if moved and rule in KNOWN and (solvable
                                                or rule in EXACT[:5]):
                    found = set(getattr(before, rule)())
                    t.check(found or rule not in EXACT, rule,
                            "had no conclusion to draw")
                    if rule == "repeat":
                        placed = {(grid.contents[c], c) for c in range(81)
                                  if grid.contents[c] != before.filled[c]}
                        for _, found in before.repeats().values():
                            placed -= found
                        t.check(not placed, "repeat without cycle", placed)
                    if solvable and rule not in ONE_AT_A_TIME:
                        after = Position(grid, unique, given, grid.twosat)
                        left = found.intersection(
                            getattr(after, rule)())
                        t.check(not left, rule, "did not conclude", left)
            if not moved:
                break
            if witness and any(grid.locations[d] >> c & 1 == 0
                               for c, d in enumerate(witness)):
                return used
        if grid.complete() or turn == rounds:
            return used
        spare = spares(grid, sols)
        if not spare:
            return used
        if unique and r.random() < .8:
            spare = aimed(spare, before, sols[0], r) or spare
        else:
            spare = r.sample(spare, min(len(spare), r.choice([1, 1, 2, 4])))
        for d, c in spare:
            grid.unplace(d, 1 << c)
    return used


def aimed(spare, position, sol, r):
    """Those of the candidates that stand in the way of a rectangle rule."""
    some = [k for k in position.empty_rectangles()
            if not any(position.filled[c] for c in k)]
    # two or three digits in the corners
    some = [k for k in some if len({sol[c] for c in k}) < 4] or some
    if not some:
        return []
    corners = r.choice(some)
    x, y = r.sample(sorted({sol[c] for c in corners}), 2)
    if r.random() < .3:
        x, y = r.sample(DIGITS, 2)
    out = set()
    for k, c in enumerate(corners):
        if r.random() < .7:
            out.update((d, c) for d in DIGITS if d not in (x, y))
    how = r.randrange(4)
    if how == 0:
        z = r.choice(DIGITS)
        out = {(d, c) for c in corners for d in DIGITS
               if d not in (x, y, z)}
    elif how == 1:
        u = r.choice(sudokus.UNITS_OF[r.choice(corners)][:2])
        out.update((x, c) for c in u if c not in corners)
    elif how == 2:
        squares = {b for c in corners for b in sudokus.UNITS_OF[c][2]}
        near = sorted(squares - set(corners))
        keep = r.choice([c for c in near if sol[c] in (x, y)] or near)
        out = {(d, c) for d in (x, y) for c in near if c != keep}
    return sorted(out.intersection(spare))


@st.composite
def puzzles(draw):
    r = random.Random(draw(gens.SEEDS))
    kind = r.choice(["one", "one", "one", "many", "none"])
    if kind == "one":
        p = sudokus.hard(r) if r.random() < .8 else sudokus.minimal(r)
    elif kind == "many":
        p, _ = sudokus.many(r, 60)
    else:
        p = sudokus.none(r)
    return kind, sudokus.text(p), draw(FORMS), kind == "one" and \
        r.random() < .6, r.random() < .3, r.random() < .2, r.random() < .2, \
        r.randrange(1 << 30), r.choice([1, 3, 6])


@unit("P49", "strength", cases=puzzles(), quick=3000, shards=8)
def strength(case, t):
    """Puzzles with one, several or no solution, stepped to the end, with
    candidates removed that no solution uses when nothing more was found;
    nontrivial when four or more different rules made progress."""
    kind, puzzle, form, unique, twosat, quick, verbose, seed, rounds = case
    puzzle = [int(x) for x in puzzle]
    grid = prepare(t, puzzle, form, unique, twosat)
    if verbose:
        grid.logstream = io.StringIO()
    sols = [] if kind == "none" else sudokus.solutions(puzzle, 61)
    used = follow(t, grid, puzzle, unique, quick, bool(sols),
                  random.Random(seed), rounds if sols else 0, sols)
    for name in used:
        t.label(name)
    t.nontrivial(len(used) > 3)


def related(s, r):
    """Another solved grid, not very different."""
    s = list(s)
    kind = r.randrange(3)
    if kind == 0:
        some = r.sample(DIGITS, r.choice([2, 2, 3, 4]))
        new = dict(zip(some, some[1:] + some[:1]))
        return [new.get(d, d) for d in s]
    a, b = r.sample(range(3), 2)
    at = 3 * r.randrange(3)
    for i in range(9):
        c, e = (9 * (at + a) + i, 9 * (at + b) + i) if kind == 1 else (
            9 * i + at + a, 9 * i + at + b)
        s[c], s[e] = s[e], s[c]
    return s


@st.composite
def positions(draw):
    """(solution, other candidates of each cell, twosat, quick, verbose)

    The candidates are those of a few solutions, which leave cells and digits
    with two or three choices, and some more to be excluded."""
    r = random.Random(draw(gens.SEEDS))
    if r.random() < .3:
        sols = sudokus.solutions(sudokus.many(r, 60)[0], 61)
        sols = r.sample(sols, min(len(sols), r.choice([2, 3, 4, 8])))
    else:
        sols = [sudokus.solved(r)]
        for _ in range(r.choice([1, 2, 2, 3])):
            sols.append(related(r.choice(sols), r))
    full = sols[0]
    kept = [{s[c] for s in sols} for c in range(81)]
    loose = [c for c in range(81) if len(kept[c]) > 1]
    for _ in range(r.choice([1, 2, 4, 8, 16, 32])):
        c = r.choice(loose)
        near = [e for e in sudokus.PEERS[c] if len(kept[e]) > 1]
        if near:
            kept[c].add(r.choice(sorted(kept[r.choice(near)])))
    return sudokus.text(full), ["".join(map(str, sorted(k - {full[c]})))
                                for c, k in enumerate(kept)], \
        r.random() < .2, r.random() < .1, r.random() < .1


@unit("P49", "positions", cases=positions(), quick=3000, shards=8)
def any_position(case, t):
    """Empty grids with candidates excluded at will, but for those of one
    solution, stepped to the end; nontrivial when two or more different
    rules made progress."""
    full, kept, twosat, quick, verbose = case
    grid = prepare(t, [0] * 81, "digits", False, twosat)
    if verbose:
        grid.logstream = io.StringIO()
    for c in range(81):
        for d in DIGITS:
            if str(d) != full[c] and str(d) not in kept[c]:
                grid.unplace(d, 1 << c)
    used = follow(t, grid, [0] * 81, False, quick, True, None, 0, [])
    for name in used:
        t.label(name)
    t.nontrivial(len(used) > 1)


@st.composite
def ambiguous(draw):
    """A position with many candidates but for a rectangle whose corners have
    two digits in three of them."""
    r = random.Random(draw(gens.SEEDS))
    full = sudokus.solved(r)
    some = []
    for a, b, c, d in RECTANGLES:
        for near, far in (((a, b), (c, d)), ((c, d), (a, b)),
                          ((a, c), (b, d)), ((b, d), (a, c))):
            x, y = full[near[0]], full[near[1]]
            if (full[far[1]] == x) != (full[far[0]] == y):
                some.append((near, far, x, y))
    loss = r.choice([0, 0, .1, .3, .5])
    kept = [{d for d in DIGITS if d == full[c] or r.random() >= loss}
            for c in range(81)]
    for near, far, x, y in r.sample(some, min(len(some), r.choice([1, 1, 2]))):
        corners = near + far
        how = r.choice("12344555")
        if how in "134":
            for c in near:
                kept[c] = {x, y}
        if r.random() < .5:
            x, y = y, x
        last = next(c for c in corners if full[c] not in (x, y))
        gone = set()
        if how == "1":
            for c in set(corners) - {last}:
                kept[c] = {x, y}
            kept[last] |= set(r.sample(DIGITS, 3))
        elif how == "2":
            for c in corners:
                kept[c] = {x, y, full[last]}
            if r.random() < .7:
                d, c = r.choice([(d, c) for c in corners
                                 for d in (x, y, full[last])])
                kept[c] = kept[c] - {d} | {full[c]}
        elif how == "3":
            gone = set.intersection(*[set(u) for u in sudokus.UNITS if set(
                far) <= set(u) and not set(near) & set(u)])
        elif how == "4":
            k = r.randrange(2)
            gone = set(r.choice(sudokus.UNITS_OF[near[k]][:2]))
        else:
            gone = {c for e in corners for c in sudokus.UNITS_OF[e][2]}
            others = {c for c in gone - set(corners) if full[c] in (x, y)}
            gone -= others or {r.choice(sorted(gone))}
            for c in gone - set(corners):
                kept[c] -= {x, y} - {full[c]}
        for c in gone - set(corners):
            kept[c] -= {x} - {full[c]}
    return sudokus.text(full), ["".join(map(str, sorted(k - {full[c]})))
                                for c, k in enumerate(kept)], \
        sudokus.text(d if len(kept[c]) > 5 and r.random() < .05 else 0
                     for c, d in enumerate(full)), r.random() < .5


@unit("P49", "rectangles", cases=ambiguous(), quick=3500, shards=8)
def rectangles(case, t):
    """Positions with many cells of two choices, stepped under the assumption
    of uniqueness until it excludes the solution they were made from;
    nontrivial when a rectangle or trapezoid was noticed."""
    full, kept, given, quick = case
    given = [int(x) for x in given]
    grid = prepare(t, given, "digits", True, False)
    for c in range(81):
        for d in DIGITS:
            if str(d) != full[c] and str(d) not in kept[c]:
                grid.unplace(d, 1 << c)
    used = follow(t, grid, given, True, quick, True, None, 0, [],
                  [int(x) for x in full])
    for name in used:
        t.label(name)
    t.nontrivial(used & {"rectangle", "trapezoid"})


@st.composite
def spoiled(draw):
    """(a position as above, what to spoil, digit, cell or unit)"""
    r = random.Random(draw(gens.SEEDS))
    position = draw(positions())
    if r.random() < .5:
        full = position[0]
        extra = r.choice([.5, .8, 1])
        position = full, ["".join(str(d) for d in DIGITS if str(d) != full[c]
                                  and r.random() < extra)
                          for c in range(81)], *position[2:]
    return position, r.choice(["cell", "digit", "digit", "pair"]), \
        r.choice(DIGITS), r.randrange(81), r.randrange(27)


@unit("P49", "contradictions", cases=spoiled(), quick=1200, shards=8)
def contradictions(case, t):
    """Positions in which a cell has no digit left, a digit no cell in some
    row, column or square, or two cells of one only the same digit; all
    nontrivial."""
    (full, kept, twosat, quick, verbose), kind, d, c, u = case
    grid = prepare(t, [0] * 81, "digits", False, twosat)
    if verbose:
        grid.logstream = io.StringIO()
    keep = [{int(x) for x in full[c] + kept[c]} for c in range(81)]
    if kind == "cell":
        keep[c] = set()
    elif kind == "digit":
        for e in sudokus.UNITS[u]:
            keep[e].discard(d)
    else:
        keep[c] = keep[sudokus.UNITS[u][c % 9]] = {d}
        if sudokus.UNITS[u][c % 9] not in sudokus.PEERS[c]:
            keep[min(sudokus.PEERS[c])] = {d}
    for c in range(81):
        for d in DIGITS:
            if d not in keep[c]:
                grid.unplace(d, 1 << c)
    t.nontrivial()
    t.label(kind)
    follow(t, grid, [0] * 81, False, quick, False, None, 0, [])
    t.check(not grid.complete(), "no contradiction reported", kind)
