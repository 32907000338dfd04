"""An independent sudoku solver and puzzle generators.

Cells are numbered 0..80 along the rows; a puzzle is a list of 81 digits with
0 for an empty cell.  Nothing here uses the library under test.
"""
import random

PEERS = [sorted({c for c in range(81) if c != b and
                 (c // 9 == b // 9 or c % 9 == b % 9 or
                  (c // 27 == b // 27 and c % 9 // 3 == b % 9 // 3))})
         for b in range(81)]
UNITS = ([[9 * r + c for c in range(9)] for r in range(9)] +
         [[9 * r + c for r in range(9)] for c in range(9)] +
         [[27 * (s // 3) + 3 * (s % 3) + 9 * (i // 3) + i % 3
           for i in range(9)] for s in range(9)])
UNITS_OF = [[u for u in UNITS if c in u] for c in range(81)]
BITS = [bin(i).count("1") for i in range(512)]


def _assign(cand, cell, bit):
    """Make bit the only candidate of cell; False on contradiction."""
    todo = [(cell, bit)]
    while todo:
        cell, bit = todo.pop()
        if not cand[cell] & bit:
            return False
        cand[cell] = bit
        for p in PEERS[cell]:
            if cand[p] & bit:
                rest = cand[p] ^ bit
                if not rest:
                    return False
                cand[p] = rest
                if not rest & (rest - 1):
                    todo.append((p, rest))
    return True


def solutions(puzzle, cap=2, rng=None, excluded=()):
    """Up to cap solutions of a puzzle that use none of the excluded
    (digit, cell) pairs, as tuples."""
    cand = [511] * 81
    for d, c in excluded:
        cand[c] &= ~(1 << (d - 1))
    if 0 in cand:
        return []
    for c in range(81):
        if not cand[c] & (cand[c] - 1):
            if not _assign(cand, c, cand[c]):
                return []
    for c, d in enumerate(puzzle):
        if d:
            if not cand[c] & (1 << (d - 1)) or \
                    not _assign(cand, c, 1 << (d - 1)):
                return []
    found = []
    stack = [cand]
    while stack:
        cand = stack.pop()
        best, where = 10, None
        for c in range(81):
            k = BITS[cand[c]]
            if 1 < k < best:
                best, where = k, c
                if k == 2:
                    break
        if where is None:
            found.append(tuple(b.bit_length() for b in cand))
            if len(found) >= cap:
                return found
            continue
        if best > 2:            # a digit with few places may branch less
            options = None
            for u in UNITS:
                ones = twos = more = 0
                for c in u:
                    m = cand[c]
                    more |= twos & m
                    twos |= ones & m
                    ones |= m
                if ones != 511:
                    options = []
                    break
                two = twos & ~more
                for c in u:
                    if not cand[c] & (cand[c] - 1):
                        two &= ~cand[c]
                single = ones & ~twos
                for c in u:
                    if cand[c] & single and cand[c] & (cand[c] - 1):
                        options = [(c, cand[c] & single)]
                        break
                if options:
                    break
                if two and options is None:
                    b = two & -two
                    options2 = [(c, b) for c in u if cand[c] & b]
                    if len(options2) == 2:
                        options = options2
                        break
            if options is None:
                options = [(where, 1 << i) for i in range(9)
                           if cand[where] >> i & 1]
        else:
            options = [(where, 1 << i) for i in range(9)
                       if cand[where] >> i & 1]
        if rng is not None:
            rng.shuffle(options)
        for c, b in options:
            new = list(cand)
            if not new[c] & b:
                continue
            if _assign(new, c, b):
                stack.append(new)
    return found


def solved(rng):
    """A random solved grid."""
    puzzle = [0] * 81
    for s in (0, 4, 8):
        ds = list(range(1, 10))
        rng.shuffle(ds)
        for c, d in zip(UNITS[18 + s], ds):
            puzzle[c] = d
    return list(solutions(puzzle, 1, rng)[0])


def minimal(rng, full=None):
    """A random puzzle with one solution in which every given is needed."""
    full = full or solved(rng)
    puzzle = list(full)
    order = list(range(81))
    rng.shuffle(order)
    for c in order:
        d, puzzle[c] = puzzle[c], 0
        if len(solutions(puzzle, 2)) != 1:
            puzzle[c] = d
    return puzzle


def is_solution(grid):
    return all(sorted(grid[c] for c in u) == list(range(1, 10))
               for u in UNITS)


def singles(puzzle):
    """Do naked and hidden singles alone solve the puzzle?"""
    cand = [511] * 81
    for c, d in enumerate(puzzle):
        if d and not _assign(cand, c, 1 << (d - 1)):
            return True
    changed = True
    while changed:
        changed = False
        for u in UNITS:
            for i in range(9):
                places = [c for c in u if cand[c] >> i & 1]
                if len(places) == 1 and cand[places[0]] != 1 << i:
                    if not _assign(cand, places[0], 1 << i):
                        return True
                    changed = True
    return all(m & (m - 1) == 0 for m in cand)


def hard(rng, tries=4):
    """A minimal puzzle, preferring those that need more than singles."""
    for _ in range(tries):
        p = minimal(rng)
        if not singles(p):
            break
    return p


def many(rng, most):
    """A puzzle with between 2 and most solutions, and its solutions."""
    while True:
        p = minimal(rng)
        given = [c for c in range(81) if p[c]]
        rng.shuffle(given)
        best = None
        for c in given[:rng.choice([1, 1, 2, 3, 4])]:
            d, p[c] = p[c], 0
            s = solutions(p, most + 1)
            if len(s) > most:
                p[c] = d
                break
            best = s
        if best is not None:
            return p, best


def sparse(rng, most):
    """A solved grid without some digits: cells with three or more choices."""
    while True:
        full = solved(rng)
        gone = rng.sample(range(1, 10), rng.choice([3, 3, 4]))
        p = [0 if d in gone else d for d in full]
        empty = [c for c in range(81) if not p[c]]
        for c in rng.sample(empty, rng.randrange(5)):
            p[c] = full[c]
        s = solutions(p, most + 1)
        if 2 <= len(s) <= most:
            return p, s


def none(rng):
    """A puzzle whose givens do not conflict directly but have no solution."""
    while True:
        p = minimal(rng)
        full = solutions(p, 1)[0]
        wrong = rng.random() < .5
        cells = [c for c in range(81) if bool(p[c]) == wrong]
        rng.shuffle(cells)
        for c in cells:
            fits = [d for d in range(1, 10) if d != full[c] and
                    all(p[q] != d for q in PEERS[c])]
            if fits:
                old, p[c] = p[c], rng.choice(fits)
                if not solutions(p, 1):
                    return p
                p[c] = old


def text(puzzle):
    return "".join(map(str, puzzle))
