import contextlib
import io
import itertools
import os
import random
import re
import subprocess
import sys
import xml.etree.ElementTree as ET
from html.parser import HTMLParser

from hypothesis import strategies as st

from pads import sudoku
from pads.sudoku import Sudoku, all_solutions, output_formats, permute, \
    random_puzzle, read_puzzle, rules, step

from pbt import core, gens, sudokus
from pbt.core import unit


# ------------------------------------------------------------- generation

def needed(t, puzzle, symmetric):
    """One solution; without any given (or symmetric pair) more than one."""
    t.equal(len(sudokus.solutions(puzzle, 2)), 1, "number of solutions")
    for c in range(81):
        if puzzle[c]:
            p = list(puzzle)
            p[c] = 0
            if symmetric:
                t.check(puzzle[80 - c], "the mirror image of a given is empty")
                p[80 - c] = 0
            t.check(len(sudokus.solutions(p, 2)) == 2,
                    "a given is not needed: cell", c, sudokus.text(puzzle))


@unit("P44", "generate", cases=st.tuples(gens.SEEDS, st.booleans()),
      quick=240, shards=8)
def generate(case, t):
    """Fewer than thirty givens."""
    seed, symmetric = case
    random.seed(seed)
    grid = random_puzzle(symmetric)
    puzzle = list(grid.contents)
    needed(t, puzzle, symmetric)
    t.label("symmetric" if symmetric else "asymmetric")
    t.nontrivial(sum(map(bool, puzzle)) < 30)


# ------------------------------------------------------------ permutation

def rearrangement(a, b):
    """Row and column orders turning the lines of a into those of b, where
    the digits may also be renamed.  Yields (rows, columns)."""
    def shape(lines):
        return [sum(map(bool, line)) for line in lines]
    A = [a[9 * i:9 * i + 9] for i in range(9)]
    B = [b[9 * i:9 * i + 9] for i in range(9)]
    orders = []
    small = list(itertools.permutations(range(3)))
    for bp in small:
        for i0 in small:
            for i1 in small:
                for i2 in small:
                    orders.append([3 * bp[k] + (i0, i1, i2)[k][j]
                                   for k in range(3) for j in range(3)])
    rows_a, rows_b = shape(A), shape(B)
    cols_a = shape(zip(*A))
    cols_b = shape(zip(*B))
    good_rows = [o for o in orders
                 if all(rows_a[i] == rows_b[o[i]] for i in range(9))]
    good_cols = [o for o in orders
                 if all(cols_a[i] == cols_b[o[i]] for i in range(9))]
    for ro in good_rows:
        for co in good_cols:
            names = {}
            ok = True
            for i in range(9):
                x, y = A[i], B[ro[i]]
                for j in range(9):
                    u, v = x[j], y[co[j]]
                    if names.setdefault(u, v) != v or (u == 0) != (v == 0):
                        ok = False
                        break
                if not ok:
                    break
            if ok and len(set(names.values())) == len(names):
                yield ro, co


def transpose(p):
    return [p[9 * (i % 9) + i // 9] for i in range(81)]


@st.composite
def permutable(draw):
    r = random.Random(draw(gens.SEEDS))
    kind = r.choice(["one", "many", "symmetric", "symmetric"])
    if kind == "one":
        p = sudokus.minimal(r)
    elif kind == "many":
        p, _ = sudokus.many(r, 20)
    else:
        p = sudokus.solved(r)
        for c in range(41):
            if r.random() < .5:
                p[c] = p[80 - c] = 0
    return sudokus.text(p), draw(st.booleans()), draw(gens.SEEDS)


@unit("P44", "permute", cases=permutable(), quick=300, shards=8)
def permuted(case, t):
    """The permuted puzzle differs from the original."""
    puzzle, preserve, seed = case
    puzzle = [int(x) for x in puzzle]
    random.seed(seed)
    grid = Sudoku(puzzle)
    result = list(permute(grid, preserve).contents)
    t.equal(list(grid.contents), puzzle, "original after permuting")
    t.equal(len(sudokus.solutions(result, 25)),
            len(sudokus.solutions(puzzle, 25)), "number of solutions")
    found = next(rearrangement(puzzle, result), None) or \
        next(rearrangement(transpose(puzzle), result), None)
    t.check(found, "not a rearrangement:", sudokus.text(result))
    symmetric = all(bool(puzzle[c]) == bool(puzzle[80 - c])
                    for c in range(81))
    if preserve and symmetric:
        t.check(all(bool(result[c]) == bool(result[80 - c])
                    for c in range(81)),
                "symmetry was lost:", sudokus.text(result))
        if 0 in puzzle:
            t.label("symmetric kept")
    t.nontrivial(result != puzzle)


# ------------------------------------------------------------------ output

def shown(grid, name):
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        level = output_formats[name](grid)
    return out.getvalue(), level


def from_text(text):
    cells = re.findall(r"[.\d]", text)
    return [0 if x == "." else int(x) for x in cells]


class Cells(HTMLParser):

    """Contents of the cells of the inner tables, by outer position."""

    def __init__(self):
        HTMLParser.__init__(self)
        self.depth = 0
        self.tables = []
        self.cell = None
        self.opened = []

    def handle_starttag(self, tag, attrs):
        if tag == "input":
            self.cell["input"] = True
            return
        self.opened.append(tag)
        if tag == "table":
            self.depth += 1
            if self.depth == 2:
                self.tables.append([])
        elif tag == "tr" and self.depth == 2:
            self.tables[-1].append([])
        elif tag == "td" and self.depth == 2:
            self.cell = {"text": "", "input": False}
            self.tables[-1][-1].append(self.cell)

    def handle_endtag(self, tag):
        if not self.opened or self.opened.pop() != tag:
            raise ValueError("badly nested " + tag)
        if tag == "table":
            self.depth -= 1
        elif tag == "td" and self.depth == 2:
            self.cell = None

    def handle_data(self, data):
        if self.cell is not None:
            self.cell["text"] += data.strip()
        elif data.strip():
            raise ValueError("text outside the cells: " + data)


def from_html(text):
    parser = Cells()
    parser.feed(text)
    parser.close()
    if parser.opened or len(parser.tables) != 9:
        raise ValueError("not nine tables")
    result = [None] * 81
    for k, table in enumerate(parser.tables):
        for i in range(3):
            for j in range(3):
                cell = table[i][j]
                if cell["input"] == bool(cell["text"]):
                    raise ValueError("a cell with both or neither")
                result[9 * (3 * (k // 3) + i) + 3 * (k % 3) + j] = \
                    int(cell["text"] or 0)
        if [len(row) for row in table] != [3, 3, 3]:
            raise ValueError("not three by three")
    return result


def from_svg(text):
    root = ET.fromstring(text)
    lines = [e for e in root.iter() if e.tag.endswith("line")]
    rects = [e for e in root.iter() if e.tag.endswith("rect")]
    if len(lines) != 16 or len(rects) != 1:
        raise ValueError("%d lines, %d rectangles" % (len(lines), len(rects)))
    result = [0] * 81
    for e in root.iter():
        if e.tag.endswith("text"):
            x, y = float(e.get("x")), float(e.get("y"))
            c = 9 * int((y - 5) // 30) + int((x - 2) // 30)
            if result[c]:
                raise ValueError("two digits in a cell")
            result[c] = int(e.text)
    return result


READERS = {"t": from_text, "n": from_text, "h": from_html, "s": from_svg}


@st.composite
def shown_cases(draw):
    r = random.Random(draw(gens.SEEDS))
    full = sudokus.solved(r)
    k = r.choice([0, .1, .3, .6, .9, 1])
    return sudokus.text([d if r.random() < k else 0 for d in full]), \
        draw(st.sampled_from(sorted(output_formats)))


@unit("P44", "formats", cases=shown_cases(), quick=600)
def formats(case, t):
    """Both empty and filled cells."""
    puzzle, name = case
    puzzle = [int(x) for x in puzzle]
    text, level = shown(Sudoku(puzzle), name)
    t.equal(READERS[name[0]](text), puzzle, "contents shown as " + name)
    if name[0] in "tn":
        t.check(level, "text formats may be followed by the level")
    else:
        t.check(not level, "markup must not be followed by the level")
    if name[0] == "n":
        t.equal([len(x) for x in text.split()], [9] * 9, "line lengths")
    if name[0] == "t":
        rows = [x for x in text.split("\n") if re.search(r"[.\d]", x)]
        t.equal([len(re.findall(r"[.\d]", x)) for x in rows], [9] * 9,
                "cells on each line")
        t.equal(len({len(x) for x in text.strip("\n").split("\n")}), 1,
                "lines of one width")
        for i in range(4):
            t.check(all(x[12 * i] == "|" for x in rows), "square edges")
    t.nontrivial(0 in puzzle and any(puzzle))


@st.composite
def readable(draw):
    r = random.Random(draw(gens.SEEDS))
    full = sudokus.solved(r)
    k = r.choice([0, .1, .3, .6, 1])
    p = [d if r.random() < k else 0 for d in full]
    how = draw(st.sampled_from(["text", "numeric", "noise"]))
    empty = draw(st.sampled_from([".0", "*", "-_", "0", ".", "xX?"]))
    return sudokus.text(p), how, empty, draw(gens.SEEDS)


@unit("P44", "read", cases=readable(), quick=400)
def reading(case, t):
    """Both empty and filled cells."""
    puzzle, how, empty, seed = case
    puzzle = [int(x) for x in puzzle]
    r = random.Random(seed)
    if how != "noise":
        empty = ".0"
        text = shown(Sudoku(puzzle), how)[0]
    else:
        text = ""
        ignored = [x for x in " \n|+abc,;.0*xO-" if x not in empty]
        for d in puzzle:
            text += str(d) if d else r.choice(empty)
            while r.random() < .3:
                text += r.choice(ignored)
    was = sys.stdin
    sys.stdin = io.StringIO(text)
    try:
        grid = read_puzzle() if how != "noise" else read_puzzle(empty)
    finally:
        sys.stdin = was
    t.equal(list(grid.contents), puzzle, "puzzle read")
    t.nontrivial(0 in puzzle and any(puzzle))


# ------------------------------------------------------------ command line

# python -m pads.sudoku with a chosen random seed
MAIN = """
import random, runpy, sys
random.seed(int(sys.argv.pop(1)))
runpy.run_module("pads.sudoku", run_name="__main__", alter_sys=True)
"""


def command(args, text, seed=0):
    env = dict(os.environ, PYTHONPATH=core.REPO, PYTHONDONTWRITEBYTECODE="1")
    p = subprocess.run([sys.executable, "-c", MAIN, str(seed)] + args,
                       input=text, stdout=subprocess.PIPE,
                       stderr=subprocess.PIPE, env=env, cwd=core.REPO,
                       universal_newlines=True)
    return p.returncode, p.stdout, p.stderr


def grids(text):
    """The grids in a text or numeric output, and what follows them."""
    head, _, tail = text.partition("\nRules used:")
    cells = from_text(head)
    if len(cells) % 81:
        raise ValueError("%d cells shown" % len(cells))
    return [tuple(cells[i:i + 81]) for i in range(0, len(cells), 81)], tail


@st.composite
def command_lines(draw):
    r = random.Random(draw(gens.SEEDS))
    kind = draw(st.sampled_from(["solve", "all", "translate", "generate",
                                 "blank", "info", "partial", "one"]))
    if kind == "all":
        p, _ = sudokus.many(r, 12)
        if r.random() < .2:
            p = sudokus.none(r)
    elif kind == "partial":
        p, _ = sudokus.many(r, 12)
    else:
        p = sudokus.minimal(r)
    flags = {k: r.random() < .4 for k in "supav2x"}
    return kind, sudokus.text(p), flags, r.choice(sorted(output_formats)), \
        r.randrange(1 << 30)


LEVELS = ["easy", "moderate", "tricky", "difficult", "evil", "fiendish",
          "impossible"]


def closing(t, tail, solved, count, backtracked=None):
    m = re.fullmatch(r"(.*)\n(?:Number of solutions: (\d+)\n)?"
                     r"Level: (\w+)\n", tail)
    t.check(m, "closing lines:", repr(tail))
    names = [x.strip() for x in m.group(1).split(",")] if m.group(1) else []
    t.check(m.group(3) in LEVELS, "level", m.group(3))
    t.equal(m.group(2), None if count == 1 else str(count),
            "number of solutions stated")
    tried = "backtrack" in names
    t.check((m.group(3) == "impossible") == (not solved or tried),
            "level", m.group(3), "complete", solved, "rules", names)
    return names


def rules_for(puzzle, flags, search, unique):
    """The rules the library uses for the puzzle, in order."""
    grid = Sudoku(puzzle)
    grid.assume_unique = unique
    grid.twosat = flags["s"]
    if search:
        for _ in all_solutions(grid, False):
            pass
    else:
        while step(grid):
            pass
    return [name for name in [r[0] for r in rules] + ["backtrack"]
            if name in grid.rules_used]


@unit("P44", "command", cases=command_lines(), quick=240, shards=8)
def commands(case, t):
    """The command solved, generated or translated a puzzle."""
    kind, puzzle, flags, name, seed = case
    puzzle = [int(x) for x in puzzle]
    on = ["-" + k for k in sorted(flags) if flags[k] and k != "x"]
    plain = name[0] in "tn"
    show = ["-f", name.upper() if flags["s"] else name]
    if kind == "info":
        for args, words in ((["-r"], ["locate", "twosat", "bilocal"]),
                            (["--levels"], LEVELS)):
            code, out, err = command(args, "")
            t.equal((code, err), (0, ""), "status of " + args[0])
            for w in words:
                t.check(w in out, w, "not in the output of", args)
        for args in (["-f", "nothing"], ["word"], ["-t", "-g"]):
            code, out, err = command(args, "")
            t.equal((code, err), (0, ""), "status of " + args[0])
            t.check(out.strip(), "no message for", args)
        return
    if kind == "blank":
        code, out, err = command(["-0"] + show, "")
        t.equal((code, err), (0, ""), "status")
        t.equal(READERS[name[0]](out), [0] * 81, "blank grid")
        return
    t.nontrivial()
    t.label(kind)
    text = sudokus.text(puzzle)
    if flags["x"]:
        on += ["-x", "*_"] if flags["a"] else ["--empty=*_"]
        text = ".0".join("*_"[i % 2] if x == "0" else x
                         for i, x in enumerate(text))
    if kind == "generate":
        args = ["-g"] + on + show
        code, out, err = command(args, "", seed)
    elif kind == "translate":
        args = ["-t"] + on + show
        code, out, err = command(args, text, seed)
    elif kind == "all":
        on = [x for x in on if x != "-u"] + ["-u", "-b"]
        show = ["-f", "text" if flags["a"] else "numeric"]
        plain = True
        args = on + show
        code, out, err = command(args, text, seed)
    else:
        if kind == "one":
            on += ["-b"]
        if kind == "partial":
            on = [x for x in on if x != "-u"] + ["-u"]
            show = ["-f", "numeric"]
            plain = True
        args = on + show
        code, out, err = command(args, text, seed)
    t.equal(code, 0, "exit status of %s (%s)" % (args, err[-300:]))
    if flags["v"]:
        t.check("solver iteration" in err, "no explanations")
    else:
        t.equal(err, "", "error output")
    if plain:
        shown_grids, tail = grids(out)
    elif flags["2"]:
        cut = out.index("</table>\n<table border=1>") + 9 if name[0] == "h" \
            else out.index("</svg>\n<") + 7 if "</svg>\n<" in out \
            else out.rindex("<?xml")
        shown_grids = [tuple(READERS[name[0]](x))
                       for x in (out[:cut], out[cut:])]
    else:
        shown_grids = [tuple(READERS[name[0]](out))]
    both = flags["2"]
    if kind == "generate":
        given = shown_grids[0]
        needed(t, given, not flags["a"])
        if not flags["a"]:
            t.check(all(bool(given[c]) == bool(given[80 - c])
                        for c in range(81)), "not symmetric", given)
        t.equal(len(shown_grids), 2 if both else 1, "grids shown")
        if both:
            full = sudokus.solutions(given, 1)[0]
            t.check(all(a in (0, b) for a, b in zip(shown_grids[1], full)),
                    "wrong solution")
            if plain:
                closing(t, tail, 0 not in shown_grids[1], 1)
        return
    if kind == "translate":
        t.equal(len(shown_grids), 2 if both else 1, "grids shown")
        given = list(shown_grids[0])
        if both:
            full = sudokus.solutions(given, 1)[0]
            t.check(all(a in (0, b) for a, b in zip(shown_grids[1], full)),
                    "wrong solution")
        if not flags["p"]:
            t.equal(given, puzzle, "translated puzzle")
        else:
            t.check(next(rearrangement(puzzle, given), None) or
                    next(rearrangement(transpose(puzzle), given), None),
                    "not a rearrangement of the puzzle", given)
        return
    if both:
        given = list(shown_grids.pop(0))
        if flags["p"]:
            t.check(next(rearrangement(puzzle, given), None) or
                    next(rearrangement(transpose(puzzle), given), None),
                    "not a rearrangement of the puzzle", given)
            puzzle = given
        else:
            t.equal(given, puzzle, "puzzle shown with the solution")
        if plain and name[0] == "n" and kind == "solve":
            t.equal(out.split("\n")[9], "", "line between the grids")
    elif flags["p"]:
        want = len(sudokus.solutions(puzzle, 20))
        if kind == "all":
            t.equal(len(set(shown_grids)), want, "number of solutions")
        for g in shown_grids:
            if 0 not in g:
                t.check(sudokus.is_solution(g), "not a solution", g)
        return
    want = sudokus.solutions(puzzle, 20)
    if kind == "all":
        t.equal(sorted(shown_grids), sorted(want), "all solutions")
        names = closing(t, tail, len(want) == 1, len(want))
        if len(want) > 1:
            t.check("backtrack" in names, "no backtracking mentioned")
        t.equal(names, rules_for(puzzle, flags, True, False),
                "rules mentioned")
        return
    t.equal(len(shown_grids), 1, "grids shown")
    g = shown_grids[0]
    t.check(all(b in (0, g[c]) for c, b in enumerate(puzzle)),
            "givens were changed")
    for s in want:
        t.check(all(a in (0, b) or len(want) > 1
                    for a, b in zip(g, s)), "wrong solution")
    if len(want) > 1:
        for c in range(81):
            t.check(not g[c] or all(s[c] == g[c] for s in want),
                    "a cell was filled that has several values")
    if plain:
        names = closing(t, tail, 0 not in g, 1)
        t.equal(names, rules_for(puzzle, flags, kind == "one", kind !=
                                 "partial" and not flags["u"]),
                "rules mentioned")
