import random
import re

from hypothesis import strategies as st

from pads.wrap import wrap

from pbt import gens
from pbt.core import unit

PIECE = re.compile(r"[^-]*-|[^-]+")
WIDTH = {"i": 1, "m": 5, " ": 2, "-": 1}


def uneven(word):
    return sum(WIDTH.get(c, 3) for c in word)


def spacious(word):
    return 5 if word == "  " else len(word)


def pieces(text, french):
    """[(piece, spaces after it if the line goes on)]"""
    out = []
    for token in text.split():
        got = PIECE.findall(token)
        out += [(p, 0) for p in got[:-1]]
        double = token.endswith(".") and not french and (
            len(token) > 2 or not token[0].isupper())
        out.append((got[-1], 2 if double else 1))
    return out


def render(part):
    return "".join(p + " " * s for p, s in part[:-1]) + part[-1][0]


def divide(parts, lines, t):
    """Break positions that give these lines."""
    at = 0
    breaks = [0]
    for line in lines:
        end = at + 1
        while end <= len(parts) and render(parts[at:end]) != line:
            if len(render(parts[at:end])) > len(line):
                end = len(parts) + 1
                break
            end += 1
        t.check(at < len(parts) and end <= len(parts),
                "line %r is not the next words", line)
        at = end
        breaks.append(at)
    t.check(at == len(parts), "words after %d of %d are missing", at,
            len(parts))
    return breaks


def widths(parts, measure):
    """Function giving the width of the line of parts i to j."""
    gap = {0: 0, 1: measure(" "), 2: measure("  ")}
    before = [0]            # width of parts and the gaps after them
    for p, s in parts:
        before.append(before[-1] + measure(p) + gap[s])
    return lambda i, j: before[j] - before[i] - gap[parts[j - 1][1]]


def costs(parts, o):
    """Function giving the documented penalty of the line of parts i to j."""
    width = widths(parts, o["measure"])

    def cost(i, j):
        over = width(i, j) - o["target"]
        total = o["nlinepenalty"]
        if over > 0:
            total += o["overpenalty"] * over
        elif j < len(parts) or o["longlast"]:
            total += over * over
        elif i == j - 1:
            total += o["onewordpenalty"]
        if parts[j - 1][1] == 0:
            total += o["hyphenpenalty"]
        return total
    return cost


WORDS = ["a", "I", "is", "the", "word", "longer", "end.", "A.", "e.", "i.e.",
         "well-known", "one-two-three", "x-y", "extraordinarily",
         "Incomprehensibilities", "stop.", "semi-", "--", "-", "-dash",
         "a-.", "...", ".", "don't", "café", "3-4.", "J.", "St.", "no-."]


@st.composite
def texts(draw, most=40):
    r = random.Random(draw(gens.SEEDS))
    n = draw(gens.ints(0, most))
    words = WORDS if r.random() < .5 else r.sample(WORDS, 5)
    out = []
    for _ in range(n):
        out.append(r.choice(words) if r.random() < .8 else
                   "".join(r.choice("imx-") for _ in range(
                       r.randrange(1, 12))))
    gaps = [" ", " ", "  ", "\n", "\t", "\n\n "]
    text = "".join(w + r.choice(gaps) for w in out)
    if r.random() < .3:
        text = "  " + text
    elif text and r.random() < .5:
        text = text.rstrip()
    options = {}
    if r.random() < .8:
        options["target"] = r.choice([0, 1, 5, 10, 10, 20, 20, 30, 40, 60])
    if r.random() < .5:
        options["longlast"] = r.random() < .5
    if r.random() < .5:
        options["frenchspacing"] = r.random() < .5
    if r.random() < .4:
        for k in ("overpenalty", "nlinepenalty", "onewordpenalty",
                  "hyphenpenalty"):
            if r.random() < .5:
                options[k] = r.choice([0, 1, 25, 100, 1000])
    return text, options, r.choice(["", "", "", "", "uneven", "spacious"])


def check(case, t):
    text, options, measure = case
    o = dict(target=76, longlast=False, frenchspacing=False, measure=len,
             overpenalty=1000, nlinepenalty=1000, onewordpenalty=25,
             hyphenpenalty=25)
    options = dict(options)
    if measure:
        options["measure"] = {"uneven": uneven, "spacious": spacious}[measure]
    o.update(options)
    lines = wrap(text, **options)
    parts = pieces(text, o["frenchspacing"])
    breaks = divide(parts, lines, t)
    for line in lines:
        t.check(line and line == line.strip(), "line %r", line)
    cost = costs(parts, o)
    best = [0]
    for j in range(1, len(parts) + 1):
        best.append(min(best[i] + cost(i, j) for i in range(j)))
    got = sum(cost(i, j) for i, j in zip(breaks, breaks[1:]))
    t.check(got == best[-1], "penalty %r, but %r is possible", got, best[-1])
    return lines


@unit("P31", "paragraphs", quick=2500, cases=texts())
def paragraphs(case, t):
    """Texts of up to 40 words of many kinds, with all options; nontrivial
    with three or more lines, one of them of several words."""
    lines = check(case, t)
    t.nontrivial(len(lines) > 2 and any(" " in line for line in lines))
    if any(line.endswith("-") for line in lines[:-1]):
        t.label("broken at hyphen")
    if case[1].get("longlast"):
        t.label("long last line")


@unit("P31", "characters", quick=2000, cases=st.tuples(
    st.text(st.sampled_from("aA.- \ném"), max_size=40),
    st.builds(lambda n, a, b: {"target": n, "longlast": a,
                               "frenchspacing": b},
              gens.ints(0, 20), st.booleans(), st.booleans()),
    st.sampled_from(["", "uneven", "spacious"])))
def characters(case, t):
    """Arbitrary text over letters, periods, hyphens and white space;
    nontrivial with two or more lines."""
    t.nontrivial(len(check(case, t)) > 1)


@unit("P31", "long", quick=80, cases=texts(most=250))
def long(case, t):
    """Texts of up to 250 words; nontrivial with ten or more lines."""
    t.nontrivial(len(check(case, t)) > 9)
