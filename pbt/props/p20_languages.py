import random

from hypothesis import strategies as st

from pads.automata import (LanguageError, RegExp, RegExpError,
                           RegularLanguage, language)

from pbt import gens, regular
from pbt.core import unit

ALPHABETS = ["a", "ab", "ab", "ab", "01", "abc", "+a", "(*", "\\)", "a*+"]


def grow(size, alphabet, r, top=True):
    if size <= 1:
        return ("eps",) if r.random() < .12 else ("sym", r.choice(alphabet))
    kind = r.random()
    if kind < .25:
        return "star", grow(size - 1, alphabet, r)
    cut = r.randrange(1, size)
    return ("alt" if kind < .6 else "cat", grow(cut, alphabet, r),
            grow(size - cut, alphabet, r))


def near(x, alphabet, r):
    """A small change somewhere in the expression."""
    if r.random() < .3 or len(x) == 1 or x[0] == "sym":
        choice = r.randrange(6)
        return [("eps",), ("sym", r.choice(alphabet)), ("star", x),
                ("alt", x, ("sym", r.choice(alphabet))),
                ("cat", x, ("sym", r.choice(alphabet))),
                ("alt", x, ("eps",))][choice]
    i = r.randrange(1, len(x))
    return x[:i] + (near(x[i], alphabet, r),) + x[i + 1:]


def same(x, r):
    """Another expression for the same language."""
    if x[0] in ("sym", "eps"):
        choice = r.random()
        if choice < .1:
            return "alt", x, x
        if choice < .2:
            return "cat", ("eps",), x
        return x
    parts = tuple(same(y, r) for y in x[1:])
    if x[0] == "alt":
        return ("alt",) + (parts if r.random() < .5 else parts[::-1])
    if x[0] == "star":
        y = parts[0]
        choice = r.randrange(4)
        if choice == 0:
            return "alt", ("eps",), ("cat", y, ("star", y))
        if choice == 1:
            return "cat", ("star", y), ("star", y)
        if choice == 2:
            return "star", ("alt", y, ("eps",))
    return (x[0],) + parts


def fill(x, alphabet, r):
    """Mention every symbol."""
    for c in sorted(set(alphabet) - regular.symbols(x)):
        y = ("cat", ("sym", c), grow(r.randrange(1, 3), alphabet, r))
        x = ("alt", x, y) if r.random() < .7 else ("cat", ("star", y), x)
    return x


@st.composite
def expressions(draw, most=9):
    alphabet = draw(st.sampled_from(ALPHABETS))
    r = random.Random(draw(gens.SEEDS))
    x = grow(draw(gens.ints(1, most)), alphabet, r)
    return regular.write(x, r)


LENGTH = {0: 0, 1: 8, 2: 6, 3: 4, 4: 3, 5: 3}


def check_words(L, m, alphabet, t, name=""):
    for w in regular.words(alphabet, LENGTH.get(len(alphabet), 2)):
        t.check(bool(w in L) == regular.accepts(m, w),
                "%s membership of %r is not %s", name, w,
                regular.accepts(m, w))


@unit("P20", "membership", quick=4000, cases=expressions())
def membership(case, t):
    """Expressions with up to 9 symbols or empties over 1 to 3 symbols
    (operators as escaped symbols too), on all strings up to length 4 to 8;
    nontrivial with a starred or alternative part and a symbol."""
    text = case
    x = regular.parse(text)
    alphabet = regular.symbols(x)
    t.nontrivial(bool(alphabet) and ("*" in text or "+" in text))
    m = regular.machine(x)
    L = RegularLanguage(text)
    check_words(L, m, alphabet, t)
    A = RegExp(text)
    t.equal(set(A.alphabet), alphabet, "alphabet")
    for w in regular.words(alphabet, 3):
        want = regular.accepts(m, w)
        t.check(bool(A(w)) == want and bool(A(list(w))) == want
                and bool(A.asDFA()(iter(w))) == want
                and bool(tuple(w) in L) == want, "automaton on %r", w)
    bad = regular.difference(m, regular.automaton_machine(A.asDFA()),
                             alphabet)
    t.check(bad is None, "differs on %r", bad)
    t.check(bool(L) == (regular.witness(m, alphabet) is not None),
            "emptiness")
    t.refuses(LanguageError, L.__contains__, "z")
    t.refuses(LanguageError, L.__contains__, "".join(alphabet) + "z")


@st.composite
def pairs(draw, most=7):
    alphabet = draw(st.sampled_from([a for a in ALPHABETS if len(a) < 3]
                                    + ["abc"]))
    r = random.Random(draw(gens.SEEDS))
    x = fill(grow(draw(gens.ints(1, most)), alphabet, r), alphabet, r)
    kind = draw(gens.ints(0, 3))
    if kind == 0:
        y = grow(draw(gens.ints(1, most)), alphabet, r)
    elif kind == 1:
        y = same(x, r)
    else:
        y = near(x, alphabet, r)
    y = fill(y, alphabet, r)
    return regular.write(x, r), regular.write(y, r)


@unit("P20", "pairs", quick=1500, cases=pairs())
def combinations(case, t):
    """Pairs of expressions with the same symbols, some equivalent and some
    slightly different: operations and comparisons; nontrivial when neither
    language is everything."""
    x, y = (regular.parse(text) for text in case)
    alphabet = regular.symbols(x)
    assert alphabet == regular.symbols(y)
    m, k = regular.machine(x), regular.machine(y)
    L, K = (RegularLanguage(text) for text in case)
    results = [
        ("&", L & K, lambda a, b: a and b),
        ("|", L | K, lambda a, b: a or b),
        ("^", L ^ K, lambda a, b: a != b),
        ("~", ~L, lambda a, b: not a),
        ("~ second", ~K, lambda a, b: not b),
        ("a&~b", L & ~K, lambda a, b: a and not b),
        ("~(a|b)", ~(L | K), lambda a, b: not (a or b)),
        ("(a^b)|a", (L ^ K) | L, lambda a, b: a or b),
        ("~~a", ~~L, lambda a, b: a),
    ]
    t.nontrivial(regular.witness(results and regular.combine(
        lambda a, b: not a and not b, m, k), alphabet) is not None)
    made = []
    for name, R, op in results:
        t.check(isinstance(R, RegularLanguage), "%s is not a language", name)
        want = regular.combine(op, m, k)
        for w in regular.words(alphabet, 3):
            t.check(bool(w in R) == regular.accepts(want, w),
                    "%s on %r", name, w)
        bad = regular.difference(want, regular.automaton_machine(
            R.recognizer.asDFA()), alphabet)
        t.check(bad is None, "%s differs on %r", name, bad)
        t.check(bool(R) == (regular.witness(want, alphabet) is not None),
                "emptiness of %s", name)
        made.append((R, want))
    items = [(L, m), (K, k)] + made[:2]
    for i, (A, ma) in enumerate(items):
        for B, mb in items[i:]:
            below = regular.witness(regular.combine(
                lambda a, b: a and not b, ma, mb), alphabet) is None
            above = regular.witness(regular.combine(
                lambda a, b: b and not a, ma, mb), alphabet) is None
            if i == 0 and B is K:
                t.label("equal" if below and above else "below" if below else
                        "above" if above else "incomparable")
            for name, got, want in [
                    ("==", A == B, below and above),
                    ("!=", A != B, not (below and above)),
                    ("<=", A <= B, below), (">=", A >= B, above),
                    ("<", A < B, below and not above),
                    (">", A > B, above and not below)]:
                t.check(bool(got) == want, "%s is not %s", name, want)


@unit("P20", "reverse", quick=1500, cases=expressions())
def reverse(case, t):
    """Reversals; nontrivial when the language is not its own reversal."""
    x = regular.parse(case)
    alphabet = regular.symbols(x)

    def mirror(x):
        if x[0] == "cat":
            return "cat", mirror(x[2]), mirror(x[1])
        return (x[0],) + tuple(y if x[0] == "sym" else mirror(y)
                               for y in x[1:])
    m = regular.machine(mirror(x))
    t.nontrivial(regular.difference(m, regular.machine(x), alphabet)
                 is not None)
    R = RegExp(case).reverse()
    check_words(language(R), m, alphabet, t)
    bad = regular.difference(m, regular.automaton_machine(R.asDFA()),
                             alphabet)
    t.check(bad is None, "differs on %r", bad)


@st.composite
def token_strings(draw):
    r = random.Random(draw(gens.SEEDS))
    n = draw(gens.ints(0, 9))
    return "".join(r.choice(["a", "b", "a", "b", "(", ")", "(", ")", "+",
                             "*", "\\"]) for _ in range(n))


@unit("P20", "syntax", quick=6000, cases=token_strings())
def syntax(case, t):
    """Random strings of operators, parentheses, escapes and letters;
    nontrivial when malformed (and refused) or when well formed with grouping.
    Those with an operator where an operand is due are skipped."""
    try:
        x = regular.parse(case)
    except regular.Unspecified:
        t.label("skipped")
        return
    except regular.Malformed:
        t.nontrivial()
        t.label("malformed")
        t.refuses((LanguageError, RegExpError), RegExp, case)
        t.refuses((LanguageError, RegExpError), RegularLanguage, case)
        return
    t.nontrivial("(" in case)
    t.label("well formed")
    check_words(RegularLanguage(case), regular.machine(x),
                regular.symbols(x), t)


@unit("P20", "alphabets", quick=500, cases=st.tuples(expressions(5),
                                                     expressions(5)))
def alphabets(case, t):
    """Languages over different symbols; nontrivial when the symbols differ."""
    L, K = (RegularLanguage(text) for text in case)
    a, b = (regular.symbols(regular.parse(text)) for text in case)
    t.check(not L == 3 and L != 3, "language equals a number")
    t.refuses(LanguageError, RegularLanguage, 3)
    if a == b:
        return
    t.nontrivial()
    for op in [L.__and__, L.__or__, L.__xor__]:
        t.refuses(LanguageError, op, K)
        t.refuses(LanguageError, op, "a")
    t.check(not L == K and L != K, "languages over %r and %r equal", a, b)
