import io
import itertools
import operator
import random

from hypothesis import strategies as st

from pads.automata import (DFA, LanguageError, LookupNFA, RegExp,
                           RegularLanguage, language)

from pbt import gens, regular
from pbt.core import unit
from pbt.props.p20_languages import expressions


@st.composite
def tables(draw, most=6, alphabets=("a", "ab", "ab", "abc")):
    """(alphabet, states, arcs, initial, final, state labels)"""
    alphabet = draw(st.sampled_from(alphabets))
    n = draw(gens.ints(1, most))
    r = random.Random(draw(gens.SEEDS))
    kind = draw(gens.ints(0, 3))
    arcs = []
    if kind == 0:                           # deterministic, complete
        arcs = [(i, c, r.randrange(n)) for i in range(n) for c in alphabet]
        initial = [r.randrange(n)]
    elif kind == 1:                         # deterministic permutation
        for c in alphabet:
            perm = list(range(n))
            r.shuffle(perm)
            arcs += [(i, c, j) for i, j in enumerate(perm)]
        initial = [r.randrange(n)]
    else:
        p = r.choice([.1, .2, .3, .5])
        arcs = [(i, c, j) for i in range(n) for j in range(n)
                for c in alphabet if r.random() < p]
        initial = [i for i in range(n) if r.random() < .3] or [0]
        if r.random() < .03:
            initial = []
    final = [i for i in range(n) if r.random() < .35]
    return (alphabet, n, arcs, initial, final,
            draw(st.sampled_from(gens.LABELS)))


def build(case):
    """Library automaton and its specification."""
    alphabet, n, arcs, initial, final, label = case
    name = gens.labels(label, n)
    table = {(name[i], c): set() for i in range(n) for c in alphabet}
    for i, c, j in arcs:
        table[name[i], c].add(name[j])
    initial = {name[i] for i in initial}
    final = {name[i] for i in final}
    given = {k: (list(ws) if len(ws) % 2 else ws) for k, ws in table.items()}
    N = LookupNFA(set(alphabet), list(initial), given, final)
    return N, (initial, table, final), set(alphabet)


def agree(A, m, alphabet, t, name):
    """A accepts exactly what m does."""
    for w in regular.words(alphabet, 3):
        want = regular.accepts(m, w)
        t.check(bool(A(w)) == want, "%s on %r is not %s", name, w, want)
    bad = regular.difference(m, regular.automaton_machine(A.asDFA()),
                             alphabet)
    t.check(bad is None, "%s differs on %r", name, bad)


def check(N, spec, alphabet, t, backward=True):
    m = regular.table_machine(*spec)
    size = regular.classes(m, alphabet)
    t.nontrivial(size > 2)
    t.label("%d states minimal" % min(size, 12))
    agree(N, m, alphabet, t, "automaton")
    D = N.asDFA()
    t.check(D.asDFA() is D or len(D.asDFA()) == len(D), "DFA of DFA")
    agree(D, m, alphabet, t, "DFA")
    agree(D.asNFA(), m, alphabet, t, "NFA of DFA")
    agree(D.asNFA().asDFA(), m, alphabet, t, "DFA of NFA of DFA")
    agree(N.asNFA(), m, alphabet, t, "NFA of NFA")
    M = N.minimize()
    agree(M, m, alphabet, t, "minimal DFA")
    t.equal(len(M), size, "size of minimal DFA")
    t.equal(len(list(M.states())), size, "states of minimal DFA")
    C = N.complement()
    opposite = regular.combine(lambda a: not a, m)
    agree(C, opposite, alphabet, t, "complement")
    agree(C.minimize(), opposite, alphabet, t, "minimal complement")
    agree(D.complement(), opposite, alphabet, t, "complement of DFA")
    agree(M.complement(), opposite, alphabet, t, "complement of minimal DFA")
    t.check(not M == C.minimize() and M != C.minimize(),
            "minimal DFA of complement is the same")
    for A, name in [(N, "NFA"), (D, "DFA"), (M, "minimal")]:
        for offset in (0, 5):
            R = A.renumber(offset=offset)
            agree(R, m, alphabet, t, "renumbered " + name)
            t.equal(sorted(R.states()),
                    list(range(offset, offset + len(A))),
                    "numbers of states of " + name)
    t.equal(len(language(N).recognizer), len(N), "language")
    if not backward:
        return
    back = regular.table_machine(*regular.reversed_table(*spec))
    M2 = N.reverse().reverse().minimize()
    agree(M2, m, alphabet, t, "minimal of double reversal")
    t.equal(len(M2), size, "size of minimal DFA of double reversal")
    t.check(M == M2 and not M != M2, "minimal DFAs differ")
    for A, name in [(N, "NFA"), (D, "DFA"), (M, "minimal")]:
        agree(A.reverse(), back, alphabet, t, "reverse of " + name)
    agree(N.reverse().minimize(), back, alphabet, t, "minimal reverse")
    t.equal(len(N.reverse().minimize()), regular.classes(back, alphabet),
            "size of minimal reverse")


def nfa_states(spec, alphabet):
    initial, table, final = spec
    seen = set(initial)
    todo = list(seen)
    while todo:
        s = todo.pop()
        for c in alphabet:
            for u in table[s, c]:
                if u not in seen:
                    seen.add(u)
                    todo.append(u)
    return seen


@unit("P21", "tables", quick=2500, cases=tables())
def from_tables(case, t):
    """Random transition tables of up to 6 states over 1 to 3 symbols;
    nontrivial when the minimal automaton has three or more states."""
    N, spec, alphabet = build(case)
    states = list(N.states())
    want = nfa_states(spec, alphabet)
    t.check(len(states) == len(want) and set(states) == want,
            "reachable states %r", states)
    t.equal(len(N), len(want), "number of states")
    check(N, spec, alphabet, t)


class Given(DFA):
    """Deterministic automaton written by a caller."""

    def __init__(self, initial, table, final, alphabet):
        self.initial = initial
        self.table = table
        self.final = final
        self.alphabet = alphabet

    def transition(self, state, symbol):
        return self.table[state, symbol]

    def isfinal(self, state):
        return state in self.final


SYMBOLS = [[0, 1], [None, "", ()], [False, "no"], [(0, "a"), 7], ["ab", "a"],
           [frozenset(), frozenset([1])], [-1]]
OPERATIONS = [("union", operator.or_), ("intersection", operator.and_),
              ("symmetricDifference", operator.xor)]


@st.composite
def pairs_of_automata(draw):
    """(symbols, two of (states, targets or arcs, initial, final, labels))"""
    k = draw(gens.ints(0, len(SYMBOLS) - 1))
    r = random.Random(draw(gens.SEEDS))
    out = []
    for _ in range(2):
        n = draw(gens.ints(1, 5))
        if r.random() < .5:
            arcs = [(i, c, r.randrange(n)) for i in range(n)
                    for c in range(len(SYMBOLS[k]))]
            initial = [r.randrange(n)]
            kind = "own"
        else:
            p = r.choice([.2, .3, .5])
            arcs = [(i, c, j) for i in range(n) for j in range(n)
                    for c in range(len(SYMBOLS[k])) if r.random() < p]
            initial = [i for i in range(n) if r.random() < .4] or [0]
            kind = "table"
        out.append((kind, n, arcs, initial,
                    [i for i in range(n) if r.random() < .4],
                    draw(st.sampled_from(gens.LABELS))))
    return k, out


def build_any(symbols, given):
    kind, n, arcs, initial, final, label = given
    name = gens.labels(label, n)
    table = {(name[i], c): set() for i in range(n) for c in symbols}
    for i, c, j in arcs:
        table[name[i], symbols[c]].add(name[j])
    first = {name[i] for i in initial}
    final = {name[i] for i in final}
    if kind == "own":
        A = Given(name[initial[0]], {k: next(iter(v)) for k, v in
                                     table.items()}, final, set(symbols))
    else:
        A = LookupNFA(set(symbols), first, table, final)
    return A, regular.table_machine(first, table, final)


@unit("P21", "symbols", quick=2000, cases=pairs_of_automata())
def any_symbols(case, t):
    """Pairs of automata over symbols of any type, one or both of them written
    as classes by the caller, and their combinations; nontrivial when both
    languages and their symmetric difference have three or more classes."""
    k, given = case
    symbols = SYMBOLS[k]
    alphabet = set(symbols)
    (A, ma), (B, mb) = [build_any(symbols, g) for g in given]
    longest = 4 if len(symbols) < 3 else 3
    words = [list(w) for n in range(longest + 1)
             for w in itertools.product(symbols, repeat=n)]

    def same(X, m, name):
        for w in words:
            t.check(bool(X(w)) == regular.accepts(m, w), "%s on %r", name, w)
        bad = regular.difference(m, regular.automaton_machine(X.asDFA()),
                                 alphabet)
        t.check(bad is None, "%s differs on %r", name, bad)
        size = regular.classes(m, alphabet)
        t.equal(len(X.minimize()), size, "size of minimal " + name)
        return size

    sizes = [same(A, ma, "first"), same(B, mb, "second")]
    for name, op in OPERATIONS:
        m = regular.combine(op, ma, mb)
        sizes.append(same(getattr(A, name)(B), m, name))
    t.nontrivial(min(sizes[0], sizes[1], sizes[-1]) > 2)
    same(A.complement(), regular.combine(lambda a: not a, ma), "complement")
    same(A.renumber(offset=-1), ma, "renumbered")
    same(A.minimize().asNFA(), ma, "minimal as NFA")
    equal = regular.difference(ma, mb, alphabet) is None
    t.equal(bool(A.minimize() == B.minimize()), equal, "minimal DFAs equal")
    t.equal(bool(A.minimize() != B.minimize()), not equal, "differ")
    stranger = "not a symbol"
    for X in (A, B, A.union(B), A.complement(), A.minimize(), A.reverse()):
        t.refuses(LanguageError, X, words[-1] + [stranger])
        t.refuses(LanguageError, X, [stranger] + words[1])
    other = LookupNFA(alphabet | {stranger}, [0],
                      {(0, c): [0] for c in alphabet | {stranger}}, [0])
    for name, _ in OPERATIONS:
        t.refuses(LanguageError, getattr(A, name), other)
        t.refuses(LanguageError, getattr(other, name), A)
    t.check(not other.minimize() == A.minimize(), "alphabets differ")


@unit("P21", "larger", quick=400, cases=tables(14, ("ab", "a")))
def larger(case, t):
    """Random deterministic tables of up to 14 states; nontrivial as for
    tables."""
    alphabet, n, arcs, initial, final, label = case
    first = {}
    for i, c, j in arcs:
        first.setdefault((i, c), j)
    arcs = [(i, c, first.get((i, c), 0)) for i in range(n) for c in alphabet]
    N, spec, alphabet = build((alphabet, n, arcs, initial[:1] or [0], final,
                               label))
    check(N, spec, alphabet, t, backward=n < 7)


@unit("P21", "expressions", quick=1500, cases=expressions(7))
def from_expressions(case, t):
    """Automata of random expressions; nontrivial as for tables."""
    N = RegExp(case)
    x = regular.parse(case)
    alphabet = regular.symbols(x)
    m = regular.machine(x)
    # renumber the oracle's states to give a table
    states = regular.reachable(m, alphabet)
    table = {(s, c): {m[1](s, c)} for s in states for c in alphabet}
    spec = {m[0]}, table, {s for s in states if m[2](s)}
    check(N, spec, alphabet, t)


def check_text(A, m, alphabet, t, name):
    """A converts to an expression for the machine's language."""
    text = A.RegExp()
    if regular.witness(m, alphabet) is None:
        return              # no expression for the empty language
    t.check(isinstance(text, str), "%s: expression is %r", name, text)
    x = regular.parse(text)
    t.check(regular.symbols(x) <= alphabet, "%s: symbols of %r", name, text)
    bad = regular.difference(m, regular.machine(x), alphabet)
    t.check(bad is None, "%s: %r differs on %r", name, text, bad)
    L = RegularLanguage(text)
    for w in regular.words(regular.symbols(x), 4):
        t.check(bool(w in L) == regular.accepts(m, w),
                "%s: %r read back differs on %r", name, text, w)


@unit("P21", "to-expression", quick=2500, cases=tables(
    4, ("a", "ab", "ab", "01", "abc", "+a", "(*", "\\)")))
def to_expression(case, t):
    """Random tables of up to 4 states, and their minimal and reversed
    automata, as expressions; nontrivial when the language is not empty and
    some state is final and not initial."""
    N, spec, alphabet = build(case)
    m = regular.table_machine(*spec)
    t.nontrivial(regular.witness(m, alphabet) is not None
                 and bool(spec[2] - spec[0]))
    check_text(N, m, alphabet, t, "NFA")
    M = N.minimize()
    if len(M) < 6:
        check_text(M, m, alphabet, t, "minimal")
    back = regular.table_machine(*regular.reversed_table(*spec))
    check_text(N.reverse(), back, alphabet, t, "reverse")


@unit("P21", "round-trip", quick=2000, cases=expressions(6))
def round_trip(case, t):
    """Expressions to automata and back; nontrivial with a starred or
    alternative part."""
    t.nontrivial("+" in case or "*" in case)
    x = regular.parse(case)
    alphabet = regular.symbols(x)
    m = regular.machine(x)
    A = RegExp(case)
    check_text(A, m, alphabet, t, "expression")
    M = A.minimize()
    if len(M) < 6:
        check_text(M, m, alphabet, t, "minimal")


@unit("P21", "printing", quick=800, cases=tables())
def printing(case, t):
    """Printed automata; nontrivial with three or more transitions."""
    alphabet, n, arcs, initial, final, label = case
    case = alphabet, n, arcs, initial, final, "int"
    N, spec, symbols = build(case)
    initial, table, final = spec
    states = nfa_states(spec, symbols)
    t.nontrivial(sum(len(ws) for ws in table.values()) > 2)
    out = io.StringIO()
    N.pprint(out)
    got = {}
    state = None
    for line in out.getvalue().splitlines():
        if line.startswith(" "):
            arrow, target = line.split("-->")
            c = arrow[arrow.index("[") + 1:arrow.rindex("]")]
            got[state].append((c, int(target)))
        else:
            word, _, rest = line.partition("(")
            state = int(word)
            t.check(state not in got, "state %r printed twice", state)
            got[state] = []
            want = {"initial"} & ({"initial"} if state in initial else set())
            if state in final:
                want.add("accepting")
            if not any(table[state, c] for c in symbols):
                want.add("terminal")
            t.equal(set(rest.strip(") ").split(", ")) - {""}, want,
                    "description of state %d" % state)
    t.equal({s: sorted(ws) for s, ws in got.items()},
            {s: sorted((c, u) for c in symbols for u in table[s, c])
             for s in states}, "printed transitions")
    out = io.StringIO()
    N.minimize().renumber().pprint(out)
    lines = out.getvalue().splitlines()
    size = regular.classes(regular.table_machine(*spec), symbols)
    t.equal(len([x for x in lines if not x.startswith(" ")]), size,
            "printed states of minimal automaton")
    t.equal(len([x for x in lines if x.startswith(" ")]),
            size * len(symbols), "printed transitions of minimal automaton")
