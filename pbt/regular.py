"""Independent model of regular expressions and finite automata.

An expression is a nested tuple ("sym", c), ("eps",), ("cat", x, y),
("alt", x, y) or ("star", x).  A machine is (start, step, accept) with hashable
deterministic states, built lazily.
"""
import itertools


class Malformed(Exception):
    pass


class Unspecified(Exception):
    """An operator where an operand should be."""


def parse(text):
    pos = 0

    def alternation():
        nonlocal pos
        left = concatenation()
        while pos < len(text) and text[pos] == "+":
            pos += 1
            left = ("alt", left, concatenation())
        return left

    def concatenation():
        nonlocal pos
        if pos < len(text) and text[pos] in "+*":
            raise Unspecified
        left = ("eps",)
        while pos < len(text) and text[pos] not in "+)":
            right = starred()
            left = right if left == ("eps",) else ("cat", left, right)
        return left

    def starred():
        nonlocal pos
        c = text[pos]
        pos += 1
        if c == "(":
            x = alternation()
            if pos == len(text):
                raise Malformed
            pos += 1
        elif c == "\\":
            if pos == len(text):
                raise Malformed
            x = ("sym", text[pos])
            pos += 1
        else:
            x = ("sym", c)
        while pos < len(text) and text[pos] == "*":
            pos += 1
            x = ("star", x)
        return x

    x = alternation()
    if pos < len(text):
        raise Malformed
    return x


def symbols(x):
    if x[0] == "sym":
        return {x[1]}
    return set().union(*[symbols(y) for y in x[1:]])


def write(x, r, level=0):
    """Text of an expression; level 0 alternation, 1 concatenation, 2 starred
    operand.  r adds redundant grouping."""
    kind = x[0]
    if kind == "sym":
        s = x[1]
        if s in "+*()\\" or r.random() < .05:
            s = "\\" + s
        own = 3
    elif kind == "eps":
        s, own = "()", 3
    elif kind == "star":
        s, own = write(x[1], r, 2) + "*" * r.choice([1, 1, 1, 1, 2]), 2
    elif kind == "cat":
        s, own = write(x[1], r, 1) + write(x[2], r, 1), 1
    else:
        right = write(x[2], r, 0)
        if x[2] == ("eps",) and r.random() < .5:
            right = ""
        s, own = write(x[1], r, 0) + "+" + right, 0
        if not right and level == 0:
            level = 1       # keep the empty branch at the end of a group
    if own < level or level == 2 and own == 2 and r.random() < .5 \
            or r.random() < .05:
        s = "(" + s + ")"
    return s


def machine(x):
    """Deterministic simulation of Thompson's construction."""
    eps = []            # epsilon successors by state
    arc = []            # (symbol, state) or None

    def new():
        eps.append([])
        arc.append(None)
        return len(eps) - 1

    def build(x):
        a, b = new(), new()
        if x[0] == "sym":
            arc[a] = x[1], b
        elif x[0] == "eps":
            eps[a].append(b)
        elif x[0] == "cat":
            a1, b1 = build(x[1])
            a2, b2 = build(x[2])
            eps[a].append(a1)
            eps[b1].append(a2)
            eps[b2].append(b)
        elif x[0] == "alt":
            for y in x[1:]:
                a1, b1 = build(y)
                eps[a].append(a1)
                eps[b1].append(b)
        else:
            a1, b1 = build(x[1])
            eps[a] += [a1, b]
            eps[b1] += [a1, b]
        return a, b

    first, last = build(x)

    def closed(states):
        seen = set(states)
        todo = list(seen)
        while todo:
            for w in eps[todo.pop()]:
                if w not in seen:
                    seen.add(w)
                    todo.append(w)
        return frozenset(seen)

    memo = {}

    def step(states, c):
        if (states, c) not in memo:
            memo[states, c] = closed(arc[s][1] for s in states
                                     if arc[s] and arc[s][0] == c)
        return memo[states, c]
    return closed([first]), step, lambda states: last in states


def table_machine(initial, table, final):
    """Subset simulation of a transition table {(state, symbol): states}."""
    return (frozenset(initial),
            lambda states, c: frozenset(
                u for s in states for u in table.get((s, c), ())),
            lambda states: any(s in final for s in states))


def automaton_machine(D):
    """Machine of a deterministic library automaton."""
    return D.initial, D.transition, D.isfinal


def reversed_table(initial, table, final):
    back = {}
    for (s, c), ws in table.items():
        for w in ws:
            back.setdefault((w, c), set()).add(s)
    return final, back, set(initial)


def combine(op, *machines):
    return (tuple(m[0] for m in machines),
            lambda states, c: tuple(m[1](s, c)
                                    for m, s in zip(machines, states)),
            lambda states: bool(op(*[bool(m[2](s))
                                     for m, s in zip(machines, states)])))


def reachable(m, alphabet, limit=20000):
    seen = {m[0]: ""}
    todo = [m[0]]
    for s in todo:
        for c in sorted(alphabet, key=repr):
            u = m[1](s, c)
            if u not in seen:
                seen[u] = seen[s] + str(c)
                todo.append(u)
                if len(todo) > limit:
                    raise RuntimeError("oracle automaton too large")
    return seen


def witness(m, alphabet):
    """Some accepted string, or None."""
    for s, word in reachable(m, alphabet).items():
        if m[2](s):
            return word
    return None


def difference(m1, m2, alphabet):
    """Some string accepted by exactly one machine, or None."""
    return witness(combine(lambda a, b: a != b, m1, m2), alphabet)


def accepts(m, word):
    state = m[0]
    for c in word:
        state = m[1](state, c)
    return bool(m[2](state))


def classes(m, alphabet):
    """Number of distinguishable reachable states (Moore's algorithm)."""
    states = list(reachable(m, alphabet))
    block = {s: bool(m[2](s)) for s in states}
    while True:
        sig = {s: (block[s],) + tuple(block[m[1](s, c)]
                                      for c in sorted(alphabet, key=repr))
               for s in states}
        number = {}
        for s in states:
            number.setdefault(sig[s], len(number))
        new = {s: number[sig[s]] for s in states}
        if len(set(new.values())) == len(set(block.values())):
            return len(number)
        block = new


def words(alphabet, length):
    for n in range(length + 1):
        for w in itertools.product(sorted(alphabet, key=repr), repeat=n):
            yield "".join(w)
