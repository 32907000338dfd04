import random

from hypothesis import strategies as st

from pads.partition_refinement import PartitionError, PartitionRefinement

from pbt import gens
from pbt.core import unit


@st.composite
def histories(draw, items=10, most=16):
    r = random.Random(draw(gens.SEEDS))
    n = draw(gens.ints(0, items))
    ops = []
    for _ in range(draw(gens.ints(0, most))):
        op = r.choice(["refine", "refine", "refine", "refine part", "add",
                       "remove", "bad add"])
        p = r.choice([.1, .3, .6, .9])
        ops.append((op, r.randrange(n + 2), [i for i in range(n + 3)
                                             if r.random() < p],
                    r.choice(["list", "set", "tuple", "generator", "twice"])))
    return n, draw(st.sampled_from(gens.LABELS)), ops, draw(st.booleans())


def agree(P, parts, names, t):
    """P has exactly these sets (empty ones allowed besides)."""
    sets = [s for s in P]
    t.check(len(P) == len(sets), "length %d with %d sets", len(P), len(sets))
    full = [s for s in sets if s]
    want = [s for s in parts if s]
    t.check(len(full) == len(want) and all(s in want for s in full),
            "sets %r, not %r", full, want)
    present = set().union(*parts)
    for x in names:
        if x in present:
            mine = P[x]
            t.check(x in mine and any(mine is s for s in full),
                    "set of %r is %r", x, mine)
        else:
            t.refuses(KeyError, P.__getitem__, x)


def run(case, t):
    n, label, ops, freeze = case
    names = gens.labels(label, n + 3)
    P = PartitionRefinement(iter(names[:n]))
    parts = [set(names[:n])]
    agree(P, parts, names, t)
    for op, i, chosen, form in ops:
        present = set().union(*parts)
        if op.startswith("refine"):
            S = {names[j] for j in chosen}
            if op == "refine part" and names[i] in present:
                arg = P[names[i]]
                S = set(arg)
                if form == "tuple":         # a union of two parts
                    arg = S = S | set(P[next(iter(present))])
            elif form == "twice":
                arg = sorted(S, key=names.index) * 2
            elif form == "generator":
                arg = (x for x in list(S))
            else:
                arg = {"list": list, "set": set, "tuple": tuple}[form](S)
            before = {frozenset(s): s for s in P if s}
            out = P.refine(arg)
            want = [A for A in parts if A & S and A - S]
            t.nontrivial(len(want) > 1)
            got = list(out)
            t.check(len(got) == len(want), "%d splits reported, not %d",
                    len(got), len(want))
            for A in want:
                match = [(new, old) for new, old in got
                         if set(new) == A & S and set(old) == A - S]
                t.check(len(match) == 1, "split of %r by %r not in %r", A, S,
                        got)
                new, old = match[0]
                t.check(old is before[frozenset(A)] and not any(
                    new is s for s in before.values()),
                    "old set of split replaced")
                t.check(all(P[x] is new for x in new)
                        and all(P[x] is old for x in old),
                    "sets reported are not those of the partition")
                parts.remove(A)
                parts += [A & S, A - S]
        elif op == "add" and names[i] not in present:
            part = [s for s in P][len(chosen) % len(P)]
            whole = set(part)
            P.add(names[i], part)
            if whole in parts:
                parts.remove(whole)
            parts.append(whole | {names[i]})
        elif op == "remove" and names[i] in present:
            P.remove(names[i])
            for A in parts:
                A.discard(names[i])
        elif op == "bad add":
            some = next(iter(P))
            if names[i] in present:
                t.refuses(PartitionError, P.add, names[i], some)
            else:
                t.refuses(PartitionError, P.add, names[i], set(some))
                t.refuses(PartitionError, P.add, names[i], {names[i]})
        agree(P, parts, names, t)
    if freeze:
        P.freeze()
        agree(P, parts, names, t)
        for s in P:
            t.check(isinstance(s, frozenset), "frozen set is %r", type(s))
            hash(s)
        P.freeze()
        agree(P, parts, names, t)


@unit("P29", "histories", quick=8000, cases=histories())
def short(case, t):
    """Histories of up to 16 refinements, additions and removals over up to 12
    elements; nontrivial when some refinement split two or more parts."""
    run(case, t)


@unit("P29", "long", quick=500, cases=histories(60, 50))
def long(case, t):
    """Histories of up to 50 refinements, additions and removals over up to 60
    elements; nontrivial as before."""
    run(case, t)
