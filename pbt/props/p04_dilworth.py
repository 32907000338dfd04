from pads.partial_order import (MaximumAntichain, MinimumChainDecomposition,
                                MinimumPathDecomposition, TracePaths)

from pbt import gens, oracles
from pbt.core import unit


def check_paths(G, paths, adj, name, t):
    paths = [list(p) for p in paths]
    covered = [v for p in paths for v in p]
    t.check(all(paths), "%s: empty path", name)
    t.check(len(covered) == len(G) and set(covered) == set(G),
            "%s: %r does not cover each vertex once", name, paths)
    for p in paths:
        for a, b in zip(p, p[1:]):
            t.check(b in adj[a], "%s: %r to %r not joined in %r", name, a, b,
                    p)
    fewest = len(G) - oracles.bipartite_matching(adj)[0]
    t.check(len(paths) == fewest, "%s: %d paths instead of %d: %r", name,
            len(paths), fewest, paths)
    return len(paths)


def check(case, t):
    G = gens.digraph(case)
    reach = oracles.closure(G)
    if any(v in reach[v] for v in G):
        t.label("cyclic")
        t.refuses(ValueError, MaximumAntichain, G)
        return
    t.label("acyclic")
    t.nontrivial(len(oracles.edges_of(G)) > 1)
    check_paths(G, MinimumPathDecomposition(G), G, "path decomposition", t)
    chains = check_paths(G, MinimumChainDecomposition(G), reach,
                         "chain decomposition", t)
    A = MaximumAntichain(G)
    t.check(len(A) == len(set(A)) and set(A) <= set(G), "not a vertex set")
    for v in A:
        t.check(not (set(A) & reach[v]), "%r comparable in antichain %r", v,
                A)
    t.check(len(A) == chains, "antichain %r smaller than %d chains", A,
            chains)


@unit("P04", "random", quick=6000, cases=gens.graphs(
    directed=True, max_n=12, families=["dag", "layers"] * 3 + ["path", "almostdag"]))
def random(case, t):
    """Mostly acyclic graphs to 12 vertices; nontrivial when acyclic with two
    or more edges."""
    check(case, t)


@unit("P04", "small", enum=lambda tier: gens.all_digraphs(
    4, 2) if tier == "quick" else gens.all_dags(5))
def small(case, t):
    """Every digraph on up to 4 vertices (thorough: every DAG on up to 5);
    nontrivial as for random."""
    check(case, t)


@unit("P04", "trace", quick=1500, cases=gens.graphs(
    directed=True, max_n=10, families=["path", "dag", "function"]))
def trace(case, t):
    """Disjoint paths in every vertex order, given to the path tracer;
    nontrivial with a path of two or more vertices."""
    n, edges, order, label, container = case
    used_out, used_in = set(), set()
    keep = []
    end = list(range(n))        # the other end of the path at each end vertex
    for i, j in edges:
        if i in used_out or j in used_in or end[i] == j:
            continue
        used_out.add(i)
        used_in.add(j)
        a, b = end[i], end[j]
        end[a], end[b] = b, a
        keep.append((i, j))
    G = gens.digraph((n, keep, order, label, container))
    t.nontrivial(bool(keep))
    check_paths(G, TracePaths(G), G, "TracePaths", t)


@unit("P04", "medium", quick=500, cases=gens.graphs(
    directed=True, min_n=13, max_n=40, label=gens.QUICK_LABELS,
    families=["dag", "layers"] * 3 + ["path", "almostdag"]))
def medium(case, t):
    """Mostly acyclic graphs of 13 to 40 vertices; nontrivial as for
    random."""
    check(case, t)


@unit("P04", "large", quick=80, cases=gens.graphs(
    directed=True, min_n=40, max_n=120, label=["int", "str", "tuple"],
    families=["dag", "layers"] * 3 + ["path", "almostdag"]), shards=8)
def large(case, t):
    """Mostly acyclic graphs of 40 to 120 vertices; nontrivial as for
    random."""
    check(case, t)
