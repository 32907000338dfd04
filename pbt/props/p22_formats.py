import io
import random

import networkx
from hypothesis import strategies as st

from pads.read_undirected_graph import (
    GraphFormatError, readEdgeList, readGraph6, readGraphML, readLeda,
    readMALF, readNodeEdgeList, readSparse6, readUndirectedGraph)

from pbt import formats, gens
from pbt.core import unit


@st.composite
def small(draw, high=9):
    case = draw(gens.graphs(max_n=high))
    return case[0], case[1], draw(gens.SEEDS)


@st.composite
def sized(draw):
    """Graphs near the sizes where the encodings change."""
    n = draw(st.sampled_from([1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33,
                              61, 62, 63, 64, 65, 70, 127, 128, 129, 200]))
    r = random.Random(draw(gens.SEEDS))
    m = draw(gens.ints(0, 8)) if n > 3 else draw(gens.ints(0, 3))
    pool = range(n) if r.random() < .5 else sorted(
        {0, n - 1, max(0, n - 2), max(0, n - 3), r.randrange(n),
         r.randrange(n)})
    edges = set()
    for _ in range(m):
        i, j = r.choice(pool), r.choice(pool)
        if i < j:
            edges.add((i, j))
    edges = sorted(edges)
    r.shuffle(edges)
    return n, edges, draw(gens.SEEDS)


def expect(G, names, edges, t, how):
    """G is the graph, with consistent edge identifiers."""
    t.check(isinstance(G, dict), "%s: result is %r", how, G)
    want = {v: set() for v in names}
    for i, j in edges:
        want[names[i]].add(names[j])
        want[names[j]].add(names[i])
    t.equal({v: set(G[v]) for v in G}, want, how)
    ids = [G[names[i]][names[j]] for i, j in edges]
    for (i, j), e in zip(edges, ids):
        t.check(G[names[j]][names[i]] == e, "%s: identifiers of edge %r", how,
                (names[i], names[j]))
    t.check(len(set(ids)) == len(ids), "%s: identifiers %r not distinct", how,
            ids)


def given_as(lines, r, single=False):
    """The same input in several containers."""
    yield "list of lines", list(lines)
    yield "tuple of lines", tuple(lines)
    text = "\n".join(lines) + r.choice(["", "\n"])
    yield "file", io.StringIO(text)
    yield "padded file", io.StringIO("".join(
        r.choice(["", "  "]) + x + r.choice(["", " "]) + "\n"
        for x in lines))
    yield "wrapped file", io.TextIOWrapper(io.BytesIO(text.encode()))
    if single:
        yield "string", "\n".join(lines)


def six(case, t):
    n, edges, seed = case
    r = random.Random(seed)
    names = list(range(n))
    t.nontrivial(len(edges) > 1)
    text = formats.graph6(n, edges)
    g = networkx.Graph()
    g.add_nodes_from(names)
    g.add_edges_from(edges)
    assert text == networkx.to_graph6_bytes(g, header=False).decode().strip()
    for header in ("", ">>graph6<<"):
        expect(readGraph6(header + text), names, edges, t, "readGraph6")
        for how, arg in given_as([header + text], r, True):
            expect(readUndirectedGraph(arg), names, edges, t,
                   "graph6 as " + how)
    others = networkx.to_sparse6_bytes(g, header=False).decode().strip()
    for sparse in (others, formats.sparse6(n, edges),
                   formats.sparse6(n, edges, r)):
        back = networkx.from_sparse6_bytes(sparse.encode())
        assert networkx.utils.graphs_equal(networkx.Graph(back), g), sparse
        for header in ("", ">>sparse6<<"):
            expect(readSparse6(header + sparse), names, edges, t,
                   "readSparse6")
            for how, arg in given_as([header + sparse], r, True):
                expect(readUndirectedGraph(arg), names, edges, t,
                       "sparse6 as " + how)


@unit("P22", "six", quick=3000, cases=small(12))
def six_small(case, t):
    """Graphs of up to 12 vertices in graph6 and sparse6; nontrivial with two
    or more edges."""
    six(case, t)


@unit("P22", "six-sizes", quick=1500, cases=sized())
def six_sized(case, t):
    """Graphs at sizes where the encodings change, up to 200 vertices;
    nontrivial with two or more edges."""
    six(case, t)


@st.composite
def large(draw):
    """Few edges among up to 258047 vertices, the most the headers hold."""
    n = draw(st.one_of(gens.ints(1000, 9000), st.sampled_from(
        [4095, 4096, 4097, 8191, 8192, 12288, 40000, 65537, 258047])))
    r = random.Random(draw(gens.SEEDS))
    pool = [0, 1, n - 1, n - 2, n // 2, 63, 64] + [
        r.randrange(n) for _ in range(6)]
    edges = {tuple(sorted(r.sample(sorted(set(pool)), 2)))
             for _ in range(draw(gens.ints(0, 12)))}
    return n, sorted(edges), draw(gens.SEEDS)


@unit("P22", "sparse6-large", quick=120, cases=large())
def sparse6_large(case, t):
    """sparse6 graphs of 1000 to 258047 vertices; nontrivial with two or more
    edges."""
    n, edges, seed = case
    r = random.Random(seed)
    t.nontrivial(len(edges) > 1)
    t.label("4096 or more" if n >= 4096 else "fewer than 4096")
    text = r.choice(["", ">>sparse6<<"]) + formats.sparse6(
        n, edges, r.choice([None, r]))
    expect(readSparse6(text), range(n), edges, t, "readSparse6")
    expect(readUndirectedGraph([text]), range(n), edges, t, "sparse6")


@unit("P22", "six-all", enum=lambda tier: (
    case[:2] + (i,) for i, case in enumerate(gens.all_graphs(
        5 if tier == "quick" else 6))), floor=0)
def six_all(case, t):
    """Every graph of up to 5 vertices (6 when thorough); nontrivial with two
    or more edges."""
    six(case, t)


NAMES = [
    lambda i: "v%d" % i, lambda i: str(i), lambda i: chr(97 + i % 26) * (1 + i % 3) + "'" * (i // 26),
    lambda i: "x_%d" % (i * 7 % 211), lambda i: "0%d" % i,
]


def blanks(lines, r, keep=1):
    """Insert blank lines after the first lines."""
    out = []
    for i, line in enumerate(lines):
        if i >= keep and r.random() < .15:
            out.append("")
        out.append(line)
    if r.random() < .2:
        out.append("")
    return out


def multiline(case, t):
    n, edges, seed = case
    r = random.Random(seed)
    edges = [e if r.random() < .5 else e[::-1] for e in edges]
    t.nontrivial(len(edges) > 1)
    name = r.choice(NAMES)
    names = [name(i) for i in range(n)]

    lines = formats.malf(n, edges, r)
    ints = list(range(1, n + 1))
    expect(readMALF(lines), ints, edges, t, "readMALF")
    for how, arg in given_as(blanks(lines, r), r):
        expect(readUndirectedGraph(arg), ints, edges, t, "MALF as " + how)

    lines = formats.leda(n, edges, r)
    expect(readLeda(lines), ints, edges, t, "readLeda")
    noisy = []
    for line in blanks(lines, r, 0):
        if r.random() < .1:
            noisy.append(r.choice(["# comment", "#", "#1 2 3"]))
        noisy.append(line)
    for how, arg in given_as(noisy, r):
        expect(readUndirectedGraph(arg), ints, edges, t, "LEDA as " + how)

    lines = formats.graphml(names, edges, r)
    expect(readGraphML(lines), names, edges, t, "readGraphML")
    for how, arg in given_as(blanks(lines, r), r, True):
        expect(readUndirectedGraph(arg), names, edges, t, "GraphML as " + how)

    spaced = [x + r.choice(["", "", " s"]) for x in names]
    lines = formats.node_edge_list(spaced, edges, r)
    expect(readNodeEdgeList(lines), spaced, edges, t, "readNodeEdgeList")
    for how, arg in given_as(blanks(lines, r), r):
        expect(readUndirectedGraph(arg), spaced, edges, t,
               "node edge list as " + how)

    if edges:
        used = sorted({i for e in edges for i in e})
        index = {i: k for k, i in enumerate(used)}
        names = [names[i] for i in used]
        edges = [(index[i], index[j]) for i, j in edges]
        lines = formats.edge_list(names, edges, r)
        expect(readEdgeList(lines), names, edges, t, "readEdgeList")
        for how, arg in given_as(blanks(lines, r), r):
            expect(readUndirectedGraph(arg), names, edges, t,
                   "edge list as " + how)


@unit("P22", "lines", quick=4000, cases=small())
def line_formats(case, t):
    """Graphs of up to 9 vertices in the formats of several lines, with blank
    lines and comments where allowed, in every container; nontrivial with two
    or more edges."""
    multiline(case, t)


@unit("P22", "lines-sizes", quick=400, cases=sized())
def line_formats_sized(case, t):
    """The same for graphs of up to 200 vertices; nontrivial as before."""
    multiline(case, t)


# ------------------------------------------------------------- corrupted input

def _swap(lines, k, line):
    return lines[:k] + [line] + lines[k + 1:]


def bad_graph6(n, edges, names, r):
    text = formats.graph6(n, edges)
    yield "extra data", [text + r.choice("?A~")]
    if len(text) > 1:
        yield "missing data", [">>graph6<<" + text[:-1]]
        yield "missing data", [text[:-1]]
        k = r.randrange(1, len(text))
        for c in "\x7f>":
            odd = text[:k] + c + text[k + 1:]
            yield "character", [odd]
            yield "character", [">>graph6<<" + odd]


def bad_sparse6(n, edges, names, r):
    text = formats.sparse6(n, edges)
    yield "no colon", [">>sparse6<<" + text[1:]]
    k = r.randrange(2, len(text) + 1)
    for c in "\x7f>":
        odd = text[:k] + c + text[k + 1:]
        yield "character", [odd]
        yield "character", [">>sparse6<<" + odd]
    if n:
        yield "loop", [formats.sparse6(n, edges, loops=[r.randrange(n)])]


def bad_malf(n, edges, names, r):
    lines = formats.malf(n, edges, r)
    if n:
        k = r.randrange(n)
        yield "vertex number", _swap(lines, k, str(k + 2))
        yield "vertex not a number", _swap(lines, k, "x")
        yield "two separators", lines[:k] + ["##"] + lines[k:]
        u = r.randrange(1, n + 1)
        m = len(edges) + 1
        yield "loop", lines + ["%d 0 %d %d" % (m, u, u)]
        yield "unknown vertex", lines + ["%d 0 %d %d" % (m, u, n + 1)]
        yield "unknown vertex", lines + ["%d 0 0 %d" % (m, u)]
    if edges:
        k = r.randrange(len(edges))
        i, j = edges[k]
        at = n + 1 + k
        for what, line in [
                ("edge number", "%d 0 %d %d" % (k + 2, i + 1, j + 1)),
                ("edge type", "%d 1 %d %d" % (k + 1, i + 1, j + 1)),
                ("three numbers", "%d 0 %d" % (k + 1, i + 1)),
                ("five numbers", "%d 0 %d %d 1" % (k + 1, i + 1, j + 1)),
                ("not a number", "%d 0 %d y" % (k + 1, i + 1))]:
            yield what, _swap(lines, at, line)


def bad_leda(n, edges, names, r):
    lines = formats.leda(n, edges, r)
    yield "vertex count", _swap(lines, 3, "many")
    yield "edge count", _swap(lines, 4 + n, "few")
    if edges:
        k = 5 + n + r.randrange(2 * len(edges))
        i, j, other = lines[k].split()[:3]
        yield "directed", _swap(lines, k, "%s %s 0 |{}|" % (i, j))
        yield "too few fields", _swap(lines, k, "%s %s %s" % (i, j, other))
        yield "not a number", _swap(lines, k, "%s v %s |{}|" % (i, other))
        yield "unknown vertex", _swap(lines, k, "%d %d %s |{}|" % (
            1, n + 1, other))
        yield "truncated", lines[:-1]
        yield "no edges", lines[:4 + n]


def bad_graphml(n, edges, names, r):
    def make(body, outer="graphml", attrs=' edgedefault="undirected"'):
        return ["<%s>" % outer, "<graph%s>" % attrs] + body + [
            "</graph>", "</%s>" % outer]
    nodes = ['<node id="%s"/>' % v for v in names]
    arcs = ['<edge source="%s" target="%s"/>' % (names[i], names[j])
            for i, j in edges]
    good = nodes + arcs
    yield "outer tag", make(good, outer="graph")
    yield "no edgedefault", make(good, attrs="")
    yield "anonymous node", make(nodes + ["<node/>"] + arcs)
    if n:
        v = r.choice(names)
        yield "repeated node", make(nodes + ['<node id="%s"/>' % v] + arcs)
        yield "loop", make(good + ['<edge source="%s" target="%s"/>' % (v, v)])
        yield "unknown", make(good + ['<edge source="%s" target="q!"/>' % v])
        yield "unknown", make(good + ['<edge source="q!" target="%s"/>' % v])
        yield "no source", make(good + ['<edge target="%s"/>' % v])
        yield "no target", make(good + ['<edge source="%s"/>' % v])
    if edges:
        yield "directed", make(good, attrs=' edgedefault="directed"')
        k = r.randrange(len(arcs))
        yield "directed", make(nodes + _swap(arcs, k, arcs[k].replace(
            "/>", ' directed="true"/>')))


def bad_nodes(n, edges, names, r):
    lines = formats.node_edge_list(names, edges, r)
    yield "unknown section", lines + ["// arcs"]
    yield "no section", ["//graph"] + lines
    if n:
        v = r.choice(names)
        yield "repeated node", lines + ["// nodes", v]
        yield "loop", lines + ["// edges", v, v]
        yield "unknown", lines + ["// edges", v, "q!"]
        yield "unknown", lines + ["// edges", "q!", v]
        yield "missing end", lines + ["// edges", v, "// nodes", "more"]
        yield "truncated", lines + ["// edges", v]
        yield "truncated", lines + ["// named edges", "f"]
    if edges:
        i, j = r.choice(edges)
        yield "repeated name", lines + ["// nodes", "a1", "a2",
                                        "// named edges", "f", "a1", names[i],
                                        "f", "a2", names[j]]


def bad_edges(n, edges, names, r):
    if not edges:
        return
    lines = formats.edge_list(names, edges, r)
    k = r.randrange(len(lines) + 1)
    i, j = r.choice(edges)
    for what, line in [
            ("loop", "%s - %s" % (names[i], names[i])),
            ("one word", names[i]),
            ("four words", "%s - %s x" % (names[i], names[j])),
            ("directed", "%s -> %s" % (names[i], names[j])),
            ("edge type", "%s %s %s" % (
                names[i], r.choice(["--", "<-", "+", "0", "="]), names[j]))]:
        yield what, lines[:k] + [line] + lines[k:]


BAD = [("graph6", bad_graph6, None), ("sparse6", bad_sparse6, None),
       ("MALF", bad_malf, readMALF), ("LEDA", bad_leda, readLeda),
       ("GraphML", bad_graphml, readGraphML),
       ("node edge list", bad_nodes, readNodeEdgeList),
       ("edge list", bad_edges, readEdgeList)]


@unit("P22", "refusals", quick=2500, cases=small(7))
def refusals(case, t):
    """Graphs of up to 7 vertices in each format with one corruption of each
    kind; nontrivial with two or more edges."""
    n, edges, seed = case
    r = random.Random(seed)
    t.nontrivial(len(edges) > 1)
    names = [r.choice(NAMES[:1])(i) for i in range(n)]
    for name, make, reader in BAD:
        for what, lines in make(n, edges, names, r):
            how, arg = r.choice(list(given_as(lines, r)))
            try:
                G = readUndirectedGraph(arg)
            except GraphFormatError:
                pass
            else:
                t.check(False, "%s with %s accepted: %r gives %r", name, what,
                        lines, G)
            if reader:
                t.refuses(GraphFormatError, reader, lines)


# ------------------------------------------------------------------- fuzzing

def edit(lines, r):
    """One random edit of a list of lines."""
    if not lines:
        return lines
    p = r.randrange(len(lines))
    line = lines[p]
    q = r.randrange(len(line) + 1)
    kind = r.randrange(6)
    if kind == 0:
        return lines[:p] + lines[p + 1:]
    if kind == 1:
        return lines[:p] + [r.choice(lines)] + lines[p:]
    if kind == 2:
        return lines[:p]
    if kind == 3:
        return _swap(lines, p, line[:q] + line[q + 1:])
    if kind == 4:
        return _swap(lines, p, line[:q] + chr(r.randrange(32, 128)) + line[q:])
    return _swap(lines, p, line[:q] + r.choice(" 01-~?:/<>#v\x7f")
                 + line[q + 1:])


@unit("P22", "fuzz", quick=6000, cases=small(7))
def fuzz(case, t):
    """Graphs of up to 7 vertices in each format after one to three random
    edits of the text, which give a simple graph or the format error;
    nontrivial when some of the results are graphs and some errors."""
    n, edges, seed = case
    r = random.Random(seed)
    names = [NAMES[0](i) for i in range(n)]
    read = refused = 0
    for lines in [[r.choice(["", ">>graph6<<"]) + formats.graph6(n, edges)],
                  [r.choice(["", ">>sparse6<<"]) + formats.sparse6(n, edges)],
                  formats.malf(n, edges, r), formats.leda(n, edges, r),
                  formats.graphml(names, edges, r),
                  formats.node_edge_list(names, edges, r),
                  formats.edge_list(names, edges, r)]:
        lines = list(lines)
        for _ in range(r.choice([1, 1, 2, 3])):
            lines = edit(lines, r)
        how, arg = r.choice(list(given_as(lines, r)))
        try:
            G = readUndirectedGraph(arg)
        except GraphFormatError:
            refused += 1
            continue
        read += 1
        for v in G:
            for w in G[v]:
                t.check(w != v and w in G and v in G[w]
                        and G[v][w] == G[w][v],
                        "%r as %s gives %r", lines, how, G)
    t.nontrivial(read and refused)
