"""Writers of undirected graphs in text formats, as lists of lines.

Independent of the library: each follows the published description of the
format.  A graph is (n, edges) with vertices 0..n-1.
"""


def _size(n):
    if n <= 62:
        return chr(n + 63)
    assert n <= 258047
    return "~" + "".join(chr((n >> s & 63) + 63) for s in (12, 6, 0))


def _pack(bits):
    assert len(bits) % 6 == 0
    return "".join(chr(63 + int("".join(map(str, bits[i:i + 6])), 2))
                   for i in range(0, len(bits), 6))


def graph6(n, edges):
    have = {frozenset(e) for e in edges}
    bits = [int(frozenset((i, j)) in have) for j in range(n)
            for i in range(j)]
    return _size(n) + _pack(bits + [0] * (-len(bits) % 6))


def sparse6(n, edges, r=None, loops=()):
    """r chooses between equivalent encodings."""
    k = max(1, (n - 1).bit_length())
    bits = []

    def put(b, x):
        bits.append(b)
        bits.extend(x >> i & 1 for i in range(k - 1, -1, -1))
    v = 0
    pairs = [(max(e), min(e)) for e in edges] + [(x, x) for x in loops]
    for w, x in sorted(pairs):
        if w == v:
            put(0, x)
            continue
        if w == v + 1 and (r is None or r.random() < .7):
            put(1, x)
        else:
            b = r.randrange(2) if r and w > v + 1 else int(w > v + 1)
            put(b, w)
            put(0, x)
        v = w
    pad = -len(bits) % 6
    # a padding of ones must not read as a loop at the last vertex
    if k < 6 and n == 1 << k and pad >= k + 1 and v == n - 2:
        bits += [0]
        pad -= 1
    bits += [1] * pad
    return ":" + _size(n) + _pack(bits)


def leda(n, edges, r):
    lines = ["LEDA.GRAPH", r.choice(["void", "string", "int"]), "void",
             str(n)]
    lines += ["|{%s}|" % r.choice(["", "x", "7", "#2"]) for _ in range(n)]
    arcs = []
    for i, j in edges:
        arcs += [[i, j], [j, i]]
    if r.random() < .5:                     # reversals need not be adjacent
        r.shuffle(arcs)
    where = {tuple(a): k + 1 for k, a in enumerate(arcs)}
    lines.append(str(len(arcs)))
    for i, j in arcs:
        lines.append("%d %d %d |{%s}|" % (i + 1, j + 1, where[j, i],
                                          r.choice(["", "y", "a b", "# 1"])))
    return lines


def malf(n, edges, r):
    lines = [r.choice(["%d", "%d 0 0", "%d name"]) % (i + 1)
             for i in range(n)]
    lines.append("#")
    for k, (i, j) in enumerate(edges):
        lines.append("%d 0 %d %d" % (k + 1, i + 1, j + 1))
    return lines


def edge_list(names, edges, r):
    return [r.choice(["%s %s", "%s - %s", "%s  -  %s"])
            % (names[i], names[j]) for i, j in edges]


def node_edge_list(names, edges, r):
    lines = ["// nodes"] + list(names)
    named = [r.random() < .5 for _ in edges]
    if r.random() < .3:
        named = [False] * len(edges)
    section = None
    for k, (i, j) in enumerate(edges):
        want = "// named edges" if named[k] else "// edges"
        if want != section or r.random() < .1:
            lines.append(want)
            section = want
        if named[k]:
            lines.append("e%d" % k if r.random() < .7 else str(k + 1))
            name = lines[-1]
            lines[-1] = name if name not in lines[:-1] else "edge %d" % k
        lines += [names[i], names[j]]
    return lines


def graphml(names, edges, r):
    def esc(s):
        return s.replace("&", "&amp;").replace("<", "&lt;")
    default = r.choice(["undirected", "undirected", "directed"])
    lines = []
    if r.random() < .5:
        lines.append('<?xml version="1.0" encoding="UTF-8"?>')
    lines.append(r.choice([
        "<graphml>",
        '<graphml xmlns="http://graphml.graphdrawing.org/xmlns">']))
    if r.random() < .3:
        lines.append('<key id="d0" for="node" attr.name="c"/>')
    lines.append('<graph id="G" edgedefault="%s">' % default)
    for name in names:
        form = r.randrange(3)
        if form == 0:
            lines.append('<node id="%s"/>' % esc(name))
        elif form == 1:
            lines.append('<node id="%s"><data key="d0">x</data></node>'
                         % esc(name))
        else:
            lines += ['<node id="%s">' % esc(name),
                      '<graph edgedefault="%s"><node id="inner"/>'
                      '<node id="other"/><edge source="inner" '
                      'target="other"/></graph></node>'
                      % r.choice(["directed", "undirected"])]
    for k, (i, j) in enumerate(edges):
        direct = ' directed="false"' if default == "directed" \
            or r.random() < .2 else ""
        lines.append('<edge id="e%d" source="%s" target="%s"%s/>' % (
            k, esc(names[i]), esc(names[j]), direct))
    lines += ["</graph>", "</graphml>"]
    return lines
