import io
import random
import xml.etree.ElementTree as ET

from hypothesis import strategies as st

from pads.svg import SVG, colors

from pbt import gens
from pbt.core import unit

STYLES = ["fill", "stroke", "stroke-width", "font-size", "opacity"]
VALUES = ["none", "#000000", "red", "2", "10px", "0.5"]
NAMESPACE = "{http://www.w3.org/2000/svg}"


def point(r):
    kind = r.randrange(4)
    if kind == 0:
        return [r.randrange(-50, 500), r.randrange(-50, 500)]
    if kind == 1:
        return [r.randrange(-5000, 50000) / 100,
                r.randrange(-5000, 50000) / 100]
    if kind == 2:
        return [r.uniform(-1, 100), r.uniform(-1, 1)]
    return [r.choice([0, 1e-9, -1e-9, 100, 1200.5, 1e6]),
            r.choice([0, .00004, .00006, 10, -30])]


@st.composite
def drawings(draw):
    """(options, calls); each call is (name, arguments, style, keywords)."""
    r = random.Random(draw(gens.SEEDS))

    def style():
        return {r.choice(STYLES): r.choice(VALUES)
                for _ in range(r.randrange(3))}

    def keywords():
        return {r.choice(["fill", "stroke", "opacity"]): r.choice(VALUES)
                for _ in range(r.choice([0, 0, 1, 2]))}
    calls = []
    depth = 0
    for _ in range(draw(gens.ints(0, 14))):
        kind = r.choice(["group", "ungroup", "circle", "rectangle", "polygon",
                         "segment", "arc", "text", "rectangle", "circle"])
        if kind == "ungroup":
            if not depth:
                continue
            depth -= 1
            calls.append((kind, [], {}, {}))
            continue
        if kind == "group":
            depth += 1
            args = []
        elif kind == "circle":
            args = [point(r), r.choice([0, 1, 2.5, r.uniform(0, 9)])]
        elif kind in ("rectangle", "segment"):
            args = [point(r), point(r)]
        elif kind == "polygon":
            args = [[point(r) for _ in range(r.randrange(6))]]
        elif kind == "arc":
            args = [point(r), point(r), r.choice([1, 2.5, -3, 10.25]),
                    r.choice([False, True, 0, 1])]
        else:
            args = [r.choice(["", "x", "a b", "1 &lt; 2", "é", "&amp;"]),
                    point(r)]
        calls.append((kind, args, style(), keywords()))
    calls += [("ungroup", [], {}, {})] * depth
    options = {}
    if r.random() < .5:
        options["standalone"] = r.random() < .5
    if r.random() < .4:
        options["prefix"] = r.choice(["s", "svg", "", None])
    if r.random() < .4:
        options["indentation"] = r.randrange(5)
    return point(r), options, calls


def c(p):
    return complex(*p)


def perform(case, calls=None):
    size, options, all_calls = case
    out = io.StringIO()
    S = SVG(c(size), out, **options)
    for kind, args, style, more in all_calls if calls is None else calls:
        if kind == "ungroup":
            S.ungroup()
            continue
        if kind == "group":
            args = []
        elif kind == "circle":
            args = [c(args[0]), args[1]]
        elif kind in ("rectangle", "segment"):
            args = [c(args[0]), c(args[1])]
        elif kind == "polygon":
            args = [[c(p) for p in args[0]]]
        elif kind == "arc":
            args = [c(args[0]), c(args[1])] + args[2:]
        else:
            args = [args[0], c(args[1])]
        if style:
            getattr(S, kind)(*args, style=style, **more)
        else:
            getattr(S, kind)(*args, **more)
    return S, out


def expected(kind, args):
    """(tag, numeric attributes, other attributes)"""
    if kind == "group":
        return "g", {}, {}
    if kind == "circle":
        (x, y), r = args
        return "circle", {"cx": x, "cy": y, "r": r}, {}
    if kind == "rectangle":
        p, q = args
        return "rect", {"x": min(p[0], q[0]), "y": min(p[1], q[1]),
                        "width": abs(p[0] - q[0]),
                        "height": abs(p[1] - q[1])}, {}
    if kind == "segment":
        p, q = args
        return "line", {"x1": p[0], "y1": p[1], "x2": q[0], "y2": q[1]}, {}
    if kind == "text":
        return "text", {"x": args[1][0], "y": args[1][1]}, {}
    return {"polygon": "polygon", "arc": "path"}[kind], {}, {}


def same(text, x):
    """Is this the number, to four decimals?"""
    digits = text.split(".")[1] if "." in text else ""
    return len(digits) <= 4 and abs(float(text) - x) <= .00005 + 1e-9 \
        and "e" not in text


TEXTS = {"1 &lt; 2": "1 < 2", "&amp;": "&"}


@unit("P41", "drawings", quick=6000, cases=drawings())
def run(case, t):
    """Drawings of up to 14 shapes and groups with styles, prefixes and
    indentation, parsed again; nontrivial with a nonempty group and three
    kinds of shape."""
    size, options, calls = case
    S, out = perform(case)
    S.close()
    text = out.getvalue()
    alone = options.get("standalone", True)
    t.check(text.startswith("<?xml") == alone, "heading of %r", text[:40])
    t.check(alone == ("<!DOCTYPE svg" in text), "document type")
    prefix = options.get("prefix")
    indent = options.get("indentation", 0)
    start = (prefix + ":" if prefix else "") + "svg"
    t.check((" " * indent + "<" + start + " ") in text
            and text.endswith("\n" + " " * indent + "</" + start + ">\n"),
            "indentation of %r", text)
    root = ET.fromstring(text)
    t.check(root.tag == NAMESPACE + "svg", "root element %r", root.tag)
    t.check(same(root.get("width"), size[0])
            and same(root.get("height"), size[1]), "size %r", root.attrib)
    box = root.get("viewBox").split()
    t.check(box[:2] == ["0", "0"] and same(box[2], size[0])
            and same(box[3], size[1]), "view box %r", box)
    stack = [iter(root)]
    used = 0
    for kind, args, style, more in calls:
        if kind == "ungroup":
            t.check(next(stack.pop(), None) is None, "too much in a group")
            continue
        node = next(stack[-1], None)
        t.check(node is not None, "%s is missing", kind)
        tag, numbers, _ = expected(kind, args)
        t.check(node.tag == NAMESPACE + tag, "element %r for %s", node.tag,
                kind)
        attributes = dict(node.attrib)
        for k, x in numbers.items():
            got = attributes.pop(k, "missing")
            t.check(got != "missing" and same(got, x), "%s of %s is %r", k,
                    kind, got)
        want = dict(style)
        want.update(more)
        got = attributes.pop("style", "")
        got = [tuple(part.strip().split(":")) for part in got.split(";")
               if part]
        t.check(len(got) == len(want) and dict(got) == want,
                "style %r, not %r", got, want)
        if kind == "polygon":
            points = [p.split(",") for p in attributes.pop("points").split()]
            t.check(len(points) == len(args[0]) and all(
                same(a, x) and same(b, y) for (a, b), (x, y) in zip(
                    points, args[0])), "corners %r", points)
        if kind == "arc":
            d = attributes.pop("d").replace(",", " ").split()
            p, q, r, large = args
            t.check(len(d) == 11 and d[0] == "M" and d[3] == "A"
                    and same(d[1], p[0]) and same(d[2], p[1])
                    and same(d[4], abs(r)) and same(d[5], abs(r))
                    and d[6] == "0" and d[7] == "01"[large] and d[8] == "0"
                    and same(d[9], q[0]) and same(d[10], q[1]),
                    "path %r", d)
        t.check(not attributes, "attributes %r", attributes)
        if kind == "text":
            t.check((node.text or "") == TEXTS.get(args[0], args[0]),
                    "text %r", node.text)
        if kind == "group":
            stack.append(iter(node))
        else:
            t.check(not len(node), "something inside %s", kind)
            used += len(stack) > 1
    t.check(len(stack) == 1 and next(stack[0], None) is None,
            "too much in the drawing")
    t.nontrivial(used and len({k for k, *_ in calls} - {
        "group", "ungroup"}) > 2)


@unit("P41", "unbalanced", quick=600, cases=st.tuples(
    drawings(), gens.ints(-3, 3)))
def unbalanced(case, t):
    """Drawings closed with groups left open or closed too often; nontrivial
    when there are."""
    drawing, extra = case
    calls = list(drawing[2])
    calls += [("group" if extra > 0 else "ungroup", [], {}, {})] * abs(extra)
    t.nontrivial(extra)
    S, out = perform(drawing, calls)
    if extra:
        t.refuses(Exception, S.close)
    else:
        S.close()


def palette(tier):
    return ["none", "white", "black", "red", "blue", "green", "yellow",
            "magenta"]


@unit("P41", "colours", enum=palette)
def colours(name, t):
    """The colours of the palette are style values; nontrivial always."""
    t.nontrivial()
    out = io.StringIO()
    S = SVG(10 + 10j, out)
    S.circle(5 + 5j, 2, fill=getattr(colors, name))
    S.close()
    node = ET.fromstring(out.getvalue())[0]
    value = node.get("style").split(":")[1]
    t.check(value == "none" if name == "none" else
            len(value) == 7 and value[0] == "#" and int(value[1:], 16) >= 0,
            "colour %r", value)
