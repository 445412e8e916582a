"""C20: primitives are built with the documented parts, order and sharing."""
import jax.numpy as jnp
import numpy as np
from vx.run import Case

BOUNDS = ("points from lists, tuples, arrays and jax arrays of any real, integer or numpy coordinates; polygons of 1 to 8, "
          "11 and 12 (up to 13 in the thorough tier) points with any coordinates and any repetition of point objects; every combination of "
          "axes flags; every wrong value length from 0 to 4 and shape up to (2, 2), every number of children from 0 to 2 more "
          "than expected and every wrong type of one child; user-defined primitives with 9 kinds of signature and up to 3 (4) parts of any types")
REJECT = (ValueError, TypeError, AssertionError)


def point(w, kind, num):
    P = w.m.primitives
    x, y = w.real("x", num), w.real("y", num)
    v = {"list": lambda: [x, y], "tuple": lambda: (x, y), "array": lambda: w.arr([x, y]),
         "jax": lambda: w.jnp([x, y])}[kind]()
    p = P.Point(v)
    w.same("coordinates", list(p.value), [x, y])
    w.eq("value shape", tuple(p.value.shape), (2,))
    w.eq("no children", len(p), 0)
    q = P.Point(value=v, prims=())
    w.same("coordinates (keyword)", list(q.value), [x, y])
    w.true("own value", p.value is not q.value)


def later(w):
    """The point keeps its coordinates when the given array changes."""
    P = w.m.primitives
    x, y, z = w.real("x"), w.real("y"), w.real("z")
    for v in (w.arr([x, y]), [x, y]):
        p = P.Point(v)
        v[0] = z
        w.same("kept", list(p.value), [x, y])


def line(w):
    P = w.m.primitives
    p, q = w.point("p"), w.point("q")
    for l in (P.Line(prims=(p, q)), P.Line(w.arr([]), [p, q]), P.Line([], (p, q)), P.Line(None, (p, q))):
        w.eq("names", list(l.keys()), ["Point0", "Point1"])
        w.true("start", l["Point0"] is p)
        w.true("end", l["Point1"] is q)
        w.eq("no value", l.value.size, 0)
    d = P.Line()
    w.eq("default start", list(d["Point0"].value), [0, 0])
    w.eq("default end", list(d["Point1"].value), [0, 1])


def loop(w, poly, pts, label):
    n = len(pts)
    P = w.m.primitives
    w.eq(label + ": one line per point", list(poly.keys()), [f"Line{i}" for i in range(n)])
    w.eq(label + ": no value", poly.value.size, 0)
    for i in range(n):
        l = poly[f"Line{i}"]
        w.true(label + ": line type", type(l) is P.Line)
        w.eq(label + ": line names", list(l.keys()), ["Point0", "Point1"])
        w.true(label + ": starts at its point", l["Point0"] is pts[i])
        w.true(label + ": ends at the next point", l["Point1"] is pts[(i + 1) % n])
        w.true(label + ": lines are separate", all(l is not poly[f"Line{j}"] for j in range(i)))
    # values of separate lines are separate unknowns
    vals = [poly.value] + [poly[f"Line{i}"].value for i in range(n)]
    w.true(label + ": separate values", all(vals[i] is not vals[j] for i in range(len(vals)) for j in range(i)))


def polygon(w, n, repeat):
    P = w.m.primitives
    pts = [w.point(f"p{i}") for i in range(n)]
    if repeat:
        pts = [pts[w.choice(f"r{i}", list(range(i + 1)))] for i in range(n)]
    before = [list(p.value) for p in pts]
    loop(w, P.Polygon(prims=list(pts)), pts, "list")
    loop(w, P.Polygon(None, tuple(pts)), pts, "tuple")
    loop(w, P.Polygon(w.arr([]), pts, size=n), pts, "with size")
    if n == 4:
        loop(w, P.Quadrilateral(None, list(pts)), pts, "quadrilateral")
        loop(w, P.Quadrilateral(children=tuple(pts)), pts, "quadrilateral (keyword)")
    for p, b in zip(pts, before):
        w.same("points keep their coordinates", list(p.value), b)


def polygon_default(w, n):
    P = w.m.primitives
    q = P.Polygon(size=n)
    pts = [q[f"Line{i}"]["Point0"] for i in range(n)]
    loop(w, q, pts, "default")
    xs = [tuple(float(c) for c in p.value) for p in pts]
    w.true("separate corners", all(abs(a[0] - b[0]) + abs(a[1] - b[1]) > 1e-6
                                   for i, a in enumerate(xs) for b in xs[:i]))
    w.true("around a circle", all(abs(x * x + y * y - 1) < 1e-9 for x, y in xs))
    if n > 2:
        turns = [xs[i][0] * xs[(i + 1) % n][1] - xs[i][1] * xs[(i + 1) % n][0] for i in range(n)]
        w.true("regular and counterclockwise", all(abs(t - turns[0]) < 1e-9 and t > 0 for t in turns))
    if n == 3:
        w.eq("triangle by default", len(P.Polygon()), 3)


def quad_default(w):
    P = w.m.primitives
    q = P.Quadrilateral()
    loop(w, q, [q[f"Line{i}/Point0"] for i in range(4)], "unit square")
    want = [[(0, 0), (1, 0)], [(1, 0), (1, 1)], [(1, 1), (0, 1)], [(0, 1), (0, 0)]]
    for i, (a, b) in enumerate(want):
        w.same("side start", list(q[f"Line{i}/Point0"].value), list(a))
        w.same("side end", list(q[f"Line{i}/Point1"].value), list(b))
    r = P.Quadrilateral()
    w.true("separate defaults", all(q[f"Line{i}/Point0"] is not r[f"Line{i}/Point0"]
                                    and q[f"Line{i}/Point0"].value is not r[f"Line{i}/Point0"].value for i in range(4)))


def parts(x, y, tx, ty):
    names = ["Frame"]
    if x:
        names += ["XAxis", "XAxisLabel"]
    if y:
        names += ["YAxis", "YAxisLabel"]
    if x and tx:
        names += ["TwinXAxis", "TwinXAxisLabel"]
    if y and ty:
        names += ["TwinYAxis", "TwinYAxisLabel"]
    return names


def axes(w, given):
    P = w.m.primitives
    x, y, tx, ty = w.bool("x"), w.bool("y"), w.bool("tx"), w.bool("ty")
    names = parts(x, y, tx, ty)
    if given:
        ps = [w.quad(n) if not n.endswith("Label") and len(names) <= 3 else
              (P.Quadrilateral() if not n.endswith("Label") else w.point(n)) for n in names]
        a = P.Axes(prims=tuple(ps), xaxis=x, yaxis=y, twinx=tx, twiny=ty)
        for n, p in zip(names, ps):
            w.true("given part", a[n] is p)
    else:
        a = P.Axes(xaxis=x, yaxis=y, twinx=tx, twiny=ty)
        for n in names:
            if not n.endswith("Label"):
                want = [(0, 0), (1, 0), (1, 1), (0, 1)]
                for i in range(4):
                    w.eq("default part", list(a[n][f"Line{i}/Point0"].value), list(want[i]))
            else:
                w.eq("default label", list(a[n].value), [0, 0])
        ps = [a[n] for n in names]
        w.true("separate parts", all(ps[i] is not ps[j] for i in range(len(ps)) for j in range(i)))
    w.eq("parts", list(a.keys()), names)
    for n in names:
        w.true("part type", type(a[n]) is (P.Point if n.endswith("Label") else P.Quadrilateral))
    w.eq("no value", a.value.size, 0)
    if not (x or y or tx or ty):
        w.eq("no flags", list(P.Axes().keys()), ["Frame"])


# ---- rejections --------------------------------------------------------------------

def wrong_value(w, n):
    """A value of the wrong length."""
    P = w.m.primitives
    v = [w.real(f"v{i}") for i in range(n)]
    pts = [w.point(f"p{i}") for i in range(4)]
    makers = {
        "point": lambda v: P.Point(v),
        "line": lambda v: P.Line(v, (pts[0], pts[1])),
        "polygon": lambda v: P.Polygon(v, pts[:3]),
        "quad": lambda v: P.Quadrilateral(v, pts),
        "axes": lambda v: P.Axes(v, (P.Quadrilateral(),)),
        "node": lambda v: P.PrimitiveNode(w.arr(v), {"a": pts[0]}),
    }
    for k, f in makers.items():
        if n == (2 if k == "point" else 0):
            w.true("accepted " + k, f(list(v)) is not None)
            continue
        for kind, conv in (("list", list), ("tuple", tuple), ("array", w.arr)):
            w.raises(f"{k} value of length {n} ({kind})", lambda: f(conv(v)), REJECT)


def wrong_shape(w):
    P = w.m.primitives
    v = [w.real(f"v{i}") for i in range(4)]
    w.raises("column", lambda: P.Point(w.arr(v[:2], (2, 1))), REJECT)
    w.raises("row", lambda: P.Point(w.arr(v[:2], (1, 2))), REJECT)
    w.raises("square", lambda: P.Point(w.arr(v, (2, 2))), REJECT)
    w.raises("nested list", lambda: P.Point([v[:2], v[2:]]), REJECT)
    w.raises("scalar array", lambda: P.Point(w.arr0(v[0])), REJECT)
    w.raises("number", lambda: P.Point(v[0]), REJECT)
    w.raises("text", lambda: P.Point("ab"), REJECT)


def part_kinds(w):
    P = w.m.primitives
    return {"point": lambda n: w.point(n), "line": lambda n: w.line(n), "quad": lambda n: P.Quadrilateral(),
            "triangle": lambda n: P.Polygon(), "axes": lambda n: P.Axes(), "node": lambda n: P.PrimitiveNode(w.arr([]), {}),
            "tree": lambda n: w.m.containers.Node(w.arr([0.0, 1.0]), {}), "text": lambda n: "Point", "none": lambda n: None}


def build(w, kind, ps):
    P = w.m.primitives
    if kind == "point":
        return P.Point(w.vec("c"), ps)
    if kind == "line":
        return P.Line(None, ps)
    if kind == "quad":
        return P.Quadrilateral(None, ps)
    if kind == "polygon":
        return P.Polygon(None, ps)
    x, y, tx, ty = (c == "1" for c in kind.split()[1])
    return P.Axes(None, ps, xaxis=x, yaxis=y, twinx=tx, twiny=ty)


def wanted(kind):
    if kind == "point":
        return []
    if kind == "line":
        return ["point"] * 2
    if kind == "quad":
        return ["point"] * 4
    if kind == "polygon":
        return ["point"] * 3
    return ["point" if n.endswith("Label") else "quad" for n in parts(*(c == "1" for c in kind.split()[1]))]


def wrong_count(w, kind):
    K = part_kinds(w)
    want = wanted(kind)
    for n in range(len(want) + 3):
        if n == len(want) or kind == "polygon":
            continue
        ts = (["quad"] + ["quad", "point"] * 5 if kind.startswith("axes") else want + ["point", "point"])[:n]
        for conv in (tuple, list):
            w.raises(f"{n} instead of {len(want)} parts", lambda: build(w, kind, conv(
                [K[t](f"e{i}") for i, t in enumerate(ts)])), REJECT)
    w.true("the right parts", build(w, kind, tuple(K[t](f"e{i}") for i, t in enumerate(want))) is not None)


def wrong_type(w, kind):
    K = part_kinds(w)
    want = wanted(kind)
    for i, t in enumerate(want):
        for bad in K:
            if bad == t:
                continue
            ts = list(want)
            ts[i] = bad
            w.raises(f"{bad} as part {i}", lambda: build(w, kind, tuple(
                [K[k](f"e{j}") for j, k in enumerate(ts)])), REJECT + (AttributeError,))


SIGNATURES = {
    "points": (0, lambda P: (P.Point, ...), lambda ts: all(t == "point" for t in ts)),
    "pairs": (0, lambda P: (P.Point, P.Line, ...), lambda ts: len(ts) % 2 == 0 and all(
        t == ("point", "line")[i % 2] for i, t in enumerate(ts))),
    "any": (1, lambda P: (None, ...), lambda ts: True),
    "any two": (2, lambda P: (None, None), lambda ts: len(ts) == 2),
    "line and any": (0, lambda P: (P.Line, None), lambda ts: len(ts) == 2 and ts[0] == "line"),
    "polygon": (0, lambda P: (P.Polygon,), lambda ts: len(ts) == 1 and ts[0] in ("quad", "polygon")),
    "alternatives": (3, lambda P: {(P.Point,), (P.Line, P.Point), (P.Line, P.Line, P.Line)},
                     lambda ts: ts in (("point",), ("line", "point"), ("line", "line", "line"))),
    "none or lines": (0, lambda P: {(), (P.Line, P.Line, ...)},
                      lambda ts: len(ts) % 2 == 0 and all(t == "line" for t in ts)),
    "nothing": (0, lambda P: (), lambda ts: not ts),
}
KINDS = ("point", "line", "quad", "polygon")


def custom(w, sig, n):
    """User-defined primitives accept exactly the parts their signature names."""
    P = w.m.primitives
    size, types, fits = SIGNATURES[sig]

    class Mine(P.StaticPrimitive):
        signature = (size, types(P))

        @classmethod
        def init_children(cls, prims):
            return tuple(f"part{i}" for i in range(len(prims))), prims

        @classmethod
        def default_value(cls):
            return P.np.zeros(size)

        @classmethod
        def default_prims(cls):
            return ()

    class Node(P.PrimitiveNode):
        signature = (size, types(P))

    make = {"point": P.Point, "line": P.Line, "quad": P.Quadrilateral, "polygon": P.Polygon}
    made = {k: [f() for _ in range(n)] for k, f in make.items()}
    kinds = KINDS if n < 3 else KINDS[:2]
    ts = tuple(w.choice(f"kind{i}", list(kinds)) for i in range(n))
    v = w.reals("v", size)
    ps = [made[t][i] for i, t in enumerate(ts)]
    builds = (lambda v: Mine(v, list(ps)), lambda v: Mine(v, tuple(ps)),
              lambda v: Node(w.arr(v), {f"part{i}": p for i, p in enumerate(ps)}))
    for f in builds:
        if fits(ts):
            m = f(v)
            w.eq("names", list(m.keys()), [f"part{i}" for i in range(n)])
            for i, p in enumerate(ps):
                w.true("parts", m[f"part{i}"] is p)
            w.same("value", list(m.value), v)
        else:
            w.raises(f"{ts}", lambda: f(v), REJECT)
        w.raises("value too long", lambda: f(v + [w.real("more")]), REJECT)
        if size:
            w.raises("value too short", lambda: f(v[:-1]), REJECT)


def wrong_node(w):
    """Raw nodes check their children too."""
    P = w.m.primitives
    N = w.m.containers.Node
    w.raises("tree node child", lambda: P.PrimitiveNode(w.arr([]), {"a": N(w.arr([]), {})}), REJECT)
    w.raises("number child", lambda: P.PrimitiveNode(w.arr([]), {"a": 1.0}), REJECT)
    w.raises("list value", lambda: P.PrimitiveNode([], {}), REJECT)
    q, p = w.quad("q"), w.point("p")
    n = P.PrimitiveNode(w.arr([]), {"b": q, "a": p})
    w.eq("names", list(n.keys()), ["b", "a"])
    w.true("children", n["b"] is q and n["a"] is p)


def cases(tier):
    th = tier == "thorough"
    out = [Case(f"point {k} {n}", point, kind=k, num=n) for k in ("list", "tuple", "array", "jax")
           for n in ("float", "int", "npfloat", "npint")]
    out += [Case("later changes", later), Case("line", line), Case("unit square", quad_default)]
    for n in (*range(1, 9), 11, 12, *((9, 10, 13) if th else ())):
        out.append(Case(f"polygon {n}", polygon, n=n, repeat=False))
        if n > 1 and n < 6:
            out.append(Case(f"polygon {n} repeated points", polygon, n=n, repeat=True))
    out += [Case(f"default polygon {n}", polygon_default, n=n) for n in (3, 4, 5, 8)]
    out += [Case("axes default", axes, given=False), Case("axes given", axes, given=True)]
    out += [Case(f"wrong value {n}", wrong_value, n=n) for n in range(5)]
    out += [Case("wrong shape", wrong_shape), Case("wrong node", wrong_node)]
    for s in SIGNATURES:
        for n in range(5 if th else 4):
            out.append(Case(f"custom {s} {n}", custom, sig=s, n=n))
    ks = ["point", "line", "quad", "polygon"] + [
        f"axes {i:04b}" for i in range(16)]
    for k in ks:
        out.append(Case(f"wrong count {k}", wrong_count, kind=k))
        out.append(Case(f"wrong type {k}", wrong_type, kind=k))
    return out
