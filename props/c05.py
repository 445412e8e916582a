"""C05: constructions return the documented geometric quantity."""
from vx.run import Case

BOUNDS = "every construction class at its fixed arity; all real coordinates and directions; both orientation flags"


def _cross(a, b):
    return a[0] * b[1] - a[1] * b[0]


def _dot(a, b):
    return a[0] * b[0] + a[1] * b[1]


def _sub(a, b):
    return [a[0] - b[0], a[1] - b[1]]


def points(w):
    C, P = w.m.constructions, w.m.primitives
    a, b = w.vec("a"), w.vec("b")
    n = w.vec("n")
    p, q = P.Point(a), P.Point(b)
    d = _sub(b, a)
    w.eq("coordinate", C.Coordinate()((p,)), [a[0], a[1]])
    w.eq("directed distance", C.DirectedDistance()((p, q), n), [_dot(d, n)])
    w.eq("x distance", C.XDistance()((p, q)), [d[0]])
    w.eq("y distance", C.YDistance()((p, q)), [d[1]])


def line(w):
    C = w.m.constructions
    l = w.line("l")
    a, b = w.ends(l)
    v = w.lvec(l)
    n = w.vec("n")
    w.eq("line vector", C.LineVector()((l,)), v)
    w.eq("length", C.Length()((l,)), [w.norm(v)])
    w.eq("directed length", C.DirectedLength()((l,), n), [_dot(v, n)])
    w.eq("x length", C.XLength()((l,)), [v[0]])
    w.eq("y length", C.YLength()((l,)), [v[1]])
    w.eq("midpoint", C.Midpoint()((l,)), [(a[0] + b[0]) / 2, (a[1] + b[1]) / 2])


def unit(w):
    C = w.m.constructions
    l = w.line("l")
    v = w.lvec(l)
    w.nondegenerate(l)
    n = w.norm(v)
    w.eq("unit vector", C.UnitLineVector()((l,)), [v[0] / n, v[1] / n])


def midpoints(w):
    C = w.m.constructions
    l, k = w.line("l"), w.line("k")
    (la, lb), (ka, kb) = w.ends(l), w.ends(k)
    d = [(ka[i] + kb[i]) / 2 - (la[i] + lb[i]) / 2 for i in (0, 1)]
    n = w.vec("n")
    w.eq("midpoint directed", C.MidpointDirectedDistance()((l, k), n), [_dot(d, n)])
    w.eq("midpoint x", C.MidpointXDistance()((l, k)), [d[0]])
    w.eq("midpoint y", C.MidpointYDistance()((l, k)), [d[1]])


def angle(w):
    C = w.m.constructions
    l, k = w.line("l"), w.line("k")
    u, v = w.lvec(l), w.lvec(k)
    w.nondegenerate(l)
    w.nondegenerate(k)
    r = C.Angle()((l, k))
    w.eq("one value", len(r), 1)
    w.angle_is("angle", r, _dot(u, v), _cross(u, v))


def point_line(w, reverse):
    C, P = w.m.constructions, w.m.primitives
    l = w.line("l")
    a, b = w.ends(l)
    u = w.lvec(l)
    w.nondegenerate(l)
    q = w.vec("q")
    prims = (P.Point(q), l)
    n = w.norm(u)
    along = _dot(_sub(b, q), u) if reverse else _dot(_sub(q, a), u)
    w.eq("on", C.PointOnLineDistance()(prims, reverse), [along / n])
    w.eq("relative", C.RelativePointOnLineDistance()(prims, reverse), [along / (n * n)])
    s = -1 if reverse else 1
    w.eq("to", C.PointToLineDistance()(prims, reverse), [s * _cross(u, _sub(q, a)) / n])


def rectangle(w):
    C = w.m.constructions
    q = w.box("q")
    x0, y0 = list(q["Line0/Point0"].value)
    x1, y1 = list(q["Line2/Point0"].value)
    w.eq("width", C.Width()((q,)), [x1 - x0])
    w.eq("height", C.Height()((q,)), [y1 - y0])
    w.eq("rectangle width", C.RectangleDim(dim="width")((q,)), [x1 - x0])
    w.eq("rectangle height", C.RectangleDim(dim="height")((q,)), [y1 - y0])


def aspect(w):
    C = w.m.constructions
    q = w.quad("q")
    bot, right = w.lvec(q["Line0"]), w.lvec(q["Line1"])
    w.nondegenerate(q["Line1"])
    w.eq("aspect ratio", C.AspectRatio()((q,)), [w.norm(bot) / w.norm(right)])


def margins(w, side):
    """Boxes: margins are differences of the facing (outer) or same (inner) sides."""
    C = w.m.constructions
    a, b = w.box("a"), w.box("b")

    def sides(q):
        x0, y0 = list(q["Line0/Point0"].value)
        x1, y1 = list(q["Line1/Point1"].value)
        return {"left": x0, "right": x1, "bottom": y0, "top": y1}
    sa, sb = sides(a), sides(b)
    opp = {"left": "right", "right": "left", "bottom": "top", "top": "bottom"}[side]
    sign = 1 if side in ("right", "top") else -1
    # outer: b lies beyond a's `side`;  inner: a lies inside b
    w.eq("outer", C.OuterMargin(side=side)((a, b)), [sign * (sb[opp] - sa[side])])
    w.eq("inner", C.InnerMargin(side=side)((a, b)), [sign * (sb[side] - sa[side])])
    w.eq("margin outer", C.Margin(outer=True, side=side)((a, b)), [sign * (sb[opp] - sa[side])])
    w.eq("margin inner", C.Margin(outer=False, side=side)((a, b)), [sign * (sb[side] - sa[side])])


def constant(w):
    """Scalars and vectors return what they are given."""
    C = w.m.constructions
    s = w.real("s")
    w.eq("scalar", C.Scalar()((), s), [s])


def cases(tier):
    out = [Case("points", points), Case("line", line), Case("unit", unit), Case("midpoints", midpoints),
           Case("angle", angle), Case("rectangle", rectangle), Case("aspect", aspect), Case("constant", constant)]
    out += [Case(f"point-line:{'rev' if r else 'fwd'}", point_line, reverse=r) for r in (False, True)]
    out += [Case(f"margins:{s}", margins, side=s) for s in ("left", "right", "bottom", "top")]
    return out
