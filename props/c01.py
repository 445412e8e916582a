"""C01: point and line constraints vanish exactly on their documented relation."""
from vx.run import Case

BOUNDS = "every constraint class at its fixed arity; all real coordinates, targets and directions; both orientation flags"


def _cross(a, b):
    return a[0] * b[1] - a[1] * b[0]


def _dot(a, b):
    return a[0] * b[0] + a[1] * b[1]


def _sub(a, b):
    return [a[0] - b[0], a[1] - b[1]]


def fix(w):
    p = w.vec("p")
    t = w.vec("t")
    r = w.m.constraints.Fix()((w.m.primitives.Point(p),), t)
    w.zero_iff("fix", r, _sub(p, t))


def point_distance(w, which):
    C, P = w.m.constraints, w.m.primitives
    a, b = w.vec("a"), w.vec("b")
    t = w.real("t")
    prims = (P.Point(a), P.Point(b))
    d = _sub(b, a)
    if which == "directed":
        n = w.vec("n")
        w.zero_iff("directed distance", C.DirectedDistance()(prims, n, t), [_dot(d, n) - t])
    elif which == "x":
        w.zero_iff("x distance", C.XDistance()(prims, t), [d[0] - t])
    elif which == "y":
        w.zero_iff("y distance", C.YDistance()(prims, t), [d[1] - t])
    else:
        w.zero_iff("coincident", C.Coincident()(prims), d)


def line_one(w, which):
    C = w.m.constraints
    l = w.line("l")
    v = w.lvec(l)
    if which == "vertical":
        return w.zero_iff("vertical", C.Vertical()((l,)), [v[0]])
    if which == "horizontal":
        return w.zero_iff("horizontal", C.Horizontal()((l,)), [v[1]])
    t = w.real("t")
    if which == "length":
        w.zero_iff("length", C.Length()((l,), t), [w.norm(v) - t])
    elif which == "directed":
        n = w.vec("n")
        w.zero_iff("directed length", C.DirectedLength()((l,), n, t), [_dot(v, n) - t])
    elif which == "x":
        w.zero_iff("x length", C.XLength()((l,), t), [v[0] - t])
    elif which == "y":
        w.zero_iff("y length", C.YLength()((l,), t), [v[1] - t])


def line_two(w, which):
    C = w.m.constraints
    l, k = w.line("l"), w.line("k")
    u, v = w.lvec(l), w.lvec(k)
    (la, lb), (ka, kb) = w.ends(l), w.ends(k)
    if which == "relative length":
        t = w.real("t")
        w.zero_iff(which, C.RelativeLength()((l, k), t), [w.norm(u) - t * w.norm(v)])
    elif which in ("midpoint x", "midpoint y"):
        t = w.real("t")
        i = 0 if which[-1] == "x" else 1
        c = C.MidpointXDistance() if i == 0 else C.MidpointYDistance()
        w.zero_iff(which, c((l, k), t), [(ka[i] + kb[i]) / 2 - (la[i] + lb[i]) / 2 - t])
    elif which == "orthogonal":
        w.zero_iff(which, C.Orthogonal()((l, k)), [_dot(u, v)])
    elif which == "parallel":
        w.zero_iff(which, C.Parallel()((l, k)), [_cross(u, v)])
    elif which == "collinear":
        w.nondegenerate(l)
        # both end points of the second line lie on the first line
        w.zero_iff(which, C.Collinear()((l, k)), [_cross(u, _sub(ka, la)), _cross(u, _sub(kb, la))])
    elif which == "coincident":
        w.zero_iff(which, C.CoincidentLines()((l, k), False), _sub(ka, la) + _sub(kb, lb))
    elif which == "coincident reversed":
        w.zero_iff(which, C.CoincidentLines()((l, k), True), _sub(ka, lb) + _sub(kb, la))


def angle(w):
    C = w.m.constraints
    l, k = w.line("l"), w.line("k")
    u, v = w.lvec(l), w.lvec(k)
    w.nondegenerate(l)
    w.nondegenerate(k)
    t = w.real("t")
    w.assume(t > -1)
    w.assume(t <= 1)
    r = C.Angle()((l, k), t * w.pi())
    w.angle_zero_iff("angle", r, t, _dot(u, v), _cross(u, v))


def angle_at(w, ht):
    """Exact targets: every multiple of pi/12."""
    C = w.m.constraints
    l, k = w.line("l"), w.line("k")
    u, v = w.lvec(l), w.lvec(k)
    w.nondegenerate(l)
    w.nondegenerate(k)
    r = C.Angle()((l, k), w.pi() * (ht / 12))
    w.angle_zero_iff("angle", r, ht / 12, _dot(u, v), _cross(u, v))


def point_line(w, which, reverse):
    C, P = w.m.constraints, w.m.primitives
    l = w.line("l")
    a, b = w.ends(l)
    u = w.lvec(l)
    w.nondegenerate(l)
    q = w.vec("q")
    t = w.real("t")
    prims = (P.Point(q), l)
    n = w.norm(u)
    if which == "on":
        c = C.PointOnLineDistance()
        e = _dot(_sub(b, q), u) if reverse else _dot(_sub(q, a), u)
        eq = e / n - t
    elif which == "to":
        c = C.PointToLineDistance()
        s = -1 if reverse else 1
        eq = s * _cross(u, _sub(q, a)) / n - t
    else:
        c = C.RelativePointOnLineDistance()
        e = _dot(_sub(b, q), u) if reverse else _dot(_sub(q, a), u)
        eq = e / (n * n) - t
    w.zero_iff(which, c(prims, reverse, t), [eq])


def cases(tier):
    out = [Case("fix", fix)]
    out += [Case("point-distance:" + k, point_distance, which=k) for k in ("directed", "x", "y", "coincident")]
    out += [Case("line:" + k, line_one, which=k)
            for k in ("vertical", "horizontal", "length", "directed", "x", "y")]
    out += [Case("lines:" + k, line_two, which=k)
            for k in ("relative length", "midpoint x", "midpoint y", "orthogonal", "parallel", "collinear",
                      "coincident", "coincident reversed")]
    out += [Case("angle", angle)]
    out += [Case(f"point-line:{k}:{'rev' if r else 'fwd'}", point_line, which=k, reverse=r)
            for k in ("on", "to", "relative") for r in (False, True)]
    return out
