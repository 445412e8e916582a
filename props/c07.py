"""C07: mapped, partially applied and target-valued constructions agree with direct use."""
from props.shapes import OPERANDS, make, operand
from vx.run import Case

BOUNDS = ("maps over 0 to 14 primitives with 0 to 2 held-fixed primitives and 0 to 3 parameters each; every split of "
          "up to 3 parameters into given and frozen; targets of 7 scalar kinds and vectors for constructions up to "
          "depth 4 with own values at inner nodes; all real values")
KINDS = ("float", "int", "npfloat", "npint")


def _vals(c, p, a):
    return list(c(p, *a))


# ---- map ---------------------------------------------------------------------------
def map_(w, kind, n):
    C, P = w.m.constructions, w.m.primitives
    S = make(w.m)
    if kind == "Coordinate":
        c, types, ps = C.Coordinate(), [P.Point] * n, [w.point(f"p{i}") for i in range(n)]
        fixed, args = (), [()] * n
    elif kind == "DirectedLength":
        c, types, ps = C.DirectedLength(), [P.Line] * n, [w.line(f"l{i}") for i in range(n)]
        fixed, args = (), [(w.vec(f"n{i}"),) for i in range(n)]
    elif kind == "DirectedDistance":
        c, types, ps = C.DirectedDistance(), [P.Point] * (n + 1), [w.point(f"p{i}") for i in range(n)]
        fixed, args = (w.point("f"),), [(w.vec(f"n{i}"),) for i in range(n)]
    elif kind == "OnLine":
        c, types = C.PointOnLineDistance(), [P.Point] * n + [P.Line]
        ps = [w.point(f"p{i}") for i in range(n)]
        l = w.line("f")
        w.nondegenerate(l)
        fixed, args = (l,), [(bool(i % 2),) for i in range(n)]
    elif kind == "Margin":
        c, types = C.InnerMargin(side="left"), [P.Quadrilateral] * (n + 1)
        ps = [w.quad(f"q{i}") for i in range(n)]
        fixed, args = (w.quad("f"),), [()] * n
    elif kind == "Outer":
        c, types = S.Outer(), [P.Point] * n + [P.Line] * 2
        ps = [w.point(f"p{i}") for i in range(n)]
        fixed = (w.line("f"), w.line("g"))
        args = [(w.vec(f"n{i}"), w.vec(f"d{i}"), w.real(f"s{i}")) for i in range(n)]
    elif kind == "Deep":
        c, types = S.Deep(), [P.Line] * (n + 1)
        ps = [w.line(f"l{i}") for i in range(n)]
        fixed = (w.line("f"),)
        args = [(w.real(f"s{i}"), w.vec(f"n{i}")) for i in range(n)]
    m = C.transform_map(c, types)
    want = []
    for p, a in zip(ps, args):
        want += _vals(c, (p,) + fixed, a)
    got = m(tuple(ps) + fixed, *[x for a in args for x in a])
    w.eq("map values", list(got), want)


# ---- partial -----------------------------------------------------------------------
def partial(w, na, k):
    C = w.m.constructions
    c, p, a = operand(w, na, "a")
    v = _vals(c, p, a)
    cut = len(a) - k
    f = C.transform_partial(c, *a[cut:])
    w.eq("frozen", list(f(p, *a[:cut])), v)
    if k >= 2:
        g = C.transform_partial(C.transform_partial(c, *a[-1:]), *a[cut:-1])
        w.eq("frozen twice", list(g(p, *a[:cut])), v)
    w.eq("operand unchanged", list(c(p, *a)), v)
    g = C.transform_partial(f)
    w.eq("nothing more frozen", list(g(p, *a[:cut])), v)


def partial_target(w, na):
    """Freezing the target of a constraint, and a constraint of a partial."""
    C = w.m.constructions
    c, p, a = operand(w, na, "a")
    v = _vals(c, p, a)
    t = w.real("t")
    k = C.transform_partial(C.transform_constraint(c), t)
    w.eq("frozen target", list(k(p, *a)), [x - t for x in v])
    if a:
        k = C.transform_constraint(C.transform_partial(c, a[-1]))
        w.eq("target of a partial", list(k(p, *a[:-1], t)), [x - t for x in v])


# ---- target ------------------------------------------------------------------------
def target(w, na, kind):
    C = w.m.constructions
    c, p, a = operand(w, na, "a")
    v = _vals(c, p, a)
    k = C.transform_constraint(c)
    if kind in KINDS:
        t = w.real("t", kind)
        tv = [t] * len(v)
    elif kind == "0d":
        x = w.real("t")
        t, tv = w.arr0(x), [x] * len(v)
    elif kind == "jnp0d":
        x = w.real("t")
        t = w.jnp(x)
        tv = [x] * len(v)
    elif kind == "vector":
        tv = w.reals("t", len(v))
        t = w.arr(tv)
    elif kind == "jnpvector":
        tv = w.reals("t", len(v))
        t = w.jnp(tv)
    elif kind == "own":
        t, tv = c(p, *a), v
    w.eq("value minus target", list(k(p, *a, t)), [x - y for x, y in zip(v, tv)])


def nested(w, na, kind):
    """Targets for maps and sums of constructions, and doubly transformed ones."""
    C = w.m.constructions
    c, p, a = operand(w, na, "a")
    v = _vals(c, p, a)
    n = len(v)
    if kind == "map":
        d, q, b = operand(w, na, "b")
        if len(p) == 1:
            m = C.transform_map(c, [type(p[0]), type(p[0])])
            prims = p + q
            v2 = _vals(c, q, b)
        else:
            m = C.transform_map(c, [type(p[0])] * 2 + [type(x) for x in p[1:]])
            prims = p[:1] + q[:1] + p[1:]
            v2 = _vals(c, q[:1] + p[1:], b)
        k = C.transform_constraint(m)
        t = w.reals("t", 2 * n)
        w.eq("vector target of a map", list(k(prims, *a, *b, w.arr(t))), [x - y for x, y in zip(v + v2, t)])
        s = w.real("s")
        w.eq("scalar target of a map", list(k(prims, *a, *b, s)), [x - s for x in v + v2])
    elif kind == "sum":
        d, q, b = operand(w, na, "b")
        v2 = _vals(c, q, b)
        k = C.transform_constraint(c + 2.0 * c)
        t = w.reals("t", n)
        w.eq("target of a sum", list(k(p + q, *a, *b, w.arr(t))), [x + 2 * y - z for x, y, z in zip(v, v2, t)])
    elif kind == "mapconstraint":
        d, q, b = operand(w, na, "b")
        k = C.transform_constraint(c)
        if len(p) == 1:
            m = C.transform_map(k, [type(p[0])] * 2)
            prims, v2 = p + q, _vals(c, q, b)
        else:
            m = C.transform_map(k, [type(p[0])] * 2 + [type(x) for x in p[1:]])
            prims, v2 = p[:1] + q[:1] + p[1:], _vals(c, q[:1] + p[1:], b)
        t, s = w.reals("t", n), w.real("s")
        w.eq("map of constraints", list(m(prims, *a, w.arr(t), *b, s)),
             [x - y for x, y in zip(v, t)] + [x - s for x in v2])
    elif kind == "twice":
        k = C.transform_constraint(C.transform_constraint(c))
        t, s = w.reals("t", n), w.real("s")
        w.eq("two targets", list(k(p, *a, w.arr(t), s)), [x - y - s for x, y in zip(v, t)])
    elif kind == "scaled":
        k = -C.transform_constraint(c) * C.Scalar()
        t, s = w.reals("t", n), w.real("s")
        w.eq("scaled constraint", list(k(p, *a, w.arr(t), s)), [-(x - y) * s for x, y in zip(v, t)])


def cases(tier):
    out = []
    th = tier == "thorough"
    for kind, big in (("Coordinate", 14), ("DirectedLength", 12), ("DirectedDistance", 11), ("OnLine", 4),
                      ("Margin", 11), ("Outer", 3), ("Deep", 3)):
        for n in (0, 1, 2, 3, big) if big > 3 else (0, 1, 2, 3):
            out.append(Case(f"map {kind} {n}", map_, kind=kind, n=n))
    nparam = {"DirectedDistance": 1, "PointToLine": 1, "Map": 2, "Inner": 2, "Outer": 3, "Rooted": 1, "Deep": 2,
              "Partial": 1}
    for n in OPERANDS:
        for k in range(0, nparam.get(n, 0) + 1):
            out.append(Case(f"partial {n} {k}", partial, na=n, k=k))
        out.append(Case(f"partial target {n}", partial_target, na=n))
        kinds = KINDS + ("0d", "jnp0d", "vector", "jnpvector", "own")
        for k in kinds:
            out.append(Case(f"target {n} {k}", target, na=n, kind=k))
        for k in ("map", "sum", "mapconstraint", "twice", "scaled"):
            out.append(Case(f"nested {n} {k}", nested, na=n, kind=k))
    return out
