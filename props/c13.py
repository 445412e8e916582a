"""C13: affine layouts are solved; satisfied and unconstrained layouts come back as they are."""
from vx.run import Case

BOUNDS = ("25 affine layouts of up to 36 unknowns (boxes, rows of boxes, figures with margins, axes, chains of points, "
          "redundant and underdetermined systems); 24 kinds of satisfied constraints; both methods; all real starting "
          "coordinates and all targets measured from an arbitrary solution")
ASSUMPTIONS = ["a least-squares kernel returns a solution of the normal equations and zero for a zero right hand side",
               "an optimizer started at a stationary point performs no iteration"]

SIDES = ("bottom", "top", "left", "right")
OPP = {"left": "right", "right": "left", "bottom": "top", "top": "bottom"}


# ---- geometry -------------------------------------------------------------------

class Geo:
    """Named points: where they start and where a solution has them."""

    def __init__(self, w):
        self.w = w
        self.start, self.goal = {}, {}

    def pt(self, name, goal=None):
        w = self.w
        self.start[name] = w.vec("s" + name)
        self.goal[name] = goal if goal is not None else w.vec("g" + name)
        return w.m.primitives.Point(list(self.start[name]))

    def line(self, name, a=None, b=None):
        w = self.w
        a = a if a is not None else self.pt(name + "0")
        b = b if b is not None else self.pt(name + "1")
        return w.m.primitives.Line(prims=(a, b))

    def box_goal(self, name):
        w = self.w
        x, y, dx, dy = w.real("x" + name), w.real("y" + name), w.real("dx" + name), w.real("dy" + name)
        return [[x, y], [x + dx, y], [x + dx, y + dy], [x, y + dy]]

    def quad(self, name):
        g = self.box_goal(name)
        return self.w.m.primitives.Quadrilateral(None, [self.pt(f"{name}{i}", g[i]) for i in range(4)])


def corners(q):
    return [list(q[f"Line{i}/Point0"].value) for i in range(4)]


def box_sides(c):
    return {"left": c[0][0], "right": c[2][0], "bottom": c[0][1], "top": c[2][1]}


class L:
    """A layout under construction with the relations its solution must satisfy."""

    def __init__(self, w):
        self.w, self.g = w, Geo(w)
        self.layout = w.m.layout.Layout()
        self.checks = []
        self.goals = {}

    def prim(self, key, p):
        self.layout.add_prim(p, key)

    def quad(self, key):
        self.prim(key, self.g.quad(key))
        self.goals[key] = [self.g.goal[f"{key}{i}"] for i in range(4)]

    def con(self, c, keys, params, check):
        self.layout.add_constraint(c, keys, params)
        self.checks.append(check)

    # relations between boxes
    def box(self, q):
        def check(s):
            p = corners(s[q])
            return [p[1][1] - p[0][1], p[2][1] - p[3][1], p[3][0] - p[0][0], p[2][0] - p[1][0]]
        self.con(self.w.m.constraints.Box(), (q,), (), check)

    def size(self, q, which):
        g = box_sides(self.goals[q])
        lo, hi = ("left", "right") if which == "Width" else ("bottom", "top")
        t = g[hi] - g[lo]

        def check(s):
            b = box_sides(corners(s[q]))
            return [b[hi] - b[lo] - t]
        self.con(getattr(self.w.m.constraints, which)(), (q,), (t,), check)

    def margin(self, a, b, side, outer):
        C = self.w.m.constraints
        sign = 1 if side in ("right", "top") else -1
        other = OPP[side] if outer else side

        def dist(ca, cb):
            return sign * (box_sides(cb)[other] - box_sides(ca)[side])
        t = dist(self.goals[a], self.goals[b])
        c = (C.OuterMargin if outer else C.InnerMargin)(side=side)
        self.con(c, (a, b), (t,), lambda s: [dist(corners(s[a]), corners(s[b])) - t])

    def fix(self, key, name):
        t = self.g.goal[name]
        self.con(self.w.m.constraints.Fix(), (key,), (self.w.arr(t),), lambda s: _sub(list(s[key].value), t))

    def dist(self, which, a, b, na, nb):
        i = 0 if which == "XDistance" else 1
        t = self.g.goal[nb][i] - self.g.goal[na][i]
        self.con(getattr(self.w.m.constraints, which)(), (a, b), (t,),
                 lambda s: [s[b].value[i] - s[a].value[i] - t])

    def length(self, which, k, na, nb):
        i = 0 if which == "XLength" else 1
        t = self.g.goal[nb][i] - self.g.goal[na][i]
        self.con(getattr(self.w.m.constraints, which)(), (k,), (t,),
                 lambda s: [s[k + "/Point1"].value[i] - s[k + "/Point0"].value[i] - t])

    def plain(self, c, keys, check):
        self.con(c, keys, (), check)

    def straight(self, which, k):
        i = 1 if which == "Horizontal" else 0
        self.con(getattr(self.w.m.constraints, which)(), (k,), (),
                 lambda s: [s[k + "/Point1"].value[i] - s[k + "/Point0"].value[i]])

    def coincident(self, a, b):
        self.con(self.w.m.constraints.Coincident(), (a, b), (), lambda s: _sub(list(s[a].value), list(s[b].value)))

    def run(self, **kw):
        w = self.w
        sol, info = w.m.solver.solve(self.layout, **kw)
        for i, f in enumerate(self.checks):
            e = f(sol)
            w.eq(f"constraint {i} satisfied", e, [0.0] * len(e))
        return sol


def _sub(a, b):
    return [x - y for x, y in zip(a, b)]


# ---- affine layouts ------------------------------------------------------------------

def affine(w, kind):
    l = L(w)
    g = l.g
    B = globals()["_" + kind.split(":")[0].replace(" ", "_")]
    kw = B(l, *kind.split(":")[1:]) or {}
    l.run(**kw)


def _one_box(l):
    l.quad("Q")
    l.box("Q")
    l.size("Q", "Width")
    l.size("Q", "Height")
    l.fix("Q/Line0/Point0", "Q0")


def _box_only(l):
    l.quad("Q")
    l.box("Q")


def _size_last(l):
    l.quad("Q")
    l.size("Q", "Height")
    l.size("Q", "Width")
    l.fix("Q/Line2/Point0", "Q2")
    l.box("Q")
    return {"method": "newton"}


def _figure(l):
    """A frame with an inner box given by its margins."""
    l.quad("F")
    l.quad("A")
    for q in "FA":
        l.box(q)
    l.fix("F/Line0/Point0", "F0")
    l.size("F", "Width")
    l.size("F", "Height")
    for s in SIDES:
        l.margin("A", "F", s, False)


def _inner(l, side):
    l.quad("F")
    l.quad("A")
    l.box("F")
    l.box("A")
    l.margin("A", "F", side, False)


def _outer(l, side):
    l.quad("A")
    l.quad("B")
    l.box("A")
    l.box("B")
    l.margin("A", "B", side, True)
    l.size("A", "Width")


def _row(l, n, extra):
    """Boxes side by side inside a frame."""
    n = int(n)
    names = [f"A{i}" for i in range(n)]
    l.quad("F")
    for q in names:
        l.quad(q)
    for q in ["F"] + names:
        l.box(q)
    for a, b in zip(names, names[1:]):
        l.margin(a, b, "right", True)
    for q in names:
        l.size(q, "Width")
        l.margin(q, "F", "bottom", False)
        l.size(q, "Height")
    l.margin(names[0], "F", "left", False)
    l.margin(names[-1], "F", "right", False)
    l.margin(names[0], "F", "top", False)
    if extra == "fixed":
        l.fix("F/Line0/Point0", "F0")


def _points(l):
    for n in "ABC":
        l.prim(n, l.g.pt(n))
    l.fix("A", "A")
    l.dist("XDistance", "A", "B", "A", "B")
    l.dist("YDistance", "B", "A", "B", "A")
    l.dist("XDistance", "C", "B", "C", "B")


def _chain(l, order):
    """Lines sharing their end points."""
    g = l.g
    p = [g.pt(f"p{i}") for i in range(4)]
    for i in range(3):
        l.prim(f"K{i}", g.line(f"K{i}", p[i], p[i + 1]))
    steps = [lambda: l.length("XLength", "K0", "p0", "p1"), lambda: l.length("YLength", "K0", "p0", "p1"),
             lambda: l.length("YLength", "K1", "p1", "p2"), lambda: l.length("XLength", "K2", "p2", "p3"),
             lambda: l.fix("K1/Point1", "p2")]
    for i in ((0, 1, 2, 3, 4) if order == "a" else (4, 2, 3, 0, 1)):
        steps[i]()


def _straight(l):
    g = l.g
    y, x = l.w.real("y"), l.w.real("x")
    a, b, c = [l.w.real("a"), y], [x, y], [x, l.w.real("c")]
    p = [g.pt("p0", a), g.pt("p1", b), g.pt("p2", c)]
    l.prim("H", g.line("H", p[0], p[1]))
    l.prim("V", g.line("V", p[1], p[2]))
    l.straight("Horizontal", "H")
    l.straight("Vertical", "V")
    l.length("XLength", "H", "p0", "p1")
    l.length("YLength", "V", "p1", "p2")
    l.fix("V/Point0", "p1")


def _coincident(l):
    g = l.g
    m = l.w.vec("m")
    l.prim("H", g.line("H", g.pt("h0"), g.pt("h1", m)))
    l.prim("V", g.line("V", g.pt("v0", m), g.pt("v1")))
    l.coincident("H/Point1", "V/Point0")
    l.length("XLength", "V", "v0", "v1")
    l.fix("H/Point0", "h0")


def _redundant(l):
    l.quad("Q")
    for _ in range(2):
        l.fix("Q/Line0/Point0", "Q0")
        l.box("Q")
    l.straight("Horizontal", "Q/Line0")
    l.size("Q", "Width")
    l.length("XLength", "Q/Line0", "Q0", "Q1")


def _touching(l):
    """Two boxes that share a corner, with the same point used for it."""
    g = l.g
    x, y, a, b, c, d = [l.w.real(n) for n in "xyabcd"]
    ga = [[x - a, y - b], [x, y - b], [x, y], [x - a, y]]
    gb = [[x, y], [x + c, y], [x + c, y + d], [x, y + d]]
    P = l.w.m.primitives
    pa = [g.pt(f"A{i}", v) for i, v in enumerate(ga)]
    pb = [pa[2]] + [g.pt(f"B{i}", gb[i]) for i in (1, 2, 3)]
    g.goal["B0"] = gb[0]
    l.prim("A", P.Quadrilateral(None, pa))
    l.prim("B", P.Quadrilateral(None, pb))
    l.goals.update(A=ga, B=gb)
    for q in "AB":
        l.box(q)
        l.size(q, "Width")
        l.size(q, "Height")
    l.fix("B/Line0/Point0", "B0")


def _axes(l, side):
    """Axes whose frame is placed in a figure and whose x axis sits on a side of the frame."""
    w, g = l.w, l.g
    P, C = w.m.primitives, w.m.constraints
    frame = g.quad("f")
    gf = [g.goal[f"f{i}"] for i in range(4)]
    ga = g.box_goal("a")
    # the axis box spans the side of the frame
    lo, hi = ((0, 1) if side == "bottom" else (3, 2))
    t = w.real("t")
    if side == "bottom":
        ga = [[gf[0][0], gf[0][1] - t], [gf[1][0], gf[1][1] - t], gf[1], gf[0]]
    else:
        ga = [gf[3], gf[2], [gf[2][0], gf[2][1] + t], [gf[3][0], gf[3][1] + t]]
    axis = P.Quadrilateral(None, [g.pt(f"a{i}", ga[i]) for i in range(4)])
    label = g.pt("l")
    l.quad("F")
    l.prim("X", P.Axes(prims=(frame, axis, label), xaxis=True, yaxis=False))
    l.goals["X/Frame"], l.goals["X/XAxis"] = gf, ga
    l.box("F")
    l.box("X/Frame")
    l.box("X/XAxis")
    l.size("X/XAxis", "Height")
    l.fix("F/Line0/Point0", "F0")
    l.size("F", "Width")
    l.size("F", "Height")
    for s in SIDES:
        l.margin("X/Frame", "F", s, False)

    def check(s):
        f, a = corners(s["X/Frame"]), corners(s["X/XAxis"])
        i, j = ((0, 1), (3, 2)) if side == "bottom" else ((3, 2), (0, 1))
        return [x for p, q in zip(i, j) for x in _sub(f[p], a[q])]
    l.plain(C.PositionXAxis(side=side), ("X",), check)


def _margins_array(l, n):
    """A row with a margin per neighbouring pair, as one compound constraint."""
    n = int(n)
    names = [f"A{i}" for i in range(n)]
    for q in names:
        l.quad(q)
        l.box(q)
    ts = [l.goals[b][0][0] - l.goals[a][2][0] for a, b in zip(names, names[1:])]

    def check(s):
        c = [box_sides(corners(s[q])) for q in names]
        return [b["left"] - a["right"] - t for a, b, t in zip(c, c[1:], ts)]
    l.con(l.w.m.constraints.OuterMarginArray(shape=(n,), side="right"), tuple(names), tuple(ts), check)


AFFINE = (["one box", "box only", "size last", "figure", "points", "chain:a", "chain:b", "straight", "coincident",
           "redundant", "touching", "axes:bottom", "axes:top", "row:2:fixed", "row:2:free", "margins array:3"]
          + [f"inner:{s}" for s in SIDES] + [f"outer:{s}" for s in SIDES])


# ---- layouts that need no change -----------------------------------------------------------

def _geometry(sol):
    """(path, coordinates) of every point of a tree."""
    out = []

    def walk(path, n):
        out.append((path, list(n.value)))
        for k in n:
            walk(path + "/" + k, n[k])
    walk("", sol)
    return out


def same(w, layout, method, **kw):
    before = _geometry(layout.root_prim)
    sol, info = w.m.solver.solve(layout, method=method, **kw)
    after = _geometry(sol)
    w.eq("tree", [k for k, _ in after], [k for k, _ in before])
    for (k, v), (_, b) in zip(after, before):
        w.eq("unchanged", v, b)
    _types(w, sol, layout.root_prim)
    return info


def _types(w, a, b):
    w.true("types kept", type(a) is type(b))
    for k in b:
        _types(w, a[k], b[k])


def empty(w, kind, method):
    """No constraints."""
    P = w.m.primitives
    l = w.m.layout.Layout()
    if kind == "point":
        l.add_prim(P.Point(w.vec("p")), "A")
    elif kind == "figure":
        l.add_prim(w.quad("q"), "F")
        l.add_prim(P.Axes(prims=(w.quad("f"), w.quad("x"), w.point("xl")), xaxis=True, yaxis=False), "X")
    elif kind == "shared":
        p = w.point("p")
        l.add_prim(P.Line(prims=(p, w.point("q"))), "A")
        l.add_prim(P.Line(prims=(w.point("r"), p)), "B")
    info = same(w, l, method)
    w.true("no error", all(not (e > 0) for e in info["abs_errs"]))


def satisfied(w, kind, method):
    """Constraints of any kind that already hold."""
    C, P = w.m.constraints, w.m.primitives
    l = w.m.layout.Layout()
    line = lambda n: w.line(n)

    def put(*ps):
        ks = []
        for i, p in enumerate(ps):
            l.add_prim(p, f"P{i}")
            ks.append(f"P{i}")
        return tuple(ks)

    def apart(*ls):
        for k in ls:
            w.nondegenerate(k)

    sub, norm = _sub, w.norm
    if kind == "Fix":
        p = w.vec("p")
        l.add_constraint(C.Fix(), put(P.Point(p)), (w.arr(p),))
    elif kind == "DirectedDistance":
        p, q, n = w.vec("p"), w.vec("q"), w.vec("n")
        d = sub(q, p)
        l.add_constraint(C.DirectedDistance(), put(P.Point(p), P.Point(q)), (w.arr(n), d[0] * n[0] + d[1] * n[1]))
    elif kind == "Coincident":
        p = w.vec("p")
        l.add_constraint(C.Coincident(), put(P.Point(p), P.Point(list(p))), ())
    elif kind in ("Length", "XLength", "YLength"):
        a = line("a")
        apart(a)
        v = w.lvec(a)
        l.add_constraint(getattr(C, kind)(), put(a), ({"Length": norm(v), "XLength": v[0], "YLength": v[1]}[kind],))
    elif kind == "RelativeLength":
        a, b = line("a"), line("b")
        apart(a, b)
        l.add_constraint(C.RelativeLength(), put(a, b), (norm(w.lvec(a)) / norm(w.lvec(b)),))
    elif kind in ("MidpointXDistance", "MidpointYDistance"):
        a, b = line("a"), line("b")
        i = "XY".index(kind[8])
        (a0, a1), (b0, b1) = w.ends(a), w.ends(b)
        l.add_constraint(getattr(C, kind)(), put(a, b), ((b0[i] + b1[i] - a0[i] - a1[i]) / 2,))
    elif kind in ("Orthogonal", "Parallel", "Collinear"):
        p, v, k, q = w.vec("p"), w.vec("v"), w.real("k"), w.vec("q")
        w.assume_or(v[0] != 0, v[1] != 0)
        w.assume(k != 0)
        d = [-k * v[1], k * v[0]] if kind == "Orthogonal" else [k * v[0], k * v[1]]
        if kind == "Collinear":
            m = w.real("m")
            q = [p[0] + m * v[0], p[1] + m * v[1]]
        a = P.Line(prims=(P.Point(p), P.Point([p[0] + v[0], p[1] + v[1]])))
        b = P.Line(prims=(P.Point(q), P.Point([q[0] + d[0], q[1] + d[1]])))
        l.add_constraint(getattr(C, kind)(), put(a, b), ())
    elif kind == "CoincidentLines":
        p, q, r = w.vec("p"), w.vec("q"), w.choice("r", [False, True])
        a = P.Line(prims=(P.Point(p), P.Point(q)))
        b = P.Line(prims=(P.Point(q), P.Point(p)) if r else (P.Point(p), P.Point(q)))
        l.add_constraint(C.CoincidentLines(), put(a, b), (r,))
    elif kind == "Box":
        l.add_constraint(C.Box(), put(w.box("q")), ())
    elif kind in ("Width", "Height"):
        q = w.box("q")
        s = box_sides(corners(q))
        l.add_constraint(C.Box(), put(q), ())
        l.add_constraint(getattr(C, kind)(), ("P0",),
                         (s["right"] - s["left"] if kind == "Width" else s["top"] - s["bottom"],))
    elif kind == "AspectRatio":
        q = w.quad("q")
        apart(q["Line0"], q["Line1"])
        l.add_constraint(C.AspectRatio(), put(q), (norm(w.lvec(q["Line0"])) / norm(w.lvec(q["Line1"])),))
    elif kind == "InnerMargin":
        a, b = w.box("a"), w.box("b")
        l.add_constraint(C.InnerMargin(side="left"), put(a, b),
                         (box_sides(corners(a))["left"] - box_sides(corners(b))["left"],))
    elif kind == "AlignRow":
        x, y, a, b, c, h = [w.real(n) for n in ("x", "y", "a", "b", "c", "h")]
        for v in (a, c, h):
            w.assume(v != 0)

        def bx(x, dx):
            return P.Quadrilateral(None, [P.Point(v) for v in ([x, y], [x + dx, y], [x + dx, y + h], [x, y + h])])
        l.add_constraint(C.AlignRow(), put(bx(x, a), bx(b, c)), ())
    elif kind == "mixed":
        # several relations on shared points
        p, q, r = w.point("p"), w.point("q"), w.point("r")
        a, b = P.Line(prims=(p, q)), P.Line(prims=(q, r))
        apart(a, b)
        va, vb = w.lvec(a), w.lvec(b)
        ks = put(a, b)
        l.add_constraint(C.Length(), ks[:1], (norm(va),))
        l.add_constraint(C.XLength(), ks[1:], (vb[0],))
        l.add_constraint(C.RelativeLength(), ks, (norm(va) / norm(vb),))
        l.add_constraint(C.Fix(), ("P1/Point0",), (w.arr(list(q.value)),))
    else:
        raise KeyError(kind)
    same(w, l, method)


SATISFIED = ["Fix", "DirectedDistance", "Coincident", "Length", "XLength", "YLength", "RelativeLength",
             "MidpointXDistance", "MidpointYDistance", "Orthogonal", "Parallel", "Collinear", "CoincidentLines", "Box",
             "Width", "Height", "AspectRatio", "InnerMargin", "AlignRow", "mixed"]


def cases(tier):
    th = tier == "thorough"
    out = [Case(f"affine {k}", affine, kind=k) for k in AFFINE]
    if th:
        out += [Case(f"affine {k}", affine, kind=k) for k in ("row:3:fixed", "row:3:free", "row:4:fixed",
                                                              "margins array:4", "margins array:2")]
    for m in ("newton", "minimize"):
        out += [Case(f"no constraint {k} {m}", empty, kind=k, method=m) for k in ("point", "figure", "shared")]
        out += [Case(f"satisfied {k} {m}", satisfied, kind=k, method=m) for k in SATISFIED]
    return out
