"""C24: results depend on what is passed in alone, and operations leave their inputs as they were."""
import numpy as np
from vx.mpl import Mpl
from vx.minim import Minimizer
from vx.run import Case

BOUNDS = ("8 layouts of up to 24 unknowns solved repeatedly, extended and solved again, or solved beside one another with "
          "shared primitives, constraints and parameters, both methods; every constraint and construction with options, "
          "used before and after another one with other options (arrays of up to 3 boxes, grids of up to 2x3); figures, "
          "updates and previews of trees with every part; all real coordinates, targets and parameters")
ASSUMPTIONS = ["as in C12 to C15 and C22 (least-squares and minimization kernels, recording model of matplotlib)"]

NEVER = {"abs_tol": -1.0, "rel_tol": -1.0}


# ---- what a caller can see of a tree or a layout -----------------------------------

def copied(x):
    if isinstance(x, np.ndarray):
        return list(x.ravel())
    if isinstance(x, (list, tuple)):
        return [copied(y) for y in x]
    return x


def seen(w, node):
    """[(path, node, value object, copy of the value)]"""
    return [(k, n, n.value, copied(n.value)) for k, n in w.m.containers.iter_flat("", node)]


def unchanged(w, what, node, before):
    now = seen(w, node)
    w.eq(what + ": nodes", [k for k, *_ in now], [k for k, *_ in before])
    for (_, n, v, c), (_, n0, v0, c0) in zip(now, before):
        w.true(what + ": same nodes", n is n0)
        w.true(what + ": same types", type(n) is type(n0))
        entries(w, what + ": values", c, c0)


def entries(w, what, a, b):
    if isinstance(b, list):
        w.true(what, isinstance(a, list) and len(a) == len(b))
        for x, y in zip(a, b):
            entries(w, what, x, y)
    elif isinstance(b, (bool, str)) or b is None or hasattr(b, "keys") or callable(b):
        w.true(what, a is b or a == b)
    else:
        w.same(what, a, b)


def watch(w, lay):
    trees = (lay.root_prim, lay.root_constraint, lay.root_prim_keys, lay.root_param)
    shots = [(t, [(k, n) for k, n in w.m.containers.iter_flat("", t)]) for t in trees]
    prim, params = seen(w, lay.root_prim), seen(w, lay.root_param)
    keys = [(k, n.value) for k, n in w.m.containers.iter_flat("", lay.root_prim_keys)]

    def check(what):
        now = (lay.root_prim, lay.root_constraint, lay.root_prim_keys, lay.root_param)
        w.true(what + ": same trees", all(a is b for a, (b, _) in zip(now, shots)))
        for t, s in shots:
            n = list(w.m.containers.iter_flat("", t))
            w.true(what + ": same nodes", len(n) == len(s) and all(a[1] is b[1] for a, b in zip(n, s)))
            w.eq(what + ": same keys", [k for k, _ in n], [k for k, _ in s])
        unchanged(w, what + ": primitives", lay.root_prim, prim)
        unchanged(w, what + ": parameters", lay.root_param, params)
        w.true(what + ": primitive keys", [(k, n.value) for k, n in w.m.containers.iter_flat("", lay.root_prim_keys)] == keys)
    return check


def coords(w, tree):
    return [c for _, n in w.m.containers.iter_flat("", tree) for c in n.value]


def same_tree(w, what, a, b):
    w.eq(what + ": keys", [k for k, _ in w.m.containers.iter_flat("", a)], [k for k, _ in w.m.containers.iter_flat("", b)])
    w.eq(what + ": values", coords(w, a), coords(w, b))


# ---- layouts -----------------------------------------------------------------------

def ingredients(w, kind, tag=""):
    """([(key, primitive)], [(constraint, keys, params)], {solve options})"""
    P, C = w.m.primitives, w.m.constraints
    r = lambda n: w.real(tag + n)
    p = lambda n: P.Point(w.vec(tag + n))
    if kind == "point":
        return [("A", p("a"))], [(C.Fix(), ("A",), (w.vec(tag + "t"),)), (C.Fix(), ("A",), (w.vec(tag + "s"),))], {}
    if kind == "line":
        a, b, c = p("a"), p("b"), p("c")
        return ([("A", P.Line(prims=(a, b))), ("B", P.Line(prims=(b, c)))],
                [(C.XLength(), ("A",), (r("t"),)), (C.Vertical(), ("B",), ()), (C.YDistance(), ("A/Point0", "B/Point1"), (r("s"),))], {})
    if kind == "length":
        a, b = p("a"), p("b")
        w.assume_or(a.value[0] - b.value[0] != 0, a.value[1] - b.value[1] != 0)
        return [("A", P.Line(prims=(a, b)))], [(C.Length(), ("A",), (r("t"),)), (C.Horizontal(), ("A",), ())], {"max_iter": 1}
    quad = lambda n: P.Quadrilateral(None, [p(f"{n}{i}") for i in range(4)])
    if kind == "box":
        return ([("Q", quad("q"))],
                [(C.Box(), ("Q",), ()), (C.Width(), ("Q",), (r("W"),)), (C.Height(), ("Q",), (r("H"),)),
                 (C.Fix(), ("Q/Line0/Point0",), (w.vec(tag + "o"),))], {})
    if kind == "row":
        return ([("Q", quad("q")), ("R", quad("r"))],
                [(C.Box(), ("Q",), ()), (C.Box(), ("R",), ()), (C.OuterMargin(side="right"), ("Q", "R"), (r("m"),)),
                 (C.AlignRow(), ("Q", "R"), ()), (C.Width(), ("R",), (r("W"),)), (C.Height(), ("Q",), (r("H"),))], {})
    if kind == "array":
        return ([("Q", quad("q")), ("R", quad("r"))],
                [(C.OuterMarginArray((2,), "top"), ("Q", "R"), (r("m"),)), (C.InnerMargin(side="left"), ("Q", "R"), (r("n"),))], {})
    if kind == "grid":
        return ([("Q", quad("q")), ("R", quad("r"))],
                [(C.Box(), ("Q",), ()), (C.Box(), ("R",), ()), (C.RectilinearGrid((1, 2)), ("Q", "R"), ())], {})
    if kind == "axes":
        x = P.Axes(prims=(quad("f"), quad("x"), p("xl")), xaxis=True)
        return ([("Axes0", x)],
                [(C.Box(), ("Axes0/Frame",), ()), (C.Box(), ("Axes0/XAxis",), ()), (C.PositionXAxis(side="top"), ("Axes0",), ()),
                 (C.Height(), ("Axes0/XAxis",), (r("h"),)),
                 (C.XAxisThickness(), ("Axes0/XAxis",), (None,))], {})
    raise KeyError(kind)


KINDS = ("point", "line", "length", "box", "row", "array", "grid", "axes")
# layouts whose primitives, starting anywhere, always reach a unique or least-squares solution in one step


def assemble(w, prims, cons, order=1):
    L = w.m.layout.Layout()
    for k, p in prims[::order]:
        L.add_prim(p, k)
    for i, (c, k, a) in enumerate(cons):
        L.add_constraint(c, k, a)
    return L


def unsatisfied(w, L):
    """The layout does not already satisfy its constraints (its relative error is a number)."""
    r = w.m.solver.assem_constraint_residual(L.root_prim, *L.flat_constraints())
    w.assume(sum((x * x for v in r for x in v), 0.0) != 0)
    return L


def fresh_tree(w, node):
    """A primitive of the same kind, at the same coordinates, sharing points in the same way."""
    P = w.m.primitives
    memo = {}

    def go(n):
        if isinstance(n, P.Point):
            if id(n.value) not in memo:
                memo[id(n.value)] = P.Point(list(n.value))
            return memo[id(n.value)]
        kids = {k: go(c) for k, c in n.items()}
        if isinstance(n, P.Line):
            return P.Line(prims=(kids["Point0"], kids["Point1"]))
        if isinstance(n, P.Quadrilateral):
            return P.Quadrilateral(None, [kids[f"Line{i}"]["Point0"] for i in range(4)])
        return P.Axes(prims=tuple(kids.values()), xaxis="XAxis" in kids, yaxis="YAxis" in kids)
    return go(node)


def solve(w, L, how, kw):
    if how == "minimize":
        with Minimizer(w) as log:
            return w.m.solver.solve(L, method="minimize", **kw)
    return w.m.solver.solve(L, **kw, **({} if how == "default" else NEVER))


def twice(w, kind, how):
    """Solving leaves the layout as it was, and solving again gives the same."""
    prims, cons, kw = ingredients(w, kind)
    L = unsatisfied(w, assemble(w, prims, cons))
    kw = {"max_iter": 2, **kw}
    check = watch(w, L)
    sol, info = solve(w, L, how, kw)
    check("solved")
    mine = seen(w, sol)
    errs = list(info["abs_errs"]), list(info["rel_errs"])
    sol2, info2 = solve(w, L, how, kw)
    check("solved again")
    unchanged(w, "first solution", sol, mine)
    w.eq("first report kept", list(info["abs_errs"]), errs[0])
    w.eq("first report kept", list(info["rel_errs"]), errs[1])
    if how != "minimize":
        same_tree(w, "same solution", sol2, sol)
        w.eq("same errors", list(info2["abs_errs"]), errs[0])
        w.eq("same relative errors", list(info2["rel_errs"]), errs[1])


def extended(w, kind, at, extra_prim=True):
    """Solve, add the rest, solve: as a layout that was never solved before."""
    prims, cons, kw = ingredients(w, kind)
    kw = {"max_iter": 1, **kw}
    L = w.m.layout.Layout()
    for k, p in prims:
        L.add_prim(p, k)
    for c, k, a in cons[:at]:
        L.add_constraint(c, k, a)
    if at:
        unsatisfied(w, L)
    part, _ = solve(w, L, "always", kw)
    mine = seen(w, part)
    more = []
    if extra_prim:
        extra = w.point("extra")
        L.add_prim(extra, "Extra")
        more = [(w.m.constraints.Fix(), ("Extra",), (w.vec("xt"),))]
    for c, k, a in cons[at:] + more:
        L.add_constraint(c, k, a)
    unsatisfied(w, L)
    sol, info = solve(w, L, "always", kw)
    unchanged(w, "earlier solution", part, mine)
    new = w.m.layout.Layout()
    for k, p in prims:
        new.add_prim(fresh_tree(w, p) if len(prims) == 1 else p, k)
    if extra_prim:
        new.add_prim(w.m.primitives.Point(list(extra.value)), "Extra")
    for c, k, a in cons + more:
        new.add_constraint(c, k, a)
    want, winfo = solve(w, new, "always", kw)
    same_tree(w, "same as solved at once", sol, want)
    w.eq("same errors", list(info["abs_errs"]), list(winfo["abs_errs"]))


def replaced(w, what):
    """Solve, put other parameters or primitives in the place of earlier ones, solve: as a layout made of those."""
    C, P = w.m.constraints, w.m.primitives
    kw = {"max_iter": 1}

    def made(target, start):
        L = w.m.layout.Layout()
        L.add_prim(P.Point(list(start)), "A")
        L.add_prim(P.Point(w.vec("b")), "B")
        L.add_constraint(C.Fix(), ("A",), (w.arr(target),), "a")
        L.add_constraint(C.XDistance(), ("A", "B"), (w.real("d"),), "d")
        return unsatisfied(w, L)
    t, u, s, r = (list(w.vec(n)) for n in "tusr")
    L = made(t, s)
    sol, _ = solve(w, L, "always", kw)
    mine = seen(w, sol)
    if what == "params":
        L.root_param["a"] = L.root_constraint["a"].root_params((w.arr(u),))
        want = made(u, s)
    elif what == "prims":
        L.root_prim["A"] = P.Point(list(r))
        want = made(t, r)
    else:
        L.root_prim_keys["d"] = L.root_constraint["d"].root_prim_keys(("B", "A"))
        want = made(t, s)
        want.root_prim_keys["d"] = want.root_constraint["d"].root_prim_keys(("B", "A"))
    unsatisfied(w, L)
    again, info = solve(w, L, "always", kw)
    ref, rinfo = solve(w, want, "always", kw)
    unchanged(w, "earlier solution", sol, mine)
    same_tree(w, "same as solved at once", again, ref)
    w.eq("same errors", list(info["abs_errs"]), list(rinfo["abs_errs"]))


def continued(w, kind):
    """A layout made of a solution is another layout; the first one stays."""
    prims, cons, kw = ingredients(w, kind)
    L = unsatisfied(w, assemble(w, prims, cons))
    check = watch(w, L)
    sol, _ = solve(w, L, "always", {"max_iter": 1})
    mine = seen(w, sol)
    C = w.m.constraints
    M = w.m.layout.Layout(sol, *[T.from_tree(None, dict(t.items())) for T, t in (
        (C.ConstraintNode, L.root_constraint), (C.PrimKeysNode, L.root_prim_keys), (C.ParamsNode, L.root_param))])
    M.add_prim(w.point("extra"), "Extra")
    M.add_constraint(w.m.constraints.Fix(), ("Extra",), (w.vec("xt"),), "fixed")
    check("another layout extended")
    unsatisfied(w, M)
    sol2, _ = solve(w, M, "always", {"max_iter": 1})
    check("another layout solved")
    again, _ = solve(w, L, "always", {"max_iter": 1})
    w.eq("solved as before", coords(w, again), [c for *_, v in mine for c in v][:len(coords(w, again))])
    w.eq("the other one is solved too", list(sol2["Extra"].value), w.vec("xt"))


def beside(w, kind):
    """Layouts sharing primitives, constraints and parameters are solved on their own."""
    prims, cons, kw = ingredients(w, kind)
    kw = {"max_iter": 1, **kw}
    A = unsatisfied(w, assemble(w, prims, cons))
    B = assemble(w, prims, cons[:-1])
    t = w.vec("xt")
    B.add_prim(w.point("extra"), "Extra")
    B.add_constraint(w.m.constraints.Fix(), ("Extra",), (t,))
    unsatisfied(w, B)
    ca, cb = watch(w, A), watch(w, B)
    sa, ia = solve(w, A, "always", kw)
    mine = seen(w, sa)
    sb, ib = solve(w, B, "always", kw)
    unchanged(w, "the other solution", sa, mine)
    ca("both solved")
    cb("both solved")
    sa2, _ = solve(w, A, "always", kw)
    same_tree(w, "again", sa2, sa)
    # neither depends on the other
    ps = [(k, fresh_tree(w, p)) for k, p in prims] if len(prims) == 1 else prims
    D = assemble(w, ps, cons[:-1])
    D.add_prim(w.m.primitives.Point(list(B.root_prim["Extra"].value)), "Extra")
    D.add_constraint(w.m.constraints.Fix(), ("Extra",), (t,))
    sd, idd = solve(w, D, "always", kw)
    same_tree(w, "on its own", sb, sd)
    w.eq("on its own: errors", list(ib["abs_errs"]), list(idd["abs_errs"]))


def layouts(w, how):
    """New layouts start empty, with keys of their own, whatever others contain."""
    C, P = w.m.constraints, w.m.primitives
    Lay = w.m.layout.Layout
    A = Lay()
    n = w.choice("constraints", [0, 1, 2, 3])
    for i in range(2):
        A.add_prim(w.point(f"a{i}"), f"A{i}")
    for i in range(n):
        A.add_constraint(C.Fix(), (f"A{i % 2}",), (w.vec(f"t{i}"),))
    B = Lay() if how == "default" else Lay(P.PrimitiveNode.from_tree(P.np.array([]), {}))
    w.eq("empty", [len(B.root_prim), len(B.root_constraint), len(B.root_prim_keys), len(B.root_param)], [0, 0, 0, 0])
    D = Lay()
    b = w.point("b")
    for L in (B, D):
        L.add_prim(b, "B")
        L.add_constraint(C.Fix(), ("B",), (w.vec("u"),))
    w.eq("automatic keys do not depend on other layouts", list(B.root_constraint.keys()), list(D.root_constraint.keys()))
    w.eq("own primitives", list(B.root_prim.keys()), ["B"])
    w.eq("others' primitives", list(A.root_prim.keys()), ["A0", "A1"])
    w.eq("others' constraints", len(A.root_constraint), n)


# ---- constraints and constructions ---------------------------------------------------

def quads(w, n):
    return [w.box(f"q{i}", nondeg=True) for i in range(n)]


def axes4(w):
    P = w.m.primitives
    f = w.box("f", nondeg=True)
    parts = (f, w.box("x", nondeg=True), w.point("xl"), w.box("y", nondeg=True), w.point("yl"),
             w.box("tx", nondeg=True), w.point("txl"), w.box("ty", nondeg=True), w.point("tyl"))
    return P.Axes(prims=parts, xaxis=True, yaxis=True, twinx=True, twiny=True)


def families(w):
    """family -> [(make, primitives, parameters)]"""
    C, R, P = w.m.constructions, w.m.constraints, w.m.primitives
    S = ("left", "right", "bottom", "top")
    t = lambda i: w.real(f"t{i}")
    out = {}
    for cl in ("OuterMargin", "InnerMargin"):
        out["C " + cl] = [(lambda s=s, cl=cl: getattr(C, cl)(side=s), lambda: quads(w, 2), ()) for s in S]
        out["R " + cl] = [(lambda s=s, cl=cl: getattr(R, cl)(side=s), lambda: quads(w, 2), (t(0),)) for s in S]
    out["OuterMarginArray"] = [(lambda n=n, s=s: R.OuterMarginArray((n,), s), lambda n=n: quads(w, n), tuple(t(i) for i in range(n - 1)))
                               for n, s in ((2, "right"), (3, "right"), (2, "bottom"), (3, "top"))]
    out["Align"] = [(lambda: R.AlignRow(), lambda: quads(w, 2), ()), (lambda: R.AlignColumn(), lambda: quads(w, 2), ()),
                    (lambda: R.Align(row=True), lambda: quads(w, 2), ()), (lambda: R.Align(row=False), lambda: quads(w, 2), ())]
    out["CoincidentOutwardFaces"] = [(lambda s=s: R.CoincidentOutwardFaces(side=s), lambda: quads(w, 2), ()) for s in S]
    out["RectilinearGrid"] = [(lambda s=s: R.RectilinearGrid(s), lambda s=s: quads(w, s[0] * s[1]), ()) for s in ((1, 2), (2, 1), (2, 2), (2, 3))]
    out["Grid"] = [(lambda s=s: R.Grid(s), lambda s=s: quads(w, s[0] * s[1]),
                    ([t(i) for i in range(s[1] - 1)], [t(10 + i) for i in range(s[0] - 1)],
                     [t(20 + i) for i in range(s[1] - 1)], [t(30 + i) for i in range(s[0] - 1)]))
                   for s in ((1, 2), (2, 1), (2, 2))]
    out["PositionAxis"] = [(lambda: R.PositionXAxis(side="bottom"), lambda: [axes4(w)], ()),
                           (lambda: R.PositionXAxis(side="top", twin=True), lambda: [axes4(w)], ()),
                           (lambda: R.PositionYAxis(side="left"), lambda: [axes4(w)], ()),
                           (lambda: R.PositionYAxis(side="right", twin=True), lambda: [axes4(w)], ())]
    out["PositionAxisLabel"] = [(lambda: R.PositionXAxisLabel(), lambda: [axes4(w)], (t(0),)),
                                (lambda: R.PositionXAxisLabel(twin=True), lambda: [axes4(w)], (t(0),)),
                                (lambda: R.PositionYAxisLabel(), lambda: [axes4(w)], (t(0),)),
                                (lambda: R.PositionYAxisLabel(twin=True), lambda: [axes4(w)], (t(0),))]
    out["AxisThickness"] = [(lambda: R.XAxisThickness(), lambda: quads(w, 1), (None,)),
                            (lambda: R.YAxisThickness(), lambda: quads(w, 1), (None,))]
    out["sizes"] = [(lambda: C.Width(), lambda: quads(w, 1), ()), (lambda: C.Height(), lambda: quads(w, 1), ()),
                    (lambda: R.Width(), lambda: quads(w, 1), (t(0),)), (lambda: R.Height(), lambda: quads(w, 1), (t(0),)),
                    (lambda: C.AspectRatio(), lambda: quads(w, 1), ())]

    def lines(n):
        ls = [w.line(f"l{i}") for i in range(n)]
        for x in ls:
            w.nondegenerate(x)
        return ls
    out["lines"] = [(lambda: C.XLength(), lambda: lines(1), ()), (lambda: R.YLength(), lambda: lines(1), (t(0),)),
                    (lambda: R.Orthogonal(), lambda: lines(2), ()), (lambda: R.CoincidentLines(), lambda: lines(2), (w.bool("rev"),)),
                    (lambda: C.MidpointXDistance(), lambda: lines(2), ())]
    n, m = w.vec("n"), w.vec("m")
    L1, L2 = [P.Line], [P.Line, P.Line]
    out["transforms"] = [(lambda: C.transform_partial(C.DirectedLength(), n), lambda: lines(1), ()),
                         (lambda: C.transform_partial(C.DirectedLength(), m), lambda: lines(1), ()),
                         (lambda: C.transform_map(C.XLength(), L1), lambda: lines(1), ()),
                         (lambda: C.transform_map(C.XLength(), L2), lambda: lines(2), ()),
                         (lambda: C.transform_sum(C.XLength(), C.YLength()), lambda: lines(2), ()),
                         (lambda: C.transform_sum(C.XLength(), C.XLength()), lambda: lines(2), ()),
                         (lambda: C.transform_scalar_mul(C.XLength(), 2.0), lambda: lines(1), ()),
                         (lambda: C.transform_scalar_mul(C.XLength(), -3.0), lambda: lines(1), ()),
                         (lambda: C.transform_constraint(C.XLength()), lambda: lines(1), (t(0),)),
                         (lambda: C.transform_constraint(C.DirectedLength()), lambda: lines(1), (n, t(0)))]
    return out


FAMILIES = ("C OuterMargin", "C InnerMargin", "R OuterMargin", "R InnerMargin", "OuterMarginArray", "Align",
            "CoincidentOutwardFaces", "RectilinearGrid", "Grid", "PositionAxis", "PositionAxisLabel", "AxisThickness",
            "sizes", "lines", "transforms")


def outline(w, c):
    return [(k, n.signature, [tuple(x) for x in n.value.child_prim_keys]) for k, n in w.m.containers.iter_flat("", c)]


def instances(w, family):
    """A construction's value does not change when others of its kind are made and used."""
    fam = families(w)[family]
    made = []
    for make, prims, params in fam:
        c, ps = make(), tuple(prims())
        v = c(ps, *params)
        made.append((c, ps, params, list(v), outline(w, c)))
    for (c, ps, params, v, o), (make, _, _) in zip(made, fam):
        before = [seen(w, p) for p in ps]
        pa = copied(params)
        w.eq("same value later", list(c(ps, *params)), v)
        w.true("same structure later", outline(w, c) == o)
        d = make()
        w.eq("same value from a new one", list(d(ps, *params)), v)
        w.true("same structure of a new one", outline(w, d) == o)
        w.eq("first one again", list(c(ps, *params)), v)
        for p, b in zip(ps, before):
            unchanged(w, "primitives", p, b)
        entries(w, "parameters", copied(params), pa)


def operands(w, which):
    """Constructions made from others leave them as they were."""
    C, R, P = w.m.constructions, w.m.constraints, w.m.primitives
    f, g = {"leaf": (C.XLength, C.YLength), "nested": (C.DirectedLength, C.DirectedLength)}[which]
    f, g = f(), g()
    par = (w.vec("n"),) if which == "nested" else ()
    a, b = w.line("a"), w.line("b")
    of, og = outline(w, f), outline(w, g)
    vf, vg = list(f((a,), *par)), list(g((b,), *par))
    made = [C.transform_sum(f, g), C.transform_map(f, [P.Line, P.Line]), C.transform_constraint(g), f + g, f * 2.0, -f,
            C.transform_scalar_mul(g, f) if which == "none" else f / 3.0, f ** 2.0]
    if which == "nested":
        made += [C.transform_partial(f, par[0])]
    for how in range(2):
        w.eq("first operand", list(f((a,), *par)), vf)
        w.eq("second operand", list(g((b,), *par)), vg)
        w.true("first operand's structure", outline(w, f) == of)
        w.true("second operand's structure", outline(w, g) == og)
        for c in made:
            try:
                c((a, b), *par, *par)
            except Exception:  # noqa: BLE001  (other numbers of primitives or parameters: rejected)
                pass


def primitives(w, which):
    """Primitives made later do not change earlier ones."""
    P = w.m.primitives
    mk = {"polygon": [lambda: P.Polygon(size=3), lambda: P.Polygon(size=5), lambda: P.Quadrilateral(), lambda: P.Polygon()],
          "axes": [lambda: P.Axes(), lambda: P.Axes(xaxis=True), lambda: P.Axes(yaxis=True, twiny=True),
                   lambda: P.Axes(xaxis=True, yaxis=True), lambda: P.Axes(xaxis=True, twinx=True)],
          "line": [lambda: P.Point(), lambda: P.Line(), lambda: P.Point([1.0, 2.0]), lambda: P.Line()]}[which]
    made = [f() for f in mk]
    shots = [seen(w, p) for p in made]
    again = [f() for f in mk]
    ids = set()
    for p, s, q in zip(made, shots, again):
        unchanged(w, "earlier", p, s)
        same_tree(w, "later", q, p)
        a = {id(n) for _, n in w.m.containers.iter_flat("", p)}
        b = {id(n) for _, n in w.m.containers.iter_flat("", q)}
        va = {id(n.value) for _, n in w.m.containers.iter_flat("", p) if len(n.value)}
        vb = {id(n.value) for _, n in w.m.containers.iter_flat("", q) if len(n.value)}
        w.true("of its own", not (a & b) and not (va & vb))
    # equal but separate primitives can be fixed at different places
    L = w.m.layout.Layout()
    C = w.m.constraints
    ts = []
    for i, q in enumerate(made[:2]):
        L.add_prim(q, f"P{i}")
        key = f"P{i}" + {"polygon": "/Line0/Point0", "axes": "/Frame/Line0/Point0", "line": "" if i == 0 else "/Point0"}[which]
        ts.append((key, w.vec(f"t{i}")))
        L.add_constraint(C.Fix(), (key,), (ts[-1][1],))
    sol, _ = w.m.solver.solve(L)
    for k, t in ts:
        w.eq("placed on its own", list(sol[k].value), t)
    for p, s in zip(made, shots):
        unchanged(w, "solved", p, s)


# ---- figures -------------------------------------------------------------------------

def tree(w):
    c15 = w.props("c15")
    figq = c15.sized(w, "F")
    a, b = c15.sized(w, "a"), c15.sized(w, "b")
    P = w.m.primitives

    def boxes(f, xa, ya):
        return c15.axes_prim(w, f, xaxis=xa, yaxis=ya)
    return c15.root(w, [("Figure", figq), ("AxesA", boxes(a, True, False)), ("AxesB", boxes(b, False, True)),
                        ("Note", w.point("note"))])


def figures(w, other):
    """Making and updating figures leaves the tree alone and gives the same again."""
    mpl = Mpl(w)
    T, U = w.m.matplotlibutils, w.m.ui
    r = tree(w)
    before = seen(w, r)

    def look(fig, axs):
        return [mpl.size(fig)] + [mpl.rect_inches(fig, axs[k]) for k in axs] \
            + [mpl.label_inches(fig, axs["AxesA"].xaxis), mpl.label_inches(fig, axs["AxesB"].yaxis)]
    fig, axs = T.subplots(r)
    first = look(fig, axs)
    ticks = [axs["AxesA"].xaxis.get_ticks_position(), axs["AxesB"].yaxis.get_ticks_position()]
    unchanged(w, "figure made", r, before)
    keys = ["AxesB", "AxesA"]
    fig2, axs2 = T.subplots(r, "Figure", keys)
    w.true("keys kept", keys == ["AxesB", "AxesA"])
    w.true("a figure of its own", fig2 is not fig and axs2["AxesA"] is not axs["AxesA"])
    two = look(fig2, {k: axs2[k] for k in axs})
    for x, y in zip(first, two):
        w.eq("same figure", y, x)
    if other:      # something else is done to the second
        s = tree_other(w)
        T.update_subplots(s, "Figure", fig2, axs2)
    T.update_subplots(r, "Figure", fig, axs)
    unchanged(w, "figure updated", r, before)
    w.eq("axes kept", list(axs.keys()), ["AxesA", "AxesB"])
    for x, y in zip(first, look(fig, axs)):
        w.eq("updated to the same", y, x)
    w.eq("same ticks", [axs["AxesA"].xaxis.get_ticks_position(), axs["AxesB"].yaxis.get_ticks_position()], ticks)


def tree_other(w):
    c15 = w.props("c15")
    return c15.root(w, [("Figure", c15.sized(w, "F2")), ("AxesA", c15.axes_prim(w, c15.sized(w, "a2"))),
                        ("AxesB", c15.axes_prim(w, c15.sized(w, "b2")))])


def previews(w, kind):
    """Drawing leaves the tree alone and draws the same again."""
    mpl = Mpl(w)
    U = w.m.ui
    P = w.m.primitives
    items = {"points": lambda: [("A", w.point("a")), ("B", w.point("b"))],
             "line": lambda: [("L", w.line("l"))], "quad": lambda: [("Q", w.quad("q")), ("P", w.point("p"))]}[kind]()
    for _, p in items:
        if isinstance(p, P.Line):
            w.nondegenerate(p)
        if isinstance(p, P.Quadrilateral):
            for i in range(4):
                e = w.lvec(p[f"Line{i}"])
                w.assume(e[1] > 0 if i < 2 else e[1] < 0)
    r = P.PrimitiveNode.from_tree(P.np.array([]), dict(items))
    before = seen(w, r)
    a = mpl.new_axes()
    U.plot_prims(a, r)
    unchanged(w, "drawn", r, before)
    b = mpl.new_axes()
    U.plot_prims(b, r)
    unchanged(w, "drawn again", r, before)
    for what in ("lines", "patches", "texts"):
        x, y = getattr(mpl, what)(a), getattr(mpl, what)(b)
        w.true("as many " + what, len(x) == len(y))
        for p, q in zip(x, y):
            for s, t in zip(p, q):
                w.eq("same " + what, t, s)


# ---- other operations -----------------------------------------------------------------

def residuals(w, kind):
    """Evaluating a layout's constraints twice gives the same and changes nothing."""
    prims, cons, kw = ingredients(w, kind)
    L = assemble(w, prims, cons)
    check = watch(w, L)
    a = L.flat_constraints()
    r1 = w.m.solver.assem_constraint_residual(L.root_prim, *a)
    check("evaluated")
    b = L.flat_constraints()
    w.eq("as many", [len(x) for x in b], [len(x) for x in a])
    w.true("same keys", list(a[1]) == list(b[1]))
    r2 = w.m.solver.assem_constraint_residual(L.root_prim, *b)
    for x, y in zip(r1, r2):
        w.eq("same residual", list(y), list(x))
    # a caller may do as it likes with the lists handed out
    for x in a:
        if hasattr(x, "clear"):
            x.clear()
    check("lists handed out emptied")
    r3 = w.m.solver.assem_constraint_residual(L.root_prim, *L.flat_constraints())
    w.eq("as many residuals", len(r3), len(r1))
    for x, y in zip(r1, r3):
        w.eq("same residual afterwards", list(y), list(x))


def refreshed(w, n):
    """Refreshing from drawn axes gives a new layout and leaves the first one."""
    mpl = Mpl(w)
    C, P = w.m.constraints, w.m.primitives
    fig = mpl.figure(4, 3)
    axs = {f"Axes{i}": mpl.add_axes(fig, (0.25, 0.25, 0.5, 0.5)) for i in range(n)}
    ts = [w.real(f"t{i}", lo=0, hi=2) for i in range(2)]
    L = w.m.layout.Layout()
    for i in range(n):
        L.add_prim(P.Axes(xaxis=True), f"Axes{i}")
        L.add_constraint(C.Fix(), (f"Axes{i}/Frame/Line0/Point0",), (w.vec(f"o{i}"),))
        L.add_constraint(C.XAxisThickness(), (f"Axes{i}/XAxis",), (None,))
    check = watch(w, L)

    def drawn(t):
        for a in axs.values():
            b = mpl.rect_inches(fig, a)
            d = fig.get_dpi()
            mpl.set_tight(a.xaxis, lambda b=b: [b[0] * d, (b[1] - t) * d, b[2] * d, b[1] * d])
    out = []
    for k, t in enumerate(ts):
        drawn(t)
        M = w.m.layout.update_layout_constraints(L, axs)
        check("refreshed")
        res = w.m.solver.assem_constraint_residual(M.root_prim, *M.flat_constraints())
        out.append([x for v in res for x in v])
        w.eq("axes kept", list(axs.keys()), [f"Axes{i}" for i in range(n)])
    # default axis boxes are one unit high
    for o, t in zip(out, ts):
        for i in range(n):
            w.eq("follows its own drawing", o[3 * i + 2], 1 - t)


def separate(w, first, n):
    """A refreshed layout and the one it was made from grow separately."""
    C = w.m.constraints
    L = w.m.layout.Layout()
    ts = [w.vec(f"t{i}") for i in range(3)]
    for k in "ABC":
        L.add_prim(w.point(k), k)
    for i in range(n):
        L.add_constraint(C.Fix(), ("A",), (ts[0],))
    M = w.m.layout.update_layout_constraints(L, {})
    for who in ("new", "old") if first == "new" else ("old", "new"):
        lay, k, t = (M, "B", ts[1]) if who == "new" else (L, "C", ts[2])
        lay.add_constraint(C.Fix(), (k,), (t,), w.choice("key " + who, ["", "Mine"]))
        lay.add_prim(w.point("D" + who), "D" + who)
    for lay, k, t, who in ((M, "B", ts[1], "new"), (L, "C", ts[2], "old")):
        w.eq("primitives", list(lay.root_prim.keys()), ["A", "B", "C", "D" + who])
        cons, keys, params = lay.flat_constraints()
        w.eq("own constraints only", [len(cons), len(keys), len(params)], 3 * [n + 1])
        w.true("own keys", list(keys[-1]) == [k])
        r = w.m.solver.assem_constraint_residual(lay.root_prim, cons, keys, params)
        want = [a - b for a, b in zip(lay.root_prim[k].value, t)]
        w.zero_iff("own target", list(r[-1]), want)


def cases(tier):
    th = tier == "thorough"
    out = []
    for k in KINDS:
        out.append(Case(f"twice {k}", twice, kind=k, how="always"))
        out.append(Case(f"residuals {k}", residuals, kind=k))
        if k != "length" or th:
            out.append(Case(f"beside {k}", beside, kind=k))
    for k in ("point", "line", "box"):
        out.append(Case(f"twice {k} default", twice, kind=k, how="default"))
    for k in ("point", "line") + (("box", "row") if th else ()):
        out.append(Case(f"twice {k} minimize", twice, kind=k, how="minimize"))
    for k, at in (("point", 1), ("line", 0), ("line", 2), ("box", 1), ("row", 3), ("axes", 3), ("grid", 2)):
        out.append(Case(f"extended {k} {at}", extended, kind=k, at=at))
        out.append(Case(f"extended {k} {at} by constraints", extended, kind=k, at=at, extra_prim=False))
    for k in ("point", "line", "box", "row"):
        out.append(Case(f"continued {k}", continued, kind=k))
    for h in ("default", "given"):
        out.append(Case(f"layouts {h}", layouts, how=h))
    for f in FAMILIES:
        out.append(Case(f"instances {f}", instances, family=f))
    for k in ("leaf", "nested"):
        out.append(Case(f"operands {k}", operands, which=k))
    for k in ("polygon", "axes", "line"):
        out.append(Case(f"primitives {k}", primitives, which=k))
    for o in (False, True):
        out.append(Case(f"figures {'beside another' if o else 'again'}", figures, other=o))
    for k in ("points", "line", "quad"):
        out.append(Case(f"previews {k}", previews, kind=k))
    for n in (1, 2):
        out.append(Case(f"refreshed {n}", refreshed, n=n))
    for k in ("params", "prims", "keys"):
        out.append(Case(f"replaced {k}", replaced, what=k))
    for f in ("new", "old"):
        for n in (0, 1) + ((3,) if th else ()):
            out.append(Case(f"separate {f} first {n}", separate, first=f, n=n))
    return out
