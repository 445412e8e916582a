"""C21: constructions enforce and honour their declared signatures."""
import numpy as np
from props.shapes import OPERANDS, make, operand
from vx.run import Case

BOUNDS = ("every exported construction and constraint (arrays and grids up to 4 (5 in the thorough tier) rows and columns) "
          "and every transform of 12 operand constructions; every count of primitives from 0 to 2 more than expected, every "
          "wrong primitive type at every position, every count of parameters from 0 to 2 more than expected, every wrong "
          "length (0 to 2 more than expected) of every grid parameter and of target vectors; user-defined constructions of "
          "up to 3 children with every number of primitive keys, child keys, argument lists and child parameters from 0 to 4; "
          "all real coordinates and parameters")

# what each exported class takes and returns, from its documentation:
# primitives (p point, l line, q quadrilateral, a axes), parameters (n vector, t real, b flag, k axis or None), value count
PAIRS = {
    "constructions": {
        "Scalar": ("", "t", 1), "Coordinate": ("p", "", 2), "DirectedDistance": ("pp", "n", 1),
        "XDistance": ("pp", "", 1), "YDistance": ("pp", "", 1), "LineVector": ("l", "", 2),
        "UnitLineVector": ("l", "", 2), "Length": ("l", "", 1), "DirectedLength": ("l", "n", 1),
        "XLength": ("l", "", 1), "YLength": ("l", "", 1), "Midpoint": ("l", "", 2),
        "MidpointDirectedDistance": ("ll", "n", 1), "MidpointXDistance": ("ll", "", 1),
        "MidpointYDistance": ("ll", "", 1), "Angle": ("ll", "", 1), "PointOnLineDistance": ("pl", "b", 1),
        "PointToLineDistance": ("pl", "b", 1), "RelativePointOnLineDistance": ("pl", "b", 1),
        "Width": ("q", "", 1), "Height": ("q", "", 1), "AspectRatio": ("q", "", 1),
    },
    "constraints": {
        "Fix": ("p", "n", 2), "DirectedDistance": ("pp", "nt", 1), "XDistance": ("pp", "t", 1),
        "YDistance": ("pp", "t", 1), "Coincident": ("pp", "", 2), "Length": ("l", "t", 1),
        "DirectedLength": ("l", "nt", 1), "XLength": ("l", "t", 1), "YLength": ("l", "t", 1),
        "Vertical": ("l", "", 1), "Horizontal": ("l", "", 1), "RelativeLength": ("ll", "t", 1),
        "MidpointXDistance": ("ll", "t", 1), "MidpointYDistance": ("ll", "t", 1), "Orthogonal": ("ll", "", 1),
        "Parallel": ("ll", "", 1), "Angle": ("ll", "t", 1), "Collinear": ("ll", "", 2),
        "CoincidentLines": ("ll", "b", 4), "PointOnLineDistance": ("pl", "bt", 1),
        "PointToLineDistance": ("pl", "bt", 1), "RelativePointOnLineDistance": ("pl", "bt", 1),
        "Box": ("q", "", None), "Width": ("q", "t", 1), "Height": ("q", "t", 1), "AspectRatio": ("q", "t", 1),
        "XAxisThickness": ("q", "k", 1), "YAxisThickness": ("q", "k", 1), "AlignRow": ("qq", "", None),
        "AlignColumn": ("qq", "", None), "PositionXAxis": ("a", "", None), "PositionYAxis": ("a", "", None),
        "PositionXAxisLabel": ("a", "t", 1), "PositionYAxisLabel": ("a", "t", 1),
    },
}
SIDED = {"constructions": ("OuterMargin", "InnerMargin"),
         "constraints": ("OuterMargin", "InnerMargin", "CoincidentOutwardFaces")}
SIDES = ("left", "right", "bottom", "top")


def prim(w, kind, na, bad=False):
    """`bad`: for calls that must be rejected (no need for regular shapes)."""
    P = w.m.primitives
    if bad and kind in "lqa":
        if kind == "l":
            return w.line(na)
        if kind == "q":
            return w.quad(na)
        return P.Axes(prims=(w.quad(na + "f"), w.quad(na + "x"), w.point(na + "xl"), w.quad(na + "y"),
                             w.point(na + "yl")), xaxis=True, yaxis=True)
    if kind == "p":
        return w.point(na)
    if kind == "l":
        l = w.line(na)
        w.nondegenerate(l)
        return l
    if kind == "q":
        return w.box(na, nondeg=True)
    if kind == "5":
        return P.Polygon(prims=[w.point(f"{na}{i}") for i in range(5)])
    if kind == "4":
        return P.Polygon(prims=[w.point(f"{na}{i}") for i in range(4)])
    if kind == "n":
        return P.PrimitiveNode.from_tree(np.array([]), {"Line0": w.line(na)})
    if kind == "s":
        return P.PrimitiveNode.from_tree(w.arr(w.reals(na, 2)), {})
    if kind == "a":
        return P.Axes(prims=(w.box(na + "f", nondeg=True), w.box(na + "x"), w.point(na + "xl"), w.box(na + "y"),
                             w.point(na + "yl")), xaxis=True, yaxis=True)
    raise KeyError(kind)


def param(w, kind, na):
    return {"n": lambda: w.vec(na), "t": lambda: w.real(na), "b": lambda: w.bool(na), "k": lambda: None}[kind]()


def subject(w, na):
    """(construction, primitive kinds, parameter kinds, number of values or None)."""
    C, R = w.m.constructions, w.m.constraints
    mod, cls, *arg = na.split()
    mo = {"constructions": C, "constraints": R}[mod]
    if cls in ("OuterMarginArray",):
        n = int(arg[0])
        return R.OuterMarginArray(shape=(n,), side=arg[1]), "q" * n, "t" * (n - 1), n - 1
    if cls in SIDED[mod]:
        c = getattr(mo, cls)(side=arg[0])
        if cls == "CoincidentOutwardFaces":
            return c, "qq", "", None
        return (c, "qq", "", 1) if mod == "constructions" else (c, "qq", "t", 1)
    if cls == "RectilinearGrid":
        r, c = int(arg[0]), int(arg[1])
        return R.RectilinearGrid(shape=(r, c)), "q" * (r * c), "", None
    ks, ps, n = PAIRS[mod][cls]
    return getattr(mo, cls)(), ks, ps, n


def declared(c):
    return c.signature.value_size + sum(declared(k) for _, k in c.items())


def put(w, c, prims, params):
    """Add to a layout that holds the primitives."""
    lay = w.m.layout.Layout()
    for i, p in enumerate(prims):
        lay.add_prim(p, f"P{i}")
    keys = tuple(f"P{i}" for i in range(len(prims)))
    return lay.add_constraint(c, keys, tuple(params), "c"), lay


def honoured(w, c, ps, pa, n):
    v = c(ps, *pa)
    w.eq("one-dimensional", len(v.shape), 1)
    w.eq("declared number of values", v.shape[0], declared(c))
    if n is not None:
        w.eq("documented number of values", v.shape[0], n)
    own = c.assem_atleast_1d(ps, *pa)
    w.eq("own values", own.size, c.signature.value_size)
    _, lay = put(w, c, ps, pa)
    cs, ks, par = lay.flat_constraints()
    w.eq("every part has its primitives and parameters", [len(ks), len(par)], [len(cs)] * 2)
    res = w.m.solver.assem_constraint_residual(lay.root_prim, cs, ks, par)
    w.eq("values in the layout", sum(r.size for r in res), declared(c))


def accepted(w, na):
    c, ks, pk, n = subject(w, na)
    ps = tuple(prim(w, k, f"p{i}") for i, k in enumerate(ks))
    pa = tuple(param(w, k, f"a{i}") for i, k in enumerate(pk))
    w.feasible()
    honoured(w, c, ps, pa, n)


def both(w, label, c, ps, pa):
    w.raises(label + " (call)", lambda: c(tuple(ps), *pa), (Exception,))
    w.raises(label + " (layout)", lambda: put(w, c, ps, pa), (Exception,))


def wrong_count(w, na):
    c, ks, pk, _ = subject(w, na)
    ps = [prim(w, k, f"p{i}", True) for i, k in enumerate(ks)]
    pa = tuple(param(w, k, f"a{i}") for i, k in enumerate(pk))
    n = len(ks)
    m = w.choice("count", [i for i in range(n + 3) if i != n])
    if m < n:
        if m and w.bool("front"):
            ps = ps[n - m:]
        else:
            ps = ps[:m]
    else:
        extra = w.choice("extra", list("plqa") if not ks or w.tier != "quick" else [ks[-1], ks[0]])
        ps = ps + [prim(w, extra, f"x{i}", True) for i in range(m - n)]
    w.feasible()
    both(w, "wrong number of primitives", c, ps, pa)


def wrong_type(w, na):
    c, ks, pk, _ = subject(w, na)
    at = w.choice("at", list(range(len(ks)))) if len(ks) < 6 else w.choice("at", [0, len(ks) // 2, len(ks) - 1])
    kind = w.choice("kind", [k for k in "plqa45ns" if k != ks[at]])
    ps = [prim(w, k if i != at else kind, f"p{i}", True) for i, k in enumerate(ks)]
    pa = tuple(param(w, k, f"a{i}") for i, k in enumerate(pk))
    w.feasible()
    both(w, "wrong type of primitive", c, ps, pa)


def swapped(w, na):
    """The right types at the wrong places."""
    c, ks, pk, _ = subject(w, na)
    ps = [prim(w, k, f"p{i}", True) for i, k in enumerate(ks)][::-1]
    pa = tuple(param(w, k, f"a{i}") for i, k in enumerate(pk))
    w.feasible()
    both(w, "wrong order of primitives", c, ps, pa)


def wrong_params(w, na):
    c, ks, pk, _ = subject(w, na)
    ps = tuple(prim(w, k, f"p{i}", True) for i, k in enumerate(ks))
    pa = [param(w, k, f"a{i}") for i, k in enumerate(pk)]
    n = len(pk)
    m = w.choice("count", [i for i in range(n + 3) if i != n])
    extra = w.choice("extra", ["t", "n", "b"]) if m > n else "t"
    pa = pa[:m] + [param(w, extra, f"x{i}") for i in range(m - n)]
    w.feasible()
    both(w, "wrong number of parameters", c, ps, pa)


def inherited(w, na):
    """Primitives of a user's subclass are of the right type."""
    P = w.m.primitives
    c, ks, pk, n = subject(w, na)
    sub = {"p": P.Point, "l": P.Line, "q": P.Quadrilateral, "a": P.Axes}
    ps = []
    for i, k in enumerate(ks):
        p = prim(w, k, f"p{i}")
        t = type("User", (sub[k],), {})
        p.__class__ = t
        ps.append(p)
    pa = tuple(param(w, k, f"a{i}") for i, k in enumerate(pk))
    w.feasible()
    honoured(w, c, tuple(ps), pa, n)


def grid_params(w, r, c, how, every):
    R = w.m.constraints
    g = R.Grid(shape=(r, c))
    want = [c - 1, r - 1, c - 1, r - 1]
    lens = list(want)
    if every:
        lens = [w.choice(f"len{i}", list(range(n + 3))) for i, n in enumerate(want)]
    else:
        i, j = w.choice("which", [(i, j) for j in range(4) for i in range(j)])
        lens[i], lens[j] = (w.choice(f"len{k}", list(range(want[k] + 3))) for k in (i, j))
    if lens == want:
        ps = tuple(w.box(f"q{i}", nondeg=True) for i in range(r * c))
    else:
        ps = tuple(w.quad(f"q{i}") for i in range(r * c))
    pa = []
    for i, n in enumerate(lens):
        v = w.reals(f"a{i}", n)
        pa.append(w.arr(v) if how == "array" else (tuple(v) if how == "tuple" else list(v)))
    w.feasible()
    if lens == want:
        honoured(w, g, ps, tuple(pa), None)
    else:
        both(w, "wrong length of a grid parameter", g, ps, tuple(pa))


def grid_counts(w, r, c):
    g = w.m.constraints.Grid(shape=(r, c))
    n = r * c
    m = w.choice("count", [i for i in range(n + 3) if i != n])
    np_ = w.choice("params", [4, 3, 5])
    ps = tuple(w.quad(f"q{i}") for i in range(m))
    pa = [w.arr(w.reals(f"a{i}", k)) for i, k in enumerate([c - 1, r - 1, c - 1, r - 1, 1][:np_])]
    w.feasible()
    both(w, "wrong number of quadrilaterals", g, ps, pa)


def target(w, na):
    """Target vectors of the wrong length."""
    C = w.m.constructions
    if na == "Fix":
        c, ps, pa, n = w.m.constraints.Fix(), (w.point("p"),), (), 2
    else:
        a, ps, pa = operand(w, na, "a")
        c, n = C.transform_constraint(a), declared(a)
    m = w.choice("size", list(range(n + 4)))
    how = w.choice("how", ["array", "jax"])
    v = w.reals("v", m)
    v = w.arr(v) if how == "array" else w.jnp(v) if m else w.arr([])
    w.feasible()
    pa = tuple(pa) + (v,)
    if m == n:
        honoured(w, c, ps, pa, n)
    else:
        both(w, "wrong number of targets", c, ps, pa)


def transformed(w, na, how):
    C, P = w.m.constructions, w.m.primitives
    a, ps, pa = operand(w, na, "a")
    n = declared(a)
    if how == "neg":
        c = -a
    elif how == "sum":
        b, qs, qa = operand(w, na, "b")
        c, ps, pa = a + b, tuple(ps) + tuple(qs), tuple(pa) + tuple(qa)
    elif how == "scale":
        c = 2 * a
    elif how == "scalar":
        c, pa = a * C.Scalar(), tuple(pa) + (w.real("s"),)
    elif how == "divide":
        s = w.real("s")
        w.assume(s >= 1)
        c, pa = a / C.Scalar(), tuple(pa) + (s,)
    elif how == "power":
        c = a ** 2
    elif how == "constraint":
        c, pa = C.transform_constraint(a), tuple(pa) + (w.real("t"),)
    elif how == "map":
        k = len(ps) - 1
        b, qs, qa = operand(w, na, "b")
        types = [type(ps[0])] * 2 + [type(p) for p in ps[1:]]
        c, ps, pa, n = C.transform_map(a, types), (ps[0], qs[0]) + tuple(ps[1:]), tuple(pa) + tuple(qa), 2 * n
    mode = w.choice("mode", ["right", "prims", "params", "type"])
    w.feasible()
    if mode == "right":
        return honoured(w, c, tuple(ps), pa, n)
    if mode == "prims":
        k = w.choice("count", [i for i in range(len(ps) + 2) if i != len(ps)])
        ps = list(ps)[:k] + [ps[-1]] * (k - len(ps))
        return both(w, "wrong number of primitives", c, ps, pa)
    if mode == "params":
        k = w.choice("count", [i for i in range(len(pa) + 2) if i != len(pa)])
        return both(w, "wrong number of parameters", c, ps, (list(pa) + [w.real("x")])[:k])
    at = w.choice("at", list(range(len(ps))))
    bad = P.Polygon(prims=[w.point(f"z{i}") for i in range(5)])
    return both(w, "wrong type of primitive", c, [bad if i == at else p for i, p in enumerate(ps)], pa)


def _define(w, nkeys, kinds, prim_counts, nparams, declare):
    """A user's construction with the given (mis)matched argument lists."""
    C, P = w.m.constructions, w.m.primitives
    kids = {"L": C.Length, "D": C.XDistance, "S": C.DirectedLength}

    class User(C.CompoundConstruction):
        def __init__(self):
            super().__init__()

        @classmethod
        def init_children(cls):
            args = [("arg0", "arg1", "arg2", "arg3")[:k] if kind == "L" or kind == "S"
                    else ("arg0/Point0", "arg0/Point1", "arg1/Point0", "arg1/Point1")[:k]
                    for kind, k in zip(kinds + "L" * 9, prim_counts)]

            def child_params(params):
                return tuple(((params[0],) if k == "S" else ()) for k in (kinds + "L" * 9)[:nparams])
            return (tuple(f"K{i}" for i in range(nkeys)), tuple(kids[k]() for k in kinds), tuple(args), child_params)

        @classmethod
        def init_signature(cls):
            return C.ConstructionSignature((P.Line, P.Line), (np.ndarray,), declare)

    return User


def define(w, kinds, vary):
    n = len(kinds)
    good = [2 if k == "D" else 1 for k in kinds]
    nkeys, counts, nparams = n, list(good), n
    if vary == "keys":
        nkeys = w.choice("keys", list(range(5)))
    elif vary == "lists":
        counts = (good + [1] * 5)[:w.choice("lists", list(range(5)))]
    elif vary == "args":
        counts = [w.choice(f"args{i}", list(range(5))) for i in range(n)]
    elif vary == "params":
        nparams = w.choice("params", list(range(n + 1)))
    User = _define(w, nkeys, kinds, counts, nparams, 0)
    ps, pa = (w.line("l"), w.line("k")), (w.vec("n"),)
    w.feasible()
    if nkeys == n and counts == good and nparams == n:
        c = User()
        w.eq("children", len(c), n)
        return honoured(w, c, ps, pa, n)
    if vary == "params":
        # only seen when the construction is used
        c = User()
        return both(w, "too few child parameters", c, ps, pa)
    w.raises("mismatched definition", User, (Exception,))


def node(w, kinds, vary):
    """The same through the general constructor."""
    C, P = w.m.constructions, w.m.primitives
    kids = {"L": C.Length, "D": C.XDistance}
    n = len(kinds)
    good = [2 if k == "D" else 1 for k in kinds]
    counts = [w.choice(f"args{i}", list(range(4))) for i in range(n)] if vary == "args" else good
    m = w.choice("lists", list(range(n + 2))) if vary == "lists" else n
    args = tuple((("arg0", "arg1", "arg0") if k == "L" else ("arg0/Point0", "arg0/Point1", "arg1/Point0"))[:j]
                 for k, j in zip(kinds + "L", (counts + [1])[:m]))
    what = w.choice("what", ["value", "callable", "child", "signature", "none"]) if vary == "kinds" else "none"
    value = C.ConstructionValue(
        args, (lambda params: ((),) * n) if what != "callable" else ((),) * n,
        C.ConstructionSignature((P.Line, P.Line), (), 0) if what != "signature" else ((P.Line, P.Line), (), 0))
    if what == "value":
        value = tuple(value)
    children = {f"K{i}": kids[k]() for i, k in enumerate(kinds)}
    if what == "child":
        children["K0"] = w.m.primitives.Line()
    fn = lambda: C.ConstructionNode(value, children)
    if what == "none" and counts == good and m == n:
        c = fn()
        w.eq("children", list(c.keys()), [f"K{i}" for i in range(n)])
    else:
        w.raises("mismatched definition", fn, (Exception,))


def names(tier):
    out = [f"{mod} {k}" for mod in PAIRS for k in PAIRS[mod]]
    for mod in SIDED:
        out += [f"{mod} {k} {s}" for k in SIDED[mod] for s in SIDES]
    n = 4 if tier == "quick" else 6
    out += [f"constraints OuterMarginArray {k} {s}" for k in range(1, n + 1) for s in SIDES]
    grids = [(1, 1), (1, 3), (2, 2), (3, 2)] + ([(2, 3), (3, 3), (4, 1), (4, 4), (1, 5)] if tier != "quick" else [])
    out += [f"constraints RectilinearGrid {r} {c}" for r, c in grids]
    return out


def kinds(na):
    mod, cls, *arg = na.split()
    if cls == "OuterMarginArray":
        return "q" * int(arg[0])
    if cls in SIDED[mod]:
        return "qq"
    if cls == "RectilinearGrid":
        return "q" * (int(arg[0]) * int(arg[1]))
    return PAIRS[mod][cls][0]


def cases(tier):
    cs = []
    for na in names(tier):
        ks = kinds(na)
        cs.append(Case(f"accepted {na}", accepted, na=na))
        if tier == "quick" and na.split()[-1] in SIDES[1:]:
            continue
        cs.append(Case(f"primitive count {na}", wrong_count, na=na))
        cs.append(Case(f"parameter count {na}", wrong_params, na=na))
        if ks:
            cs.append(Case(f"primitive types {na}", wrong_type, na=na))
            cs.append(Case(f"subclasses {na}", inherited, na=na))
        if len(set(ks)) > 1:
            cs.append(Case(f"primitive order {na}", swapped, na=na))
    shapes = [(1, 1), (2, 2), (1, 3), (3, 1)] + ([(2, 3), (3, 3)] if tier != "quick" else [])
    for r, c in shapes:
        for how in ("array", "list", "tuple") if (r, c) == (2, 2) or tier != "quick" else ("array",):
            cs.append(Case(f"grid parameters {r}x{c} {how}", grid_params, r=r, c=c, how=how, every=False))
        if tier != "quick":
            cs.append(Case(f"every grid parameter {r}x{c}", grid_params, max_paths=20000, r=r, c=c, how="array", every=True))
        cs.append(Case(f"grid counts {r}x{c}", grid_counts, r=r, c=c))
    for na in ("Fix", "Coordinate", "Width", "Margin", "Map", "Inner", "Outer", "Swapped", "Rooted", "Deep"):
        cs.append(Case(f"targets {na}", target, na=na))
    for na in OPERANDS:
        if na == "Crossed":      # takes primitives of any type
            continue
        for how in ("neg", "sum", "scale", "scalar", "divide", "power", "constraint", "map"):
            cs.append(Case(f"transformed {na} {how}", transformed, na=na, how=how))
    for ks in ("L", "D", "LD", "DL", "LS", "SLD"):
        for vary in ("keys", "lists", "args", "params"):
            cs.append(Case(f"definition {ks} {vary}", define, kinds=ks, vary=vary))
    for ks in ("L", "D", "LD", "DLL"):
        for vary in ("args", "lists", "kinds"):
            cs.append(Case(f"node {ks} {vary}", node, kinds=ks, vary=vary))
    return cs
