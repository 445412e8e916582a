"""C08: compound constraints evaluate their parts on the addressed sub-primitives."""
import numpy as np
from props.shapes import OPERANDS, operand
from vx.run import Case

BOUNDS = ("user-defined and library constructions up to depth 4 with 1 to 14 primitives; every primitive name of 1 to 16 "
          "printable characters without '/' (up to 4 primitives symbolic, template-like names 'argN' permuted for more), "
          "placed at nesting depth 1 to 4; all real coordinates and parameters")


def _lib(w, na):
    """Library constraints: (constraint, prims, params)."""
    cr, P = w.m.constraints, w.m.primitives
    q = lambda k: w.quad(k)
    if na == "Box":
        return cr.Box(), (q("a"),), ()
    if na == "Width":
        return cr.Width(), (q("a"),), (w.real("t"),)
    if na == "AspectRatio":
        a = q("a")
        w.nondegenerate(a["Line0"])
        w.nondegenerate(a["Line1"])
        return cr.AspectRatio(), (a,), (w.real("t"),)
    if na == "RelativeLength":
        return cr.RelativeLength(), (w.line("a"), w.line("b")), (w.real("t"),)
    if na.startswith("OuterMargin"):
        return cr.OuterMargin(side=na.split()[1]), (q("a"), q("b")), (w.real("t"),)
    if na.startswith("InnerMargin"):
        return cr.InnerMargin(side=na.split()[1]), (q("a"), q("b")), (w.real("t"),)
    if na == "AlignRow":
        return cr.AlignRow(), (q("a"), q("b")), ()
    if na == "AlignColumn":
        return cr.AlignColumn(), (q("a"), q("b")), ()
    if na.startswith("Outward"):
        return cr.CoincidentOutwardFaces(side=na.split()[1]), (q("a"), q("b")), ()
    if na.startswith("Margins"):
        n, side = int(na.split()[1]), na.split()[2]
        return cr.OuterMarginArray(shape=(n,), side=side), tuple(q(f"q{i}") for i in range(n)), tuple(w.reals("t", n - 1))
    if na.startswith("Rectilinear"):
        nr, nc = map(int, na.split()[1].split("x"))
        return cr.RectilinearGrid(shape=(nr, nc)), tuple(q(f"q{i}") for i in range(nr * nc)), ()
    if na.startswith("Grid"):
        nr, nc = map(int, na.split()[1].split("x"))
        return (cr.Grid(shape=(nr, nc)), tuple(q(f"q{i}") for i in range(nr * nc)),
                (w.arr(w.reals("cw", nc - 1)), w.arr(w.reals("rh", nr - 1)),
                 w.arr(w.reals("cm", nc - 1)), w.arr(w.reals("rm", nr - 1))))
    if na.startswith("BigMap"):
        C = w.m.constructions
        n = int(na.split()[1])
        args = [(w.vec(f"n{i}"),) for i in range(n)]
        return (C.transform_map(C.DirectedDistance(), [P.Point] * (n + 1)),
                tuple(w.point(f"p{i}") for i in range(n + 1)), tuple(x for a in args for x in a))
    return operand(w, na, "a")


LIB = ["Box", "AspectRatio", "RelativeLength", "OuterMargin left", "OuterMargin top", "InnerMargin right",
       "InnerMargin bottom", "AlignRow", "AlignColumn", "Margins 3 right"]
BIG = ["Rectilinear 3x4", "Rectilinear 4x3", "Grid 3x4", "Grid 1x12", "Grid 12x1", "BigMap 13", "Margins 12 bottom",
       "Margins 13 right"]
MORE_BIG = ["Rectilinear 2x12", "Rectilinear 12x2", "Grid 4x4", "Grid 2x11", "BigMap 25"]


def _place(w, layout, prims, names, depth):
    """Add the primitives at the given depth and return their keys."""
    P = w.m.primitives
    keys = []
    for i, (p, n) in enumerate(zip(prims, names)):
        d = depth if depth < 9 else i % 4
        path = n
        node = p
        for k in range(d):
            inner = ("g", "arg0", "Line0")[k % 3]
            node = P.PrimitiveNode.from_tree(np.array([]), {"x": w.point(f"x{i}_{k}"), inner: node})
            path = path + "/" + inner if k == 0 else path
        # the keys run from the outermost group inwards
        path = n
        for k in reversed(range(d)):
            path = path + "/" + ("g", "arg0", "Line0")[k % 3]
        layout.add_prim(node, n)
        keys.append(path)
    return tuple(keys)


def _walk(prim, path):
    for k in path:
        prim = dict(prim.items())[k]
    return prim


def evaluate(c, prims, params):
    """The documented meaning of a construction tree, by the documented 'argN/child' keys."""
    own = c.assem(prims, *params)
    out = list(own) if np.ndim(own) else [own]
    for (_, child), keys, par in zip(c.items(), c.value.child_prim_keys, c.value.child_params(params)):
        sub = tuple(_walk(prims[int(k.split("/")[0][3:])], k.split("/")[1:]) for k in keys)
        out += evaluate(child, sub, par)
    return out


def _check(w, layout, ck, c, prims, params, keys):
    cn = w.m.containers
    direct = list(c(prims, *params))
    w.eq("direct call", direct, evaluate(c, prims, tuple(params)))
    got = c.assem_from_tree(layout.root_prim, layout.root_prim_keys[ck], layout.root_param[ck])
    w.eq("through the stored trees", list(got), direct)
    flat = [list(x) for x in (cn.iter_flat("", layout.root_constraint), cn.iter_flat("", layout.root_prim_keys),
                              cn.iter_flat("", layout.root_param))]
    w.eq("keys one-to-one", len({len(x) for x in flat}), 1)
    for a, b, d in zip(*flat):
        w.eq("same path", b[0], a[0])
        w.eq("same path", d[0], a[0])
    cs, ks, ps = layout.flat_constraints()
    w.eq("flat lists one-to-one", [len(ks), len(ps)], [len(cs), len(cs)])
    for (_, node), k, p in zip(flat[0][1:], ks, ps):
        w.eq("primitive count", len(k), len(node.signature.prim_types))
        w.eq("parameter count", len(tuple(p)), len(node.signature.param_types))
        for key, t in zip(k, node.signature.prim_types):
            w.true("primitive type", isinstance(layout.root_prim[key], t))
    res = w.m.solver.assem_constraint_residual(layout.root_prim, cs, ks, ps)
    w.eq("flattened residual", [x for r in res for x in r], direct)


def route(w, na, depth):
    c, p, a = _lib(w, na)
    names = [w.string(f"name{i}", 1, 16) for i in range(len(p))]
    w.distinct(*names)
    layout = w.m.layout.Layout()
    keys = _place(w, layout, p, names, depth)
    ck = w.string("ck", 1, 12)
    layout.add_constraint(c, keys, a, ck)
    w.feasible()
    _check(w, layout, ck, c, p, a, keys)


def route_same(w, na):
    """The same primitive for several arguments."""
    c, p, a = _lib(w, na)
    p = (p[0],) * len(p) if len({type(x) for x in p}) == 1 else p[:2] + (p[1],) * (len(p) - 2)
    name = w.string("name0", 1, 16), w.string("name1", 1, 16)
    w.distinct(*name)
    layout = w.m.layout.Layout()
    layout.add_prim(p[0], name[0])
    layout.add_prim(p[1], name[1])
    keys = tuple(name[0] if q is p[0] else name[1] for q in p)
    layout.add_constraint(c, keys, a, "c")
    _check(w, layout, "c", c, p, a, keys)


def part(w, na):
    """Arguments that are parts of other primitives, in any order."""
    c, p, a = _lib(w, na)
    P = w.m.primitives
    layout = w.m.layout.Layout()
    n0, n1 = w.string("name0", 1, 16), w.string("name1", 1, 16)
    w.distinct(n0, n1)
    layout.add_prim(P.Axes(prims=(p[0],)), n0)
    layout.add_prim(P.PrimitiveNode.from_tree(np.array([]), {"Line0": p[1], "Frame": w.point("y")}), n1)
    keys = (n0 + "/Frame", n1 + "/Line0")
    layout.add_constraint(c, keys, a, "c")
    _check(w, layout, "c", c, p, a, keys)
    layout.add_constraint(c, keys[::-1], a, "d")
    w.eq("reversed arguments", list(c.assem_from_tree(layout.root_prim, layout.root_prim_keys["d"], layout.root_param["d"])),
         list(c(p[::-1], *a)))


def template_names(w, na, shift):
    """Names that look like argument templates, permuted."""
    c, p, a = _lib(w, na)
    n = len(p)
    names = [f"arg{(shift * i + 1) % n}" for i in range(n)] if shift else [f"arg{n - 1 - i}" for i in range(n)]
    layout = w.m.layout.Layout()
    keys = _place(w, layout, p, names, 9)
    layout.add_constraint(c, keys, a, "c")
    _check(w, layout, "c", c, p, a, keys)


def cases(tier):
    th = tier == "thorough"
    out = []
    for na in list(OPERANDS) + LIB:
        for depth in (0, 2, 9) if th else ((0,) if na in LIB else (0, 9)):
            out.append(Case(f"route {na} {depth}", route, na=na, depth=depth))
    for na in ("DirectedDistance", "Margin", "Swapped", "Outer", "Deep", "OuterMargin left", "AlignRow", "RelativeLength"):
        out.append(Case(f"same {na}", route_same, na=na))
    for na in ("Margin", "OuterMargin left", "InnerMargin bottom", "AlignRow"):
        out.append(Case(f"part {na}", part, na=na))
    for na in BIG + (MORE_BIG if th else []):
        out.append(Case(f"template names {na}", template_names, witness=1, na=na, shift=1 if "2" in na else 0))
    for na in ("Outer", "Deep", "Swapped", "Margin", "Map"):
        out.append(Case(f"template names {na}", template_names, na=na, shift=0))
        out.append(Case(f"template rotated {na}", template_names, na=na, shift=1))
    return out
