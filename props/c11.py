"""C11: solving unknowns follow primitive identity and keep the tree intact."""
import numpy as np
from vx.run import Case

BOUNDS = ("trees of points, lines, polygons (3 to 13 corners), quadrilaterals, axes and groups up to depth 8 with up to 26 "
          "distinct points, shared in the ways a user can share them; all real old and new coordinates; user names of 1 "
          "to 12 characters; one and two consecutive Newton solves")


def _tree(w, kind):
    """Return (root, points): the tree and its distinct Point objects by identity."""
    P = w.m.primitives
    G = lambda **k: P.PrimitiveNode(np.array([]), k)
    n = [0]

    def pt():
        n[0] += 1
        return P.Point(w.vec(f"p{n[0]}"))
    if kind == "point":
        return G(A=pt())
    if kind == "line":
        return G(A=P.Line(prims=(pt(), pt())))
    if kind == "loop":
        a = pt()
        return G(A=P.Line(prims=(a, a)))
    if kind == "path":
        a, b, c = pt(), pt(), pt()
        return G(A=P.Line(prims=(a, b)), B=P.Line(prims=(b, c)), C=P.Line(prims=(c, b)))
    if kind.startswith("polygon"):
        k = int(kind[7:])
        return G(A=P.Polygon(prims=[pt() for _ in range(k)]))
    if kind == "two quads":
        return G(A=P.Quadrilateral(None, [pt() for _ in range(4)]), B=P.Quadrilateral(None, [pt() for _ in range(4)]))
    if kind == "corner":
        ps = [pt() for _ in range(4)]
        return G(L=P.Line(prims=(pt(), ps[2])), A=P.Quadrilateral(None, ps), B=P.Polygon(prims=[ps[2], ps[1], pt()]))
    if kind == "point first":
        a, b = pt(), pt()
        return G(P=a, Q=b, A=P.Line(prims=(b, a)))
    if kind == "twice":
        a = pt()
        l = P.Line(prims=(a, pt()))
        return G(A=l, B=l, C=a, D=l["Point1"])
    if kind == "axes":
        return G(A=P.Axes(prims=(P.Quadrilateral(None, [pt() for _ in range(4)]),
                                 P.Quadrilateral(None, [pt() for _ in range(4)]), pt(),
                                 P.Quadrilateral(None, [pt() for _ in range(4)]), pt()), xaxis=True, yaxis=True),
                 F=P.Quadrilateral(None, [pt() for _ in range(4)]))
    if kind == "shared frame":
        q = P.Quadrilateral(None, [pt() for _ in range(4)])
        return G(Figure=q, A=P.Axes(prims=(q,)), B=P.Axes(prims=(P.Quadrilateral(None, [pt(), q["Line1/Point0"], pt(), pt()]),)))
    if kind == "groups":
        a, b, c = pt(), pt(), pt()
        inner = G(x=a, y=P.Line(prims=(a, b)))
        return G(one=G(deep=inner, other=c), two=G(again=inner, last=P.Polygon(prims=[b, c, pt()])), three=pt())
    if kind == "deep axes":
        q = P.Quadrilateral(None, [pt() for _ in range(4)])
        ax = P.Axes(prims=(P.Quadrilateral(None, [pt(), q["Line0/Point1"], q["Line3/Point0"], pt()]), q, pt()), xaxis=True)
        return G(a=G(b=G(c=G(d=G(e=ax)), q=q)), z=q["Line3"], y=ax["Frame/Line3/Point1"])
    if kind == "empty group":
        return G(a=G(), b=pt(), c=G(d=G()))
    raise KeyError(kind)


NEVER = {"abs_tol": -1.0, "rel_tol": -1.0}
KINDS = ("point", "line", "loop", "path", "polygon3", "polygon5", "polygon13", "two quads", "corner", "point first",
         "twice", "axes", "shared frame", "groups", "deep axes", "empty group")


def _nodes(w, root):
    return list(w.m.containers.iter_flat("", root))


def _points(w, root):
    """Distinct Point objects in order of first occurrence, and all occurrences."""
    order, occ = [], []
    for path, node in _nodes(w, root):
        if type(node) is w.m.primitives.Point:
            i = next((j for j, q in enumerate(order) if q is node), None)
            if i is None:
                order.append(node)
                i = len(order) - 1
            occ.append((path, i))
    return order, occ


def _rebuild(w, root, occ, npts, tag="new"):
    pr, cn = w.m.primitives, w.m.containers
    graph, values = pr.filter_unique_values_from_prim(root)
    w.eq("one entry per place", sorted(graph.keys()), sorted(p for p, _ in _nodes(w, root)))
    w.eq("two unknowns per point", sum(int(np.size(v)) for v in values), 2 * npts)
    # same unknowns exactly for the same point
    for a, i in occ:
        for b, j in occ:
            w.eq("shared exactly when identical", graph[a] == graph[b], i == j)
    for path, i in occ:
        w.same("value at its index", list(values[graph[path]]), list(root[path[1:]].value))
    fresh = [w.arr(w.reals(f"{tag}{i}_", int(np.size(v)))) for i, v in enumerate(values)]
    new = pr.build_prim_from_unique_values(cn.flatten("", root), graph, fresh)
    return graph, fresh, new


def rebuild(w, kind):
    root = _tree(w, kind)
    pts, occ = _points(w, root)
    before = [(k, n, type(n), n.value, list(np.asarray(n.value)), n.keys()) for k, n in _nodes(w, root)]
    graph, fresh, new = _rebuild(w, root, occ, len(pts))
    after = _nodes(w, root)
    w.eq("original has the same nodes", len(after), len(before))
    for (k, n, t, v, xs, ck), (k2, n2) in zip(before, after):
        w.true("original node", n is n2 and n2.value is v and k == k2)
        w.eq("original keys", n2.keys(), ck)
        w.same("original value", list(n2.value), xs)
    got = _nodes(w, new)
    w.eq("same number of nodes", len(got), len(before))
    for (k, n, t, v, xs, ck), (k2, n2) in zip(before, got):
        w.eq("path", k2, k)
        w.true("type", type(n2) is t)
        w.eq("child order", n2.keys(), ck)
        w.same("new value", list(n2.value), list(fresh[graph[k]]))
    # the rebuilt tree is still shared in the same way
    g2, v2 = w.m.primitives.filter_unique_values_from_prim(new)
    w.eq("unknowns of the rebuilt tree", sum(int(np.size(v)) for v in v2), 2 * len(pts))
    for a, i in occ:
        for b, j in occ:
            w.eq("still shared", g2[a] == g2[b], i == j)


def named(w, n):
    """Arbitrary user names."""
    P = w.m.primitives
    names = [w.string(f"k{i}", 1, 12) for i in range(n)]
    w.distinct(*names)
    a = w.point("p0")
    root = P.PrimitiveNode(np.array([]), {})
    for i, k in enumerate(names):
        root.add_child(k, a if i == 0 else P.Line(prims=(a, w.point(f"p{i}"))))
    graph, values = w.m.primitives.filter_unique_values_from_prim(root)
    w.eq("unknowns", sum(int(np.size(v)) for v in values), 2 * n)
    fresh = [w.arr(w.reals(f"n{i}_", int(np.size(v)))) for i, v in enumerate(values)]
    new = w.m.primitives.build_prim_from_unique_values(w.m.containers.flatten("", root), graph, fresh)
    w.eq("names", new.keys(), names)
    first = new[names[0]].value
    for k in names[1:]:
        w.same("shared start", list(new[k + "/Point0"].value), list(first))
    ends = [new[k + "/Point1"].value for k in names[1:]]
    for i, k in enumerate(names[1:]):
        w.same("own end", list(ends[i]), list(fresh[graph["/" + k + "/Point1"]]))


def independent(w, how):
    """Independently created points, even from the same numbers or the same array."""
    P = w.m.primitives
    xs = w.reals("x", 2)
    if how == "list":
        src = list(xs)
        pts = [P.Point(src), P.Point(src), P.Point(tuple(src))]
    elif how == "array":
        src = w.arr(xs)
        pts = [P.Point(src), P.Point(src)]
    elif how == "value":
        a = P.Point(w.arr(xs))
        pts = [a, P.Point(a.value), P.Point(value=a.value)]
    elif how == "default":
        pts = [P.Point(), P.Point(), P.Line()["Point0"], P.Line()["Point0"], P.Line()["Point1"]]
    elif how == "views":
        src = w.arr(xs + xs, (2, 2))
        pts = [P.Point(src[0]), P.Point(src[1]), P.Point(src[0])]
    elif how == "default quads":
        qa, qb = P.Quadrilateral(), P.Quadrilateral()
        pts = [q[f"Line{i}/Point0"] for q in (qa, qb) for i in range(4)]
    elif how == "default polygons":
        qa, qb = P.Polygon(size=5), P.Polygon(size=5)
        pts = [q[f"Line{i}/Point0"] for q in (qa, qb) for i in range(5)]
    elif how == "default axes":
        a = P.Axes(xaxis=True, yaxis=True, twinx=True, twiny=True)
        b = P.Axes(xaxis=True)
        pts = []
        for ax in (a, b):
            for k, c in ax.items():
                pts += [c] if type(c) is P.Point else [c[f"Line{i}/Point0"] for i in range(4)]
    root = P.PrimitiveNode(np.array([]), {f"k{i}": p for i, p in enumerate(pts)})
    graph, values = P.filter_unique_values_from_prim(root)
    w.eq("independent unknowns", sum(int(np.size(v)) for v in values), 2 * len(pts))
    for i in range(len(pts)):
        for j in range(i):
            w.true("own index", graph[f"/k{i}"] != graph[f"/k{j}"])
    if how in ("array", "list", "value", "views"):
        cr = w.m.constraints
        layout = w.m.layout.Layout()
        for i, p in enumerate(pts):
            layout.add_prim(p, f"k{i}")
        t = [w.vec(f"t{i}") for i in range(len(pts))]
        for i in range(len(pts)):
            layout.add_constraint(cr.Fix(), (f"k{i}",), (t[i],))
        sol, _ = w.m.solver.solve(layout)
        for i in range(len(pts)):
            w.eq("solved independently", list(sol[f"k{i}"].value), list(t[i]))


def moved(w, kind, again):
    """Fixing one occurrence of each point moves every occurrence."""
    root = _tree(w, kind)
    pts, occ = _points(w, root)
    old = [(k, type(n), n.value, list(n.value), n.keys()) for k, n in _nodes(w, root)]
    layout = w.m.layout.Layout(root)
    last = {i: path for path, i in occ}
    moves = [i for i in range(len(pts)) if i % 3 != 1]
    t = {i: w.vec(f"t{i}") for i in moves}
    for i in moves:
        layout.add_constraint(w.m.constraints.Fix(), (last[i][1:],), (t[i],))
    # (a start that is not already the solution, so that the error report does not split the path)
    w.assume(t[moves[0]][0] > pts[moves[0]].value[0] + 1)
    sol, _ = w.m.solver.solve(layout, max_iter=1, **NEVER)
    for path, i in occ:
        w.eq("every place", list(sol[path[1:]].value), list(t[i]) if i in t else list(pts[i].value))
    for (k, ty, v, xs, ck), (k2, n2) in zip(old, _nodes(w, sol)):
        w.eq("path", k2, k)
        w.true("type", type(n2) is ty)
        w.eq("child order", n2.keys(), ck)
    for (k, ty, v, xs, ck), (k2, n2) in zip(old, _nodes(w, root)):
        w.true("input tree kept", n2.value is v)
        w.same("input value kept", list(n2.value), xs)
    if again:
        second = w.m.layout.Layout(sol)
        first = {}
        for path, i in occ:
            first.setdefault(i, path)
        s = {i: w.vec(f"s{i}") for i in moves}
        for i in moves:
            second.add_constraint(w.m.constraints.Fix(), (first[i][1:],), (s[i],))
        w.assume(s[moves[0]][0] > t[moves[0]][0] + 1)
        sol2, _ = w.m.solver.solve(second, max_iter=1, **NEVER)
        for path, i in occ:
            w.eq("every place again", list(sol2[path[1:]].value), list(s[i]) if i in s else list(pts[i].value))


def cases(tier):
    th = tier == "thorough"
    out = [Case(f"rebuild {k}", rebuild, witness=1, kind=k) for k in KINDS]
    for n in (2, 3) + ((4,) if th else ()):
        out.append(Case(f"named {n}", named, n=n))
    for h in ("list", "array", "value", "views", "default", "default quads", "default polygons", "default axes"):
        out.append(Case(f"independent {h}", independent, how=h))
    for k in KINDS:
        out.append(Case(f"moved {k}", moved, witness=1, kind=k,
                        again=th or k not in ("axes", "polygon13")))
    return out
