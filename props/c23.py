"""C23: the documented workflow: a solved layout becomes the requested figure, and following the drawn axis keeps it so."""
from vx.mpl import Mpl
from vx.run import Case

BOUNDS = ("figures of 1..20 in with 1 or 2 axes in a row, with and without x and y axis boxes on every side, margins of 0..3 in, "
          "frames of 0.25..10 in, tick areas of 0..2 in; default starting primitives and arbitrary starting coordinates")
ASSUMPTIONS = ["as in C13 (least-squares kernel), C15 (recording model of matplotlib) and C17 (drawn extents)"]


def prim(w, kind, name, start, **k):
    """A primitive in its default place or at arbitrary starting coordinates."""
    P = w.m.primitives
    if start == "default":
        return P.Quadrilateral() if kind == "quad" else P.Axes(**k)
    pts = lambda n: P.Quadrilateral(None, [P.Point(w.vec(f"{name}{n}{i}")) for i in range(4)])
    if kind == "quad":
        return pts("q")
    parts = [pts("f")]
    for a in ("xaxis", "yaxis"):
        if k.get(a):
            parts += [pts(a), P.Point(w.vec(f"{name}{a}l"))]
    return P.Axes(prims=tuple(parts), **k)


def workflow(w, start, axis, order="a", fixed=True, refresh=1):
    """axis: per axes (x side or None, y side or None)."""
    mpl = Mpl(w)
    C, T = w.m.constraints, w.m.matplotlibutils
    n = len(axis)
    names = [f"Axes{'BAC'[i]}" for i in range(n)]
    lay = w.m.layout.Layout()

    def real(name, lo, hi):
        return w.real(name, lo=lo, hi=hi)
    W, H = real("W", 1, 20), real("H", 1, 20)
    org = w.vec("org")
    ml, mr, mb, mt = [real("m" + s, 0, 3) for s in "lrbt"]
    gap = [real(f"gap{i}", 0, 3) for i in range(n - 1)]
    wid = [real(f"wid{i}", 0.25, 10) for i in range(n - 1)]

    prims = [("Figure", prim(w, "quad", "F", start))]
    prims += [(k, prim(w, "axes", k, start, xaxis=x is not None, yaxis=y is not None)) for k, (x, y) in zip(names, axis)]
    if order == "b":
        prims = prims[::-1]
    for k, p in prims:
        lay.add_prim(p, k)

    cons = [(C.Box(), ("Figure",), ()), (C.Width(), ("Figure",), (W,)), (C.Height(), ("Figure",), (H,))]
    if fixed:
        cons.append((C.Fix(), ("Figure/Line0/Point0",), (w.arr(org),)))
    # outermost boxes of each axes, by side
    out = []
    for k, (x, y) in zip(names, axis):
        o = {s: k + "/Frame" for s in ("left", "right", "bottom", "top")}
        cons.append((C.Box(), (k + "/Frame",), ()))
        if x:
            o[x] = k + "/XAxis"
            cons += [(C.Box(), (k + "/XAxis",), ()), (C.PositionXAxis(side=x), (k,), ()),
                     (C.XAxisThickness(), (k + "/XAxis",), (None,))]
        if y:
            o[y] = k + "/YAxis"
            cons += [(C.YAxisThickness(), (k + "/YAxis",), (None,)), (C.Box(), (k + "/YAxis",), ()),
                     (C.PositionYAxis(side=y), (k,), ())]
        out.append(o)
        cons += [(C.InnerMargin(side="bottom"), (o["bottom"], "Figure"), (mb,)),
                 (C.InnerMargin(side="top"), (o["top"], "Figure"), (mt,))]
    cons += [(C.InnerMargin(side="left"), (out[0]["left"], "Figure"), (ml,)),
             (C.InnerMargin(side="right"), (out[-1]["right"], "Figure"), (mr,))]
    for i in range(n - 1):
        cons += [(C.Width(), (names[i] + "/Frame",), (wid[i],)),
                 (C.OuterMargin(side="right"), (out[i]["right"], out[i + 1]["left"]), (gap[i],))]
    if order == "b":
        cons = cons[::-1]
    for c in cons:
        lay.add_constraint(*c)

    def rects(t):
        """Frames in inches from the figure's corner when the axis have the thicknesses t."""
        res, x = [], ml
        for i, (ax, ay) in enumerate(axis):
            tx, ty = t[i]
            lo = mb + (tx if ax == "bottom" else 0)
            hi = H - mt - (tx if ax == "top" else 0)
            l = x + (ty if ay == "left" else 0)
            r = l + wid[i] if i < n - 1 else W - mr - (ty if ay == "right" else 0)
            res.append([l, lo, r, hi])
            if i < n - 1:
                x = r + (ty if ay == "right" else 0) + gap[i]
        return res
    thick = [(real(f"tx{i}", 0, 2) if x else 0, real(f"ty{i}", 0, 2) if y else 0) for i, (x, y) in enumerate(axis)]
    plain = rects([(0, 0)] * n)
    final = rects(thick)
    for r in plain + final:
        w.assume(r[2] - r[0] >= 0.25)
        w.assume(r[3] - r[1] >= 0.25)

    def check(what, fig, axs, want):
        w.eq(what + ": axes", list(axs.keys()), [k for k, _ in prims if k != "Figure"])
        w.eq(what + ": figure size", mpl.size(fig), [W, H])
        for k, r, (x, y) in zip(names, want, axis):
            w.eq(what + ": axes rectangle", mpl.rect_inches(fig, axs[k]), r)
            if x:
                w.eq(what + ": x ticks", axs[k].xaxis.get_ticks_position(), x)
            if y:
                w.eq(what + ": y ticks", axs[k].yaxis.get_ticks_position(), y)

    sol, info = w.m.solver.solve(lay)
    if fixed:
        w.eq("figure corner", list(sol["Figure/Line0/Point0"].value), org)
    fig, axs = T.subplots(sol)
    check("first", fig, axs, plain)

    # what is drawn sticks out of wherever the axes are at that moment
    dpi = fig.get_dpi()
    for i, (k, (x, y)) in enumerate(zip(names, axis)):
        for m, a, s in ((0, axs[k].xaxis, x), (1, axs[k].yaxis, y)):
            def f(ax=axs[k], s=s, i=i, m=m):
                t = thick[i][m]
                b = mpl.rect_inches(fig, ax)
                j = ("left", "bottom", "right", "top").index(s)
                b[j] = b[j] - t if j < 2 else b[j] + t
                return [v * dpi for v in b]
            if s:
                mpl.set_tight(a, f)
    for i in range(refresh):
        if i == 2:
            # drawn differently from now on (other tick labels, say)
            thick[:] = [(real(f"ux{j}", 0, 2) if x else 0, real(f"uy{j}", 0, 2) if y else 0) for j, (x, y) in enumerate(axis)]
            final = rects(thick)
            for r in final:
                w.assume(r[2] - r[0] >= 0.25)
                w.assume(r[3] - r[1] >= 0.25)
        lay = w.m.layout.update_layout_constraints(lay, axs)
        sol, info = w.m.solver.solve(lay)
        fig2, axs2 = T.update_subplots(sol, "Figure", fig, axs)
        w.true("same figure and axes", fig2 is fig and all(axs2[k] is axs[k] for k in names))
        check("followed", fig, axs, final)


def cases(tier):
    B, Tp, L, R = "bottom", "top", "left", "right"
    out = []
    one = [(None, None), (B, None), (Tp, None), (None, L), (None, R), (B, L), (Tp, R)]
    for a in one:
        out.append(Case(f"one axes {a} default", workflow, start="default", axis=(a,), fixed=a != (B, L)))
    out.append(Case("one axes any", workflow, start="any", axis=((None, None),)))
    out.append(Case("one axes reversed", workflow, start="default", axis=((B, L),), order="b"))
    out.append(Case("one axes followed twice", workflow, start="default", axis=((Tp, L),), refresh=2))
    out.append(Case("one axes redrawn", workflow, start="default", axis=((B, R),), refresh=3))
    two = [((B, None), (Tp, None)), ((None, R), (None, L)), ((None, None), (B, L))]
    for a in two:
        out.append(Case(f"two axes {a}", workflow, start="default", axis=a))
    if tier == "thorough":
        for a in two + [((B, L), (B, R))]:
            for o in "ab":
                out.append(Case(f"two axes any {a} {o}", workflow, start="any", axis=a, order=o, refresh=2))
        for a in one:
            out.append(Case(f"one axes any {a}", workflow, start="any", axis=(a,), order="b"))
            out.append(Case(f"one axes free {a}", workflow, start="any", axis=(a,), fixed=False, order="b", refresh=2))
    return out
