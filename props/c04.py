"""C04: axes constraints place axes, labels and thicknesses as documented."""
from vx.mpl import Mpl
from vx.run import Case

BOUNDS = ("every axes constraint, side and twin flag, all combinations of axes parts that contain the needed ones; "
          "all real corner coordinates, targets and measured extents; label frames are non-degenerate boxes")
ASSUMPTIONS = ["matplotlib's drawing of an axis is an arbitrary symbolic extent (get_tightbbox)"]

# outward faces: (frame side, facing side of the axis box), as corner index pairs
SIDES = ("bottom", "right", "top", "left")
OPP = {"bottom": "top", "top": "bottom", "left": "right", "right": "left"}


def axes(w, xaxis, yaxis, twinx=False, twiny=False, box=False):
    P = w.m.primitives
    frame = w.box("f", nondeg=True) if box else w.quad("f")
    prims = [frame]
    for on, n in ((xaxis, "x"), (yaxis, "y"), (xaxis and twinx, "tx"), (yaxis and twiny, "ty")):
        if on:
            prims += [w.quad(n) if not box else P.Quadrilateral(), w.point(n + "l")]
    return P.Axes(prims=tuple(prims), xaxis=xaxis, yaxis=yaxis, twinx=twinx, twiny=twiny)


def side_line(quad, side):
    """End points of a side, from left to right or from bottom to top for a box."""
    c = [list(quad[f"Line{i}"]["Point0"].value) for i in range(4)]
    return {"bottom": (c[0], c[1]), "top": (c[3], c[2]), "right": (c[1], c[2]), "left": (c[0], c[3])}[side]


def on_side(frame, axis, side):
    (a, b), (c, d) = side_line(frame, side), side_line(axis, OPP[side])
    return [c[0] - a[0], c[1] - a[1], d[0] - b[0], d[1] - b[1]]


def position(w, axis, side, twin, generic, other):
    C = w.m.constraints
    x = axis == "x"
    ax = axes(w, x or other, (not x) or other, twinx=twin if x else other, twiny=twin if not x else other)
    if generic:
        c = C.PositionAxis(axis=axis, side=side, twin=twin)
    else:
        c = (C.PositionXAxis if x else C.PositionYAxis)(side=side, twin=twin)
    rel = on_side(ax["Frame"], ax[f"{axis.upper()}Axis"], side)
    if twin:
        rel = rel + on_side(ax["Frame"], ax[f"Twin{axis.upper()}Axis"], OPP[side])
    w.zero_iff("position", c((ax,)), rel)


def default_sides(w):
    C = w.m.constraints
    ax = axes(w, True, True)
    w.zero_iff("x default", C.PositionXAxis()((ax,)), on_side(ax["Frame"], ax["XAxis"], "bottom"))
    w.zero_iff("y default", C.PositionYAxis()((ax,)), on_side(ax["Frame"], ax["YAxis"], "left"))


def label(w, axis, twin, generic, other):
    C = w.m.constraints
    x = axis == "x"
    ax = axes(w, x or other, (not x) or other, twinx=twin if x else other, twiny=twin if not x else other, box=True)
    t = w.real("t")
    if generic:
        c = C.PositionAxisLabel(axis=axis, twin=twin)
    else:
        c = (C.PositionXAxisLabel if x else C.PositionYAxisLabel)(twin=twin)
    l = list(ax[f"{'Twin' if twin else ''}{axis.upper()}AxisLabel"].value)
    f = ax["Frame"]
    a, b = side_line(f, "bottom" if x else "left")
    i = 0 if x else 1
    w.zero_iff("label", c((ax,), t), [l[i] - a[i] - t * (b[i] - a[i])])


def thickness(w, axis, how, generic):
    C = w.m.constraints
    x = axis == "x"
    q = w.box("q")
    c = C.AxisThickness(axis=axis) if generic else (C.XAxisThickness if x else C.YAxisThickness)()
    size = w.real("qh") if x else w.real("qw")
    if how == "none":
        return w.zero_iff("no axis", c((q,), None), [size])
    mpl = Mpl(w)
    W, H = w.real("W"), w.real("H")
    for v in (W, H):
        w.assume(v >= 1)
        w.assume(v <= 20)
    fig = mpl.figure(W, H)
    rect = w.reals("r", 4)
    w.assume(rect[2] > 0.01)
    w.assume(rect[3] > 0.01)
    axm = mpl.add_axes(fig, rect)
    a = axm.xaxis if x else axm.yaxis
    mpl.set_ticks(a, how)
    t = w.real("t", lo=0)
    L, B, R, T = rect[0] * W, rect[1] * H, (rect[0] + rect[2]) * W, (rect[1] + rect[3]) * H
    d = {"bottom": (L, B - t, R, T), "top": (L, B, R, T + t),
         "left": (L - t, B, R, T), "right": (L, B, R + t, T)}[how]
    mpl.set_tight(a, lambda: [v * 100 for v in d])
    w.zero_iff("thickness", c((q,), a), [size - t])


def cases(tier):
    cs = []
    for axis, sides in (("x", ("bottom", "top")), ("y", ("left", "right"))):
        for side in sides:
            for twin in (False, True):
                for generic in (False, True):
                    for other in (False, True):
                        cs.append(Case(f"position {axis} {side} twin={twin} generic={generic} other={other}", position,
                                       axis=axis, side=side, twin=twin, generic=generic, other=other))
        for twin in (False, True):
            for generic in (False, True):
                for other in (False, True):
                    cs.append(Case(f"label {axis} twin={twin} generic={generic} other={other}", label,
                                   axis=axis, twin=twin, generic=generic, other=other))
        for how in ("none",) + sides:
            for generic in (False, True):
                cs.append(Case(f"thickness {axis} {how} generic={generic}", thickness, axis=axis, how=how, generic=generic))
    cs.append(Case("default sides", default_sides))
    return cs
