"""C16: axis labels and ticks follow the label anchors and axis boxes."""
import warnings

from vx.mpl import Mpl
from vx.run import Case

BOUNDS = ("figure quadrilateral anywhere with side lengths in [1/4, 50] in, frames any box with sides in [1/4, 50] in, "
          "anchors and axis boxes anywhere within +-100 in; every combination of x and y axes and of sides; 'not aligned' "
          "means off every side by at least 1e-3 in")
ASSUMPTIONS = ["matplotlib stores label coordinates, transforms and tick sides as given (recording model; replayed on real matplotlib)"]

OPP = {"bottom": "top", "top": "bottom", "left": "right", "right": "left"}


def sized(w, name, lo=0.25, hi=50):
    q = w.box(name)
    for s in "wh":
        w.assume(w.real(name + s) >= lo)
        w.assume(w.real(name + s) <= hi)
    for s in "xy":
        w.assume(w.real(name + s) >= -100)
        w.assume(w.real(name + s) <= 100)
    return q


def corners(q):
    return [list(q[f"Line{i}"]["Point0"].value) for i in range(4)]


def quad(w, x0, y0, x1, y1):
    P = w.m.primitives
    pts = [(x0, y0), (x1, y0), (x1, y1), (x0, y1)]
    return P.Quadrilateral(None, [P.Point(w.arr(list(p))) for p in pts])


def against(w, frame, side, t):
    """A box of thickness t lying outside the given side of the frame."""
    c = corners(frame)
    (x0, y0), (x1, y1) = c[0], c[2]
    return {"bottom": lambda: quad(w, x0, y0 - t, x1, y0), "top": lambda: quad(w, x0, y1, x1, y1 + t),
            "left": lambda: quad(w, x0 - t, y0, x0, y1), "right": lambda: quad(w, x1, y0, x1 + t, y1)}[side]()


def root(w, prims):
    r = w.m.primitives.PrimitiveNode.from_tree(w.m.primitives.np.array([]), {})
    for k, p in prims:
        r.add_child(k, p)
    return r


def anchor(w, name):
    p = w.point(name)
    for s in "xy":
        w.assume(w.real(name + s) >= -100)
        w.assume(w.real(name + s) <= 100)
    return p


def axes(w, n, xside, yside):
    """Axes number n with the given axis sides (None: no such axis)."""
    P = w.m.primitives
    frame = sized(w, f"q{n}")
    parts, anchors = [frame], {}
    for a, side in (("x", xside), ("y", yside)):
        if side is not None:
            t = w.real(f"t{a}{n}", lo=0, hi=20)
            anchors[a] = anchor(w, f"l{a}{n}")
            parts += [against(w, frame, side, t), anchors[a]]
    return P.Axes(prims=tuple(parts), xaxis=xside is not None, yaxis=yside is not None), anchors


def record(fn):
    with warnings.catch_warnings(record=True) as ws:
        warnings.simplefilter("always")
        r = fn()
    return r, [x for x in ws if issubclass(x.category, UserWarning)]


def check(w, mpl, fig, figq, ax, xside, yside, anchors, ticks0):
    f = corners(figq)[0]
    for a, axis, side in (("x", ax.xaxis, xside), ("y", ax.yaxis, yside)):
        pos = mpl.label_inches(fig, axis)
        if side is None:
            w.true("label left alone", pos is None)
            w.eq("ticks left alone", axis.get_ticks_position(), ticks0[a])
        else:
            l = list(anchors[a].value)
            w.true("label placed", pos is not None)
            w.eq("label position", pos, [l[0] - f[0], l[1] - f[1]])
            w.eq("tick side", axis.get_ticks_position(), side)


def created(w, xside, yside):
    mpl = Mpl(w)
    figq = sized(w, "F")
    ax, anchors = axes(w, 0, xside, yside)
    r = root(w, [("Figure", figq), ("Axes", ax)])
    (fig, axs), ws = record(lambda: w.m.matplotlibutils.subplots(r))
    check(w, mpl, fig, figq, axs["Axes"], xside, yside, anchors, {"x": "bottom", "y": "left"})
    w.true("no warning for aligned boxes", len(ws) == 0)


def updated(w, sides, ticks0):
    """Several axes, existing objects with their own tick sides, updated twice."""
    mpl = Mpl(w)
    fig = mpl.figure(w.real("W0", lo=1, hi=20), w.real("H0", lo=1, hi=20))
    figq = sized(w, "F")
    items, all_anchors, axs = [], [], {}
    for n, (xs, ys) in enumerate(sides):
        ax, anchors = axes(w, n, xs, ys)
        items.append((f"A{n}", ax))
        all_anchors.append(anchors)
        a = mpl.add_axes(fig, (0.1, 0.1, 0.5, 0.5))
        mpl.set_ticks(a.xaxis, ticks0[0])
        mpl.set_ticks(a.yaxis, ticks0[1])
        axs[f"A{n}"] = a
    r = root(w, items + [("Figure", figq)])
    _, ws = record(lambda: w.m.matplotlibutils.update_subplots(r, "Figure", fig, axs))
    w.true("no warning for aligned boxes", len(ws) == 0)
    for n, (xs, ys) in enumerate(sides):
        check(w, mpl, fig, figq, axs[f"A{n}"], xs, ys, all_anchors[n], {"x": ticks0[0], "y": ticks0[1]})
    # the axis boxes move to the other sides
    turned, anchors2 = [], []
    for n, (xs, ys) in enumerate(sides):
        ax, anchors = axes(w, n, xs and OPP[xs], ys and OPP[ys])
        turned.append((f"A{n}", ax))
        anchors2.append(anchors)
    _, ws = record(lambda: w.m.matplotlibutils.update_subplots(root(w, turned + [("Figure", figq)]), "Figure", fig, axs))
    w.true("no warning for aligned boxes", len(ws) == 0)
    for n, (xs, ys) in enumerate(sides):
        check(w, mpl, fig, figq, axs[f"A{n}"], xs and OPP[xs], ys and OPP[ys], anchors2[n], {"x": ticks0[0], "y": ticks0[1]})
    # move the figure quadrilateral: labels follow
    figq2 = sized(w, "G")
    r2 = root(w, items + [("Figure", figq2)])
    w.m.matplotlibutils.update_subplots(r2, "Figure", fig, axs)
    for n, (xs, ys) in enumerate(sides):
        check(w, mpl, fig, figq2, axs[f"A{n}"], xs, ys, all_anchors[n], {"x": ticks0[0], "y": ticks0[1]})


def unaligned(w, axis):
    """A box off every side by at least 1e-3 in some corner coordinate gives a warning."""
    Mpl(w)
    P = w.m.primitives
    figq = sized(w, "F")
    frame = sized(w, "q")
    (fx0, fy0), (fx1, fy1) = corners(frame)[0], corners(frame)[2]
    e0, e1, e2, e3 = (w.real(f"e{i}", lo=-100, hi=100) for i in range(4))
    x0, y0, x1, y1 = fx0 + e0, fy0 + e1, fx1 + e2, fy1 + e3
    w.assume(x1 >= x0)
    w.assume(y1 >= y0)
    b = quad(w, x0, y0, x1, y1)
    for eqs in ((x0 - fx0, x1 - fx1, y1 - fy0), (x0 - fx0, x1 - fx1, y0 - fy1),
                (y0 - fy0, y1 - fy1, x1 - fx0), (y0 - fy0, y1 - fy1, x0 - fx1)):
        w.assume_or(*([e >= 1e-3 for e in eqs] + [e <= -1e-3 for e in eqs]))
    ax = P.Axes(prims=(frame, b, w.point("l")), xaxis=axis == "x", yaxis=axis == "y")
    r = root(w, [("Figure", figq), ("Axes", ax)])
    w.feasible()

    def go():
        try:
            w.m.matplotlibutils.subplots(r)
        except ValueError:
            pass          # matplotlib refuses a side of the other axis
    _, ws = record(go)
    w.true("warning for an unaligned box", len(ws) > 0)


def finder(w, side):
    """find_axis_position directly, any box and thickness."""
    frame = sized(w, "q")
    t = w.real("t", lo=0, hi=20)
    b = against(w, frame, side, t)
    p, ws = record(lambda: w.m.matplotlibutils.find_axis_position(frame, b))
    w.eq("side", p, side)
    w.true("no warning for aligned boxes", len(ws) == 0)


def cases(tier):
    cs = []
    for xs in (None, "bottom", "top"):
        for ys in (None, "left", "right"):
            cs.append(Case(f"created x={xs} y={ys}", created, xside=xs, yside=ys))
    for t0 in (("bottom", "left"), ("top", "right"), ("bottom", "right")):
        for sides in (((None, None),), (("top", "left"),), (("bottom", "right"), (None, "left")), (("top", None), ("bottom", None))):
            cs.append(Case(f"updated {sides} from {t0}", updated, sides=sides, ticks0=t0))
    for a in "xy":
        cs.append(Case(f"unaligned {a}", unaligned, axis=a, timeout_ms=20000))
    for s in OPP:
        cs.append(Case(f"find {s}", finder, side=s))
    return cs
