"""C17: axis thickness is measured and refreshed faithfully."""
from vx.mpl import Mpl
from vx.run import Case

BOUNDS = ("figures of 1..40 in at 20..400 dpi, axes anywhere in them, any drawn extent reaching beyond the axes on the ticks' side and ending anywhere on the others, labels of any "
          "extent, visible or not, every tick side; layouts of up to 4 axes and 6 constraints with arbitrary (up to 12 characters) "
          "axes names, nested and mapped thickness constraints")
ASSUMPTIONS = ["matplotlib's drawing of an axis is an arbitrary symbolic extent (get_tightbbox), larger when the label is visible"]


def figure(w, mpl, name=""):
    W, H = w.real(name + "W", lo=1, hi=40), w.real(name + "H", lo=1, hi=40)
    dpi = w.real(name + "dpi", lo=20, hi=400)
    return mpl.figure(W, H, dpi), W, H, dpi


def plotted(w, mpl, fig, W, H, dpi, name=""):
    """Axes with known inches rectangle."""
    r = w.reals(name + "r", 4)
    for v in r[:2]:
        w.assume(v >= -1)
        w.assume(v <= 1)
    for v in r[2:]:
        w.assume(v >= 0.05)
        w.assume(v <= 2)
    # an axes of fixed aspect is drawn elsewhere than where it was put
    ax = mpl.add_axes(fig, [0.1, 0.2, 0.7, 0.6])
    mpl.move(ax, r)
    return ax, (r[0] * W, r[1] * H, (r[0] + r[2]) * W, (r[1] + r[3]) * H)


def extent(w, mpl, axis, rect, dpi, side, name="", nothing=False):
    """The tick area sticks out by t on `side`; it ends anywhere on the other sides, also off the axes altogether."""
    t = w.real(name + "t", lo=0, hi=10)
    o = [w.real(f"{name}o{i}", lo=-200, hi=10) for i in range(3)]
    lab = w.real(name + "lab", lo=0.01, hi=10)
    n = ("left", "bottom", "right", "top").index(side)
    outs = o[:n] + [t] + o[n:]
    L, B, R, T = rect
    box = [L - outs[0], B - outs[1], R + outs[2], T + outs[3]]
    w.assume(box[0] <= box[2])
    w.assume(box[1] <= box[3])
    big = [box[0] - lab, box[1] - lab, box[2] + lab, box[3] + lab]

    def f():
        if nothing and not axis.label.get_visible():
            return None
        b = big if axis.label.get_visible() else box
        return [v * dpi for v in b]
    mpl.set_tight(axis, f)
    return 0 if nothing else t


def redrawn(w, mpl, axis, t):
    """The tick area now sticks out by t on every side."""
    L, B, R, T = mpl.rect_inches(axis.axes.figure, axis.axes)
    dpi = axis.axes.figure.get_dpi()
    mpl.set_tight(axis, lambda: [v * dpi for v in (L - t, B - t, R + t, T + t)])


def measure(w, axis, side, visible, nothing, via):
    mpl = Mpl(w)
    fig, W, H, dpi = figure(w, mpl)
    ax, rect = plotted(w, mpl, fig, W, H, dpi)
    a = ax.xaxis if axis == "x" else ax.yaxis
    mpl.set_ticks(a, side)
    a.label.set_visible(visible)
    text = w.choice("text", ["", "x"])
    a.label.set_text(text)
    t = extent(w, mpl, a, rect, dpi, side, nothing=nothing)
    C = w.m.constraints
    got = C.get_axis_thickness(a, side) if via == "function" else C.AxisThickness.get_axis_thickness(a)
    w.eq("thickness", [got], [t])
    w.true("label visibility", a.label.get_visible() == visible)
    w.true("label text", a.label.get_text() == text)
    w.true("axis shown", a.get_visible())
    w.eq("ticks unchanged", a.get_ticks_position(), side)
    w.eq("again", [C.AxisThickness.get_axis_thickness(a)], [t])


def odd_ticks(w, axis, ticks, visible):
    """Ticks on both sides or none: whatever is returned or raised, the label keeps its visibility."""
    mpl = Mpl(w)
    fig, W, H, dpi = figure(w, mpl)
    ax, rect = plotted(w, mpl, fig, W, H, dpi)
    a = ax.xaxis if axis == "x" else ax.yaxis
    a.label.set_visible(visible)
    extent(w, mpl, a, rect, dpi, "bottom" if axis == "x" else "left")
    mpl.set_ticks(a, ticks)
    w.fails(lambda: w.m.constraints.AxisThickness.get_axis_thickness(a))
    w.true("label visibility", a.label.get_visible() == visible)


# ---- refreshing a layout ------------------------------------------------------

def snapshot(layout):
    """(constraint keys, prim keys, params, prim keys and values) as plain lists."""
    def walk(node, key=""):
        out = [(key, node)]
        for k in node.keys():
            out += walk(node[k], key + "/" + k)
        return out
    return ([(k, n) for k, n in walk(layout.root_constraint)],
            [(k, n.value) for k, n in walk(layout.root_prim_keys)],
            [(k, n.value) for k, n in walk(layout.root_param)],
            [(k, n, n.value) for k, n in walk(layout.root_prim)])


def same_values(w, label, a, b):
    """Parameter values: the same objects or equal numbers."""
    w.true(label + " kind", (a is None) == (b is None))
    if a is None or b is None:
        return
    w.true(label + " count", len(a) == len(b))
    for x, y in zip(a, b):
        if x is not y:
            w.eq(label, x, y)


def axes(w, mpl, name, pre):
    """An Axes primitive, its plotted axes and the thicknesses of their axis."""
    P = w.m.primitives
    prim = P.Axes(xaxis=True, yaxis=True, twinx=True, twiny=True)
    fig, W, H, dpi = figure(w, mpl, pre)
    ax, rect = plotted(w, mpl, fig, W, H, dpi, pre)
    xs = w.choice(pre + "xs", ["bottom", "top"])
    mpl.set_ticks(ax.xaxis, xs)
    tx = extent(w, mpl, ax.xaxis, rect, dpi, xs, pre + "x")
    ty = extent(w, mpl, ax.yaxis, rect, dpi, "left", pre + "y")
    return prim, ax, tx, ty


def check_refresh(w, lay, axs, expected):
    """expected: {constraint key: thickness} of the thickness constraints (with their leaves below)."""
    c0, k0, p0, q0 = snapshot(lay)
    flat0 = lay.flat_constraints()
    new = w.m.layout.update_layout_constraints(lay, axs)
    c1, k1, p1, q1 = snapshot(new)
    # the layout passed in is as it was
    ca, ka, pa, qa = snapshot(lay)
    for before, after, what in ((c0, ca, "constraints"), (k0, ka, "keys"), (q0, qa, "primitives"), (p0, pa, "parameters")):
        w.true("input layout unchanged: " + what, len(before) == len(after)
               and all(x[0] is y[0] or x[0] == y[0] for x, y in zip(before, after))
               and all(x[1] is y[1] for x, y in zip(before, after)))
    w.true("new layout object", new is not lay)
    # same structure
    w.eq("constraint keys", [k for k, _ in c1], [k for k, _ in c0])
    w.true("constraints", all(a is b or type(a) is type(b) for (_, a), (_, b) in zip(c0, c1)))
    w.eq("primitive key tree", [k for k, _ in k1], [k for k, _ in k0])
    for (_, a), (_, b) in zip(k0, k1):
        w.eq("primitive keys", b, a)
    w.eq("primitives", [k for k, *_ in q1], [k for k, *_ in q0])
    for (_, _, a), (_, _, b) in zip(q0, q1):
        w.eq("primitive values", b, a)
    w.eq("parameter keys", [k for k, _ in p1], [k for k, _ in p0])
    # parameters
    for (k, old), (_, now) in zip(p0, p1):
        hit = [e for e in expected if k == "/" + e]
        leaf = [e for e in expected if k.startswith("/" + e + "/")]
        if hit:
            axis, t = expected[hit[0]]
            w.true("axis parameter", len(now) == 1 and now[0] is axis)
        elif leaf:
            axis, t = expected[leaf[0]]
            w.eq("measured thickness", now, [t])
        else:
            same_values(w, "other parameters", now, old)
    # residual parameters of the flat constraints agree too
    f1 = new.flat_constraints()
    w.true("flat lengths", [len(x) for x in f1] == [len(x) for x in flat0])


def refresh(w, names, plan, symbolic, twice=False):
    """plan: list of (axis letter or None, index of axes) constraints to add."""
    mpl = Mpl(w)
    C, P = w.m.constraints, w.m.primitives
    lay = w.m.layout.Layout()
    if symbolic:
        names = [w.string(f"n{i}", 1, 12) for i in range(len(names))]
        w.distinct(*names)
        for n in names:
            w.assume("/" not in n)
            w.assume(n != "Box")
    lay.add_prim(P.Quadrilateral(), "Box")
    axs, ts = {}, []
    for i, n in enumerate(names):
        prim, ax, tx, ty = axes(w, mpl, n, f"a{i}")
        lay.add_prim(prim, n)
        axs[n] = ax
        ts.append((ax, tx, ty))
    expected = {}
    for j, (kind, i) in enumerate(plan):
        if kind is None:
            lay.add_constraint(C.Width(), ("Box",), (w.real(f"w{j}"),), key=f"c{j}")
            continue
        c = {"x": C.XAxisThickness, "y": C.YAxisThickness}[kind]()
        # a layout may be refreshed again: the parameter may already hold an axis
        lay.add_constraint(c, (names[i] + f"/{kind.upper()}Axis",), (None,), key=f"c{j}")
        ax, tx, ty = ts[i]
        expected[f"c{j}"] = (ax.xaxis, tx) if kind == "x" else (ax.yaxis, ty)
    for j, key, old in ((0, "same", "c0"), (1, "twin", "c0")) if twice else ():
        # another constraint that follows the same drawn axis
        kind, i = plan[0]
        c = {"x": C.XAxisThickness, "y": C.YAxisThickness}[kind]()
        lay.add_constraint(c, (names[i] + ("/Twin" if key == "twin" else "/") + f"{kind.upper()}Axis",), (None,), key=key)
        expected[key] = expected[old]
    if symbolic:
        w.feasible()
    check_refresh(w, lay, axs, expected)


def refresh_auto_keys(w):
    """Automatic constraint keys, axes dictionary in another order and with an extra entry."""
    mpl = Mpl(w)
    C = w.m.constraints
    lay = w.m.layout.Layout()
    made = {}
    for i, n in enumerate(("AxesB", "AxesA")):
        made[n] = axes(w, mpl, n, f"a{i}")
        lay.add_prim(made[n][0], n)
    other = axes(w, mpl, "Other", "o")
    lay.add_constraint(C.YAxisThickness(), ("AxesA/YAxis",), (None,))
    lay.add_constraint(C.XAxisThickness(), ("AxesB/XAxis",), (None,))
    lay.add_constraint(C.Box(), ("AxesA/Frame",), ())
    lay.add_constraint(C.XAxisThickness(), ("AxesA/XAxis",), (None,))
    keys = list(lay.root_constraint.keys())
    axs = {"AxesA": made["AxesA"][1], "Other": other[1], "AxesB": made["AxesB"][1]}
    A, B = made["AxesA"], made["AxesB"]
    check_refresh(w, lay, axs, {keys[0]: (A[1].yaxis, A[3]), keys[1]: (B[1].xaxis, B[2]), keys[3]: (A[1].xaxis, A[2])})


def refresh_nested(w, how):
    """Thickness constraints inside a mapped constraint, or axes below a group."""
    mpl = Mpl(w)
    C, P = w.m.constraints, w.m.primitives
    lay = w.m.layout.Layout()
    a, b = axes(w, mpl, "A", "a"), axes(w, mpl, "B", "b")
    if how == "map":
        lay.add_prim(a[0], "A")
        lay.add_prim(b[0], "B")
        Q = P.Quadrilateral
        c = w.m.constructions.transform_map(C.XAxisThickness(), (Q, Q))
        lay.add_constraint(c, ("A/XAxis", "B/XAxis"), (None, None), key="m")
        kids = list(lay.root_constraint["m"].keys())
        new = w.m.layout.update_layout_constraints(lay, {"A": a[1], "B": b[1]})
        for kid, (_, ax, t, _ty) in zip(kids, (a, b)):
            w.true("axis parameter", new.root_param["m/" + kid].value[0] is ax.xaxis)
            leaf = new.root_param["m/" + kid].children
            w.eq("measured thickness", [list(n.value) for n in leaf.values()], [[t]])
    else:
        g = P.PrimitiveNode.from_tree(P.np.array([]), {"A": a[0], "B": b[0]})
        lay.add_prim(g, "G")
        lay.add_constraint(C.YAxisThickness(), ("G/B/YAxis",), (None,), key="c")
        lay.add_constraint(C.XAxisThickness(), ("G/A/XAxis",), (None,), key="d")
        check_refresh(w, lay, {"G/A": a[1], "G/B": b[1]}, {"c": (b[1].yaxis, b[3]), "d": (a[1].xaxis, a[2])})


def refresh_twice(w, axis):
    """Refreshing a refreshed layout measures again."""
    mpl = Mpl(w)
    C = w.m.constraints
    lay = w.m.layout.Layout()
    a, b = axes(w, mpl, "A", "a"), axes(w, mpl, "B", "b")
    lay.add_prim(a[0], "A")
    cls = C.XAxisThickness if axis == "x" else C.YAxisThickness
    drawn = lambda m: (m[1].xaxis, m[2]) if axis == "x" else (m[1].yaxis, m[3])
    lay.add_constraint(cls(), (f"A/{axis.upper()}Axis",), (None,), key="c")
    once = w.m.layout.update_layout_constraints(lay, {"A": a[1]})
    check_refresh(w, once, {"A": b[1]}, {"c": drawn(b)})
    # the same axis may be drawn differently by then
    t = w.real("later", lo=0, hi=10)
    once = w.m.layout.update_layout_constraints(lay, {"A": a[1]})
    redrawn(w, mpl, drawn(a)[0], t)
    check_refresh(w, once, {"A": a[1]}, {"c": (drawn(a)[0], t)})
    check_refresh(w, lay, {"A": a[1]}, {"c": (drawn(a)[0], t)})
    once = w.m.layout.update_layout_constraints(lay, {"A": b[1]})
    # and the residual of the refreshed constraint uses it
    q = w.box("q")
    size = w.real("qh") if axis == "x" else w.real("qw")
    w.zero_iff("refreshed residual", cls()((q,), *once.root_param["c"].value), [size - drawn(b)[1]])


def refresh_many(w, n):
    """More constraints than there are digits."""
    mpl = Mpl(w)
    C = w.m.constraints
    lay = w.m.layout.Layout()
    made = {}
    for i in range(2):
        made[f"Axes{10 * i}"] = axes(w, mpl, f"Axes{10 * i}", f"a{i}")
        lay.add_prim(made[f"Axes{10 * i}"][0], f"Axes{10 * i}")
    plan = [("x", "Axes10"), ("y", "Axes0"), ("x", "Axes0")]
    want = []
    for j in range(n):
        a, k = plan[j % 3]
        c = (C.XAxisThickness if a == "x" else C.YAxisThickness)()
        lay.add_constraint(c, (f"{k}/{a.upper()}Axis",), (None,))
        _, ax, tx, ty = made[k]
        want.append((ax.xaxis, tx) if a == "x" else (ax.yaxis, ty))
    check_refresh(w, lay, {k: m[1] for k, m in made.items()}, dict(zip(lay.root_constraint.keys(), want)))


def cases(tier):
    cs = [Case("refresh many", refresh_many, n=12)]
    for axis, sides in (("x", ("bottom", "top")), ("y", ("left", "right"))):
        for side in sides:
            for visible in (True, False):
                for nothing in (False, True):
                    for via in ("function", "method"):
                        cs.append(Case(f"measure {axis} {side} label={visible} nothing={nothing} {via}", measure,
                                       axis=axis, side=side, visible=visible, nothing=nothing, via=via))
        for ticks in ("default", "unknown"):
            for visible in (True, False):
                cs.append(Case(f"odd ticks {axis} {ticks} label={visible}", odd_ticks, axis=axis, ticks=ticks, visible=visible))
    plans = [
        (("A",), [("x", 0)]), (("A",), [("y", 0), (None, 0), ("x", 0)]), (("A",), []), (("A",), [(None, 0)]),
        (("A", "B"), [("x", 1), ("y", 0)]), (("A", "B"), [("x", 0), ("x", 1), (None, 0), ("y", 1), ("y", 0)]),
    ]
    for names, plan in plans:
        for symbolic in (False, True):
            cs.append(Case(f"refresh {plan} on {len(names)} axes symbolic={symbolic}", refresh, names=names, plan=plan, symbolic=symbolic))
    cs.append(Case("refresh axes whose names are prefixes", refresh, names=("A", "AA", "AB"), plan=[("x", 1), ("y", 2), ("x", 0)], symbolic=False))
    for k in "xy":
        cs.append(Case(f"refresh the same {k} axis for several constraints", refresh, names=("A", "B"),
                       plan=[(k, 1), (None, 0), ("y", 0)], symbolic=False, twice=True))
    cs.append(Case("refresh automatic keys", refresh_auto_keys))
    cs.append(Case("refresh mapped", refresh_nested, how="map"))
    cs.append(Case("refresh grouped axes", refresh_nested, how="group"))
    for k in "xy":
        cs.append(Case(f"refresh {k} twice", refresh_twice, axis=k))
    return cs
