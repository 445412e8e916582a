"""C15: matplotlib figure and axes match the solved geometry."""
from vx.mpl import Mpl
from vx.run import Case

BOUNDS = ("figure quadrilateral anywhere with side lengths in [1/4, 50] in, frames any non-degenerate box with coordinates "
          "within +-100 in; up to 4 top-level primitives with keys of up to 52 (one) or 20 (two or more) arbitrary characters; up to 12 axes with fixed keys")
ASSUMPTIONS = ["matplotlib stores figure sizes and axes positions as given (recording model; replayed on real matplotlib)"]


def sized(w, name, lo=0.25, hi=50):
    q = w.box(name)
    for s in "wh":
        w.assume(w.real(name + s) >= lo)
        w.assume(w.real(name + s) <= hi)
    for s in "xy":
        w.assume(w.real(name + s) >= -100)
        w.assume(w.real(name + s) <= 100)
    return q


def root(w, prims):
    r = w.m.primitives.PrimitiveNode.from_tree(w.m.primitives.np.array([]), {})
    for k, p in prims:
        r.add_child(k, p)
    return r


def axes_prim(w, frame, **k):
    """Axes with the given frame; axis boxes lie below and left of it."""
    P = w.m.primitives
    parts = [frame]
    c = [list(frame[f"Line{i}"]["Point0"].value) for i in range(4)]
    (x0, y0), (x1, y1) = c[0], c[2]
    for f, q in (("x", (x0, y0 - 1, x1, y0)), ("y", (x0 - 2, y0, x0, y1))):
        if k.get(f + "axis"):
            pts = [(q[0], q[1]), (q[2], q[1]), (q[2], q[3]), (q[0], q[3])]
            parts += [P.Quadrilateral(None, [P.Point(w.arr(list(p))) for p in pts]), P.Point(w.arr([0, 0]))]
    return P.Axes(prims=tuple(parts), **k)


def rect_of(frame, figure):
    f = [list(figure[f"Line{i}"]["Point0"].value) for i in range(4)]
    q = [list(frame[f"Line{i}"]["Point0"].value) for i in range(4)]
    return [q[0][0] - f[0][0], q[0][1] - f[0][1], q[2][0] - f[0][0], q[2][1] - f[0][1]]


def check_geometry(w, mpl, fig, figq, axs, frames):
    f = [list(figq[f"Line{i}"]["Point0"].value) for i in range(4)]
    w.eq("figure size", mpl.size(fig), [f[2][0] - f[0][0], f[2][1] - f[0][1]])
    for k, fr in frames:
        w.eq("axes rectangle", mpl.rect_inches(fig, axs[k]), rect_of(fr, figq))
        w.eq("axes rectangle before aspect", mpl.original_inches(fig, axs[k]), rect_of(fr, figq))


def selection(w, n, minlen, pos, default):
    """Axes are those whose key contains 'Axes', in the order of the primitives."""
    mpl = Mpl(w)
    names = [w.string(f"k{i}", 0 if minlen == 0 else 1, 24 if n == 1 else 8) for i in range(n)]
    keys = []
    for i, s in enumerate(names):
        form = w.choice(f"form{i}", ["plain", "axes"])
        if form == "axes":
            t = w.string(f"t{i}", 0, 24 if n == 1 else 8)
            keys.append(s + "Axes" + t)
        else:
            keys.append(w.string(f"p{i}", 1, 24 if n == 1 else 12))
    for k in keys:
        w.assume(k != "Figure")
        w.assume("/" not in k)
    w.distinct(*keys)
    figq = sized(w, "F")
    frames = [sized(w, f"q{i}") for i in range(n)]
    items = [(k, axes_prim(w, f)) for k, f in zip(keys, frames)]
    items.insert(pos, ("Figure", figq))
    r = root(w, items)
    want = [(k, f) for k, f in zip(keys, frames) if "Axes" in k]
    fig, axs = w.m.matplotlibutils.subplots(r)
    w.eq("axes keys", [k for k in axs], [k for k, _ in want])
    w.true("one axes per key", len(mpl.axes_list(fig)) == len(want))
    w.true("axes belong to the figure", all(any(a is b for b in mpl.axes_list(fig)) for a in axs.values()))
    w.true("distinct axes", len({id(a) for a in axs.values()}) == len(want))
    check_geometry(w, mpl, fig, figq, axs, want)


def explicit(w, figkey, chosen, present):
    mpl = Mpl(w)
    figq = sized(w, "F")
    frames = [sized(w, f"q{i}") for i in range(len(present))]
    r = root(w, [(k, axes_prim(w, f)) for k, f in zip(present, frames)] + [(figkey, figq)])
    fig, axs = w.m.matplotlibutils.subplots(r, figkey, list(chosen))
    w.eq("axes keys", [k for k in axs], list(chosen))
    w.true("one axes per key", len(mpl.axes_list(fig)) == len(chosen))
    check_geometry(w, mpl, fig, figq, axs, [(k, dict(zip(present, frames))[k]) for k in chosen])


def named(w):
    """Explicit symbolic keys, including ones without 'Axes' in them."""
    mpl = Mpl(w)
    a, b, f = (w.string(x, 1, 16) for x in "abf")
    w.distinct(a, b, f)
    for k in (a, b, f):
        w.assume("/" not in k)
    figq, qa, qb = sized(w, "F"), sized(w, "qa"), sized(w, "qb")
    r = root(w, [(a, axes_prim(w, qa)), (f, figq), (b, axes_prim(w, qb))])
    which = w.choice("which", [[0], [1], [0, 1], [1, 0], []])
    both = [(a, qa), (b, qb)]
    chosen = [both[i] for i in which]
    fig, axs = w.m.matplotlibutils.subplots(r, f, [k for k, _ in chosen])
    w.eq("axes keys", [k for k in axs], [k for k, _ in chosen])
    w.true("one axes per key", len(mpl.axes_list(fig)) == len(chosen))
    check_geometry(w, mpl, fig, figq, axs, chosen)


def nested(w):
    mpl = Mpl(w)
    figq, q = sized(w, "F"), sized(w, "q")
    g = root(w, [("AxesA", axes_prim(w, q)), ("Fig", figq)])
    r = root(w, [("Group", g)])
    fig, axs = w.m.matplotlibutils.subplots(r, "Group/Fig", ["Group/AxesA"])
    w.eq("axes keys", [k for k in axs], ["Group/AxesA"])
    check_geometry(w, mpl, fig, figq, axs, [("Group/AxesA", q)])


def with_axis(w, xaxis, yaxis):
    mpl = Mpl(w)
    figq = sized(w, "F")
    frames = [sized(w, "q0"), sized(w, "q1")]
    r = root(w, [("AxesA", axes_prim(w, frames[0], xaxis=xaxis, yaxis=yaxis)), ("Figure", figq),
                 ("AxesB", axes_prim(w, frames[1], xaxis=yaxis, yaxis=xaxis))])
    fig, axs = w.m.matplotlibutils.subplots(r)
    w.eq("axes keys", [k for k in axs], ["AxesA", "AxesB"])
    check_geometry(w, mpl, fig, figq, axs, [("AxesA", frames[0]), ("AxesB", frames[1])])


def many(w, n):
    mpl = Mpl(w)
    figq = sized(w, "F")
    frames = [sized(w, f"q{i}") for i in range(n)]
    keys = [f"Axes{n - i}" for i in range(n)]
    items = [(k, axes_prim(w, f)) for k, f in zip(keys, frames)]
    items.insert(n // 2, ("Figure", figq))
    items.insert(1, ("Note", w.point("pt")))
    r = root(w, items)
    fig, axs = w.m.matplotlibutils.subplots(r)
    w.eq("axes keys", [k for k in axs], keys)
    check_geometry(w, mpl, fig, figq, axs, list(zip(keys, frames)))


def update(w, n, m):
    """Updating existing objects from any earlier size and position; others are left alone."""
    mpl = Mpl(w)
    W, H = w.real("W0", lo=1, hi=20), w.real("H0", lo=1, hi=20)
    fig = mpl.figure(W, H)
    rects = [w.reals(f"r{i}", 4) for i in range(n)]
    for r in rects:
        for v in r[:2]:
            w.assume(v >= -2)
            w.assume(v <= 2)
        for v in r[2:]:
            w.assume(v >= 0.1)
            w.assume(v <= 2)
    axs = [mpl.add_axes(fig, r) for r in rects]
    if w.choice("hidden", [False, True]):
        # hidden axes keep their place
        axs[0].set_visible(False)
    figq = sized(w, "F")
    frames = [sized(w, f"q{i}") for i in range(n)]
    r = root(w, [("Figure", figq)] + [(f"Axes{i}", axes_prim(w, f)) for i, f in enumerate(frames)])
    given = {f"Axes{i}": axs[i] for i in range(m)}
    fig2, axs2 = w.m.matplotlibutils.update_subplots(r, "Figure", fig, given)
    w.true("same figure", fig2 is fig)
    w.true("same axes", list(axs2.keys()) == [f"Axes{i}" for i in range(m)]
           and all(axs2[f"Axes{i}"] is axs[i] for i in range(m)))
    w.true("no axes added", len(mpl.axes_list(fig)) == n)
    check_geometry(w, mpl, fig, figq, given, [(f"Axes{i}", frames[i]) for i in range(m)])
    # a second update follows a second geometry
    figq2 = sized(w, "G")
    frames2 = [sized(w, f"p{i}") for i in range(n)]
    r2 = root(w, [("Figure", figq2)] + [(f"Axes{i}", axes_prim(w, f)) for i, f in enumerate(frames2)])
    w.m.matplotlibutils.update_subplots(r2, "Figure", fig, given)
    check_geometry(w, mpl, fig, figq2, given, [(f"Axes{i}", frames2[i]) for i in range(m)])
    # the same objects under other keys, from primitives of other names
    k = w.choice("rotate", list(range(max(m, 1))))
    moved = {f"Axes{i}": axs[(i + k) % m] for i in range(m)}
    w.m.matplotlibutils.update_subplots(r2, "Figure", fig, moved)
    check_geometry(w, mpl, fig, figq2, moved, [(f"Axes{i}", frames2[i]) for i in range(m)])
    names = [f"Other{i}" for i in range(n)]
    r3 = root(w, [("Page", figq)] + [(k, axes_prim(w, f)) for k, f in zip(names, frames)])
    moved = {names[-1 - i]: axs[i] for i in range(m)}
    w.m.matplotlibutils.update_subplots(r3, "Page", fig, moved)
    check_geometry(w, mpl, fig, figq, moved, [(names[-1 - i], frames[-1 - i]) for i in range(m)])
    w.true("no axes added", len(mpl.axes_list(fig)) == n)


def cases(tier):
    cs = []
    for n in (1, 2) if tier == "quick" else (1, 2, 3):
        for pos in range(n + 1):
            cs.append(Case(f"selection n={n} figure at {pos}", selection, n=n, minlen=0, pos=pos, default=True))
    cs.append(Case("explicit keys", named))
    cs.append(Case("nested keys", nested))
    for chosen in ((), ("AxesB",), ("AxesB", "AxesA"), ("Plot",), ("Plot", "AxesA", "AxesB")):
        cs.append(Case(f"explicit {chosen}", explicit, figkey="MyFigure", chosen=chosen, present=("AxesA", "AxesB", "Plot")))
    for x, y in ((True, False), (False, True), (True, True)):
        cs.append(Case(f"with axis boxes x={x} y={y}", with_axis, xaxis=x, yaxis=y))
    for n in (4, 12):
        cs.append(Case(f"many {n}", many, n=n))
    for n, m in ((1, 1), (2, 1), (2, 2), (3, 0), (3, 3)):
        cs.append(Case(f"update {m} of {n}", update, n=n, m=m))
    return cs
