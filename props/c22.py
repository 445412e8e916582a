"""C22: drawn previews show the primitives where they are."""
from vx.mpl import Mpl
from vx.run import Case

BOUNDS = ("all real coordinates; trees of up to 4 levels: points, lines, polygons of 3..12 corners (in trees with more than two lines the first half of each outline points up, the rest down), quadrilaterals, axes with "
          "every part, and nested groups; up to 12 top-level primitives; arbitrary top-level keys of up to 12 characters; label depths 0 to 2 and unlimited; 4 pairs of tick intervals, "
          "figure sizes in [1, 20] in")
ASSUMPTIONS = ["matplotlib draws what plot/add_patch/annotate are given (recording model; replayed on real matplotlib)"]


def group(w, children):
    P = w.m.primitives
    return P.PrimitiveNode.from_tree(P.np.array([]), dict(children))


def poly_of(w, name, n):
    P = w.m.primitives
    return P.Polygon(None, [w.point(f"{name}{i}") for i in range(n)])


def xy(p):
    return list(p.value)


class Ends(list):
    loop = None


def expected(w, prim):
    """What must be drawn for a primitive, in depth-first order."""
    P = w.m.primitives
    pts, lines, polys = [], [], []
    if isinstance(prim, P.Point):
        pts.append(xy(prim))
    elif isinstance(prim, P.Line):
        lines.append(Ends([xy(prim["Point0"]), xy(prim["Point1"])]))
        lines[-1].loop = id(prim)
    else:
        if isinstance(prim, P.Polygon):
            n = len(prim.keys())
            polys.append([xy(prim[f"Line{i}"]["Point0"]) for i in range(n)])
        for k in prim.keys():
            a, b, c = expected(w, prim[k])
            if isinstance(prim, P.Polygon):
                for ln in b:
                    ln.loop = id(prim)
            pts, lines, polys = pts + a, lines + b, polys + c
    return pts, lines, polys


def assume_proper(w, lines, free=2):
    """Lines are non-degenerate; with more than `free` lines, each one points
    up or down (the first half of a loop up), so that directions need no case split."""
    if len(lines) <= free:
        for a, b in lines:
            w.assume_or(b[0] - a[0] != 0, b[1] - a[1] != 0)
        return
    loops = {}
    for ln in lines:
        loops.setdefault(ln.loop, []).append(ln)
    for loop in loops.values():
        n = len(loop)
        for i, (a, b) in enumerate(loop):
            if 2 * i < n:
                w.assume(b[1] > a[1])
            else:
                w.assume(b[1] < a[1])


def compare(w, mpl, ax, want, exact_points=True):
    pts, lines, polys = want
    drawn = mpl.lines(ax)
    single = [d for d in drawn if len(d[0]) == 1]
    double = [d for d in drawn if len(d[0]) == 2]
    w.true("nothing else drawn", len(single) + len(double) == len(drawn))
    w.true("number of points", len(single) == len(pts))
    w.true("number of lines", len(double) == len(lines))
    for d, p in zip(single, pts):
        w.eq("point", [d[0][0], d[1][0]], p)
    for d, (a, b) in zip(double, lines):
        w.eq("line", [d[0][0], d[1][0], d[0][1], d[1][1]], a + b)
    for d in drawn:
        w.true("opacity", 0.2 - 1e-12 <= d[2] <= 1 + 1e-12)
    patches = mpl.patches(ax)
    w.true("number of polygons", len(patches) == len(polys))
    for (verts, alpha), p in zip(patches, polys):
        w.eq("polygon corners", [x for v in verts for x in v], [x for v in p for x in v])
        w.true("polygon opacity", 0 < alpha <= 1)
    for text, _, _, alpha in mpl.texts(ax):
        if text:
            w.true("label opacity", 0.2 - 1e-12 <= alpha <= 1 + 1e-12)


def make(w, kind, name):
    P = w.m.primitives
    if kind == "point":
        return w.point(name)
    if kind == "line":
        return w.line(name)
    if kind == "quad":
        return w.quad(name)
    if kind.startswith("poly"):
        return poly_of(w, name, int(kind[4:]))
    if kind == "axes":
        return P.Axes(prims=(w.quad(name + "f"), w.quad(name + "x"), w.point(name + "xl"), w.quad(name + "y"),
                             w.point(name + "yl")), xaxis=True, yaxis=True)
    if kind == "twins":
        qs = []
        for s in ("x", "y", "tx", "ty"):
            qs += [w.quad(name + s), w.point(name + s + "l")]
        return P.Axes(prims=(w.quad(name + "f"), *qs), xaxis=True, yaxis=True, twinx=True, twiny=True)
    if kind == "group":
        return group(w, {"b": w.point(name + "1"), "a": group(w, {"q": w.quad(name + "2"), "l": w.line(name + "3")}),
                         "g": group(w, {})})
    if kind == "deep":
        return group(w, {"g": group(w, {"h": group(w, {"p": w.point(name + "p"), "t": poly_of(w, name + "t", 3)})})})
    raise ValueError(kind)


def preview(w, kinds, via, symbolic=False):
    mpl = Mpl(w)
    U = w.m.ui
    if symbolic:
        keys = [w.string(f"k{i}", 1, 12) for i in range(len(kinds))]
        w.distinct(*keys)
        for k in keys:
            w.assume("/" not in k)
    else:
        keys = [f"k{i}" for i in range(len(kinds))]
    prims = [make(w, k, f"v{i}") for i, k in enumerate(kinds)]
    root = group(w, dict(zip(keys, prims)))
    want = expected(w, root)
    assume_proper(w, want[1])
    if via == "figure":
        fig, ax = U.figure_prims(root)
    elif via == "prims":
        ax = mpl.new_axes()
        U.plot_prims(ax, root)
    else:
        ax = mpl.new_axes()
        U.plot_prim(ax, root)
    compare(w, mpl, ax, want)
    labels(w, mpl, ax, [x for k, p in zip(keys, prims) for x in labelled(w, p, k, 99)])


def labelled(w, p, name, depth):
    """(name, place) of every label, in drawing order: down to a depth, each where its primitive is."""
    P = w.m.primitives
    out = []
    if depth >= 0:
        if isinstance(p, P.Point):
            out = [(name, xy(p))]
        elif isinstance(p, P.Line):
            a, b = xy(p["Point0"]), xy(p["Point1"])
            out = [(name, [(a[0] + b[0]) / 2, (a[1] + b[1]) / 2])]
        elif isinstance(p, P.Polygon):
            out = [(name, xy(p["Line0/Point0"]))]
    if not isinstance(p, P.Line):
        for k, c in p.items():
            out += labelled(w, c, k, depth - 1)
    return out


def labels(w, mpl, ax, want):
    got = [t for t in mpl.texts(ax) if not isinstance(t[0], str) or t[0]]
    w.eq("number of labels", len(got), len(want))
    for t, (name, place) in zip(got, want):
        w.true("label is the primitive's name", name in t[0])
        w.true("label placed by coordinates", t[1] is not None)
        w.eq("label at its primitive", t[1], place)


def nesting(w, p, above=None, out=None):
    """For every label in drawing order, the index of the label of the primitive containing it."""
    P = w.m.primitives
    out = [] if out is None else out
    if isinstance(p, (P.Point, P.Line, P.Polygon)):
        out.append(above)
        above = len(out) - 1
    if not isinstance(p, P.Line):
        for c in p.values():
            nesting(w, c, above, out)
    return out


def opacities(w, mpl, ax, p):
    """The primitive itself is opaque, parts are less so than what they are part of."""
    al = [t[3] for t in mpl.texts(ax) if not isinstance(t[0], str) or t[0]]
    up = nesting(w, p)
    w.eq("labels", len(al), len(up))
    for a, u in zip(al, up):
        if u is None:
            if isinstance(p, (w.m.primitives.Point, w.m.primitives.Line, w.m.primitives.Polygon)):
                w.eq("the primitive itself is opaque", a, 1)
        else:
            w.true("parts are less opaque", a < al[u])


def single(w, kind, depth):
    """plot_prim on one primitive with labels limited to a depth."""
    mpl = Mpl(w)
    p = make(w, kind, "v")
    want = expected(w, p)
    assume_proper(w, want[1])
    ax = mpl.new_axes()
    if depth is None:
        w.m.ui.plot_prim(ax, p, "key")
    else:
        w.m.ui.plot_prim(ax, p, "key", max_label_depth=depth)
    compare(w, mpl, ax, want)
    labels(w, mpl, ax, labelled(w, p, "key", 99 if depth is None else depth))
    if depth is None:
        opacities(w, mpl, ax, p)


def direct(w, kind):
    """The functions for one kind of primitive, with a label."""
    mpl = Mpl(w)
    U = w.m.ui
    p = make(w, kind, "v")
    want = expected(w, p)
    assume_proper(w, want[1])
    al = w.real("alpha", lo=0, hi=1)
    ax = mpl.new_axes()
    f = {"point": U.plot_point, "line": U.plot_line}.get(kind, U.plot_polygon)
    f(ax, p, "name", alpha=al)
    labels(w, mpl, ax, labelled(w, p, "name", 0))
    drawn = mpl.lines(ax)
    if kind in ("point", "line"):
        w.eq("drawn once", len(drawn), 1)
        ends = [xy(p)] if kind == "point" else [xy(p["Point0"]), xy(p["Point1"])]
        w.eq("drawn in place", list(drawn[0][0]) + list(drawn[0][1]), [e[0] for e in ends] + [e[1] for e in ends])
        w.eq("given opacity", drawn[0][2], al)
    else:
        (verts, a), = mpl.patches(ax)
        w.eq("corners", [x for v in verts for x in v], [x for v in want[2][0] for x in v])
        w.true("fill no more opaque than asked", a <= al)


def sheet(w, ints):
    """The preview figure: its size, equal scales and the requested tick intervals."""
    mpl = Mpl(w)
    width, height = w.real("width", lo=1, hi=20), w.real("height", lo=1, hi=20)
    root = group(w, {"p": w.point("p")})
    fig, ax = w.m.ui.figure_prims(root, (width, height), *ints)
    w.eq("size", mpl.size(fig), [width, height])
    major, minor = ints if ints else (1.0, 0.125)
    for axis in (ax.xaxis, ax.yaxis):
        for loc, step in ((axis.get_major_locator(), major), (axis.get_minor_locator(), minor)):
            ts = [float(t) for t in loc.tick_values(0.0, 6 * step)]
            w.true("ticks at multiples of the interval", all(abs(t / step - round(t / step)) < 1e-9 for t in ts))
            w.true("at every multiple", all(any(abs(t - i * step) < 1e-9 for t in ts) for i in range(7)))
    w.true("equal scales", ax.get_aspect() in (1, "equal"))
    fig2, ax2 = w.m.ui.figure_prims(root)
    w.true("a figure of its own", fig2 is not fig)
    compare(w, mpl, ax2, expected(w, root))


def corners_equal(w):
    """Degenerate lines of a collapsed polygon do not disturb the others."""
    mpl = Mpl(w)
    P = w.m.primitives
    a, b, c = w.vec("a"), w.vec("b"), w.vec("c")
    q = P.Polygon(None, [P.Point(a), P.Point(b), P.Point(c), P.Point(c)])
    _, lines, polys = expected(w, q)
    good = [lines[0], lines[1], lines[3]]
    assume_proper(w, good)
    ax = mpl.new_axes()
    w.m.ui.plot_prims(ax, group(w, {"q": q}))
    drawn = [d for d in mpl.lines(ax) if len(d[0]) == 2]
    drawn = [d for d in drawn if bool(d[0][0] != d[0][1]) or bool(d[1][0] != d[1][1])]
    w.true("number of lines", len(drawn) == 3)
    for d, (p, r) in zip(drawn, good):
        w.eq("line", [d[0][0], d[1][0], d[0][1], d[1][1]], p + r)
    w.eq("polygon corners", [x for v in mpl.patches(ax)[0][0] for x in v], [x for v in polys[0] for x in v])


def rotation(w):
    l = w.line("l")
    w.nondegenerate(l)
    v = w.lvec(l)
    w.angle_is("rotation", [w.m.ui.rotation_from_line(l)], v[0], v[1], unit="deg")


def line_label(w, via):
    mpl = Mpl(w)
    l = w.line("l")
    w.nondegenerate(l)
    ax = mpl.new_axes()
    if via == "line":
        w.m.ui.plot_line(ax, l, label="name")
    elif via == "prim":
        w.m.ui.plot_prim(ax, l, "name")
    else:
        w.m.ui.plot_prims(ax, group(w, {"name": l}))
    t = mpl.texts(ax)
    w.true("one label", len(t) == 1)
    a, b = w.ends(l)
    w.eq("label at the midpoint", t[0][1], [(a[0] + b[0]) / 2, (a[1] + b[1]) / 2])
    v = w.lvec(l)
    w.angle_is("label rotation", [t[0][2]], v[0], v[1], unit="deg")
    w.true("label text", "name" in t[0][0])


def shared(w):
    """Lines of a polygon all carry their own label."""
    mpl = Mpl(w)
    q = w.quad("q")
    lines = expected(w, q)[1]
    assume_proper(w, lines)
    for k in range(4):
        ax = mpl.new_axes()
        l = q[f"Line{k}"]
        w.m.ui.plot_prim(ax, l, f"q/Line{k}")
        t = mpl.texts(ax)
        a, b = lines[k]
        w.eq("label at the midpoint", t[0][1], [(a[0] + b[0]) / 2, (a[1] + b[1]) / 2])
        w.angle_is("label rotation", [t[0][2]], b[0] - a[0], b[1] - a[1], unit="deg")


def cases(tier):
    cs = []
    mixes = [(), ("point",), ("line",), ("quad",), ("poly3",), ("poly12",), ("axes",), ("twins",), ("group",), ("deep",),
             ("point", "line", "quad"), ("axes", "point", "deep", "poly5"), ("group", "group"),
             ("point",) * 11 + ("line",)]
    for kinds in mixes:
        for via in ("figure", "prims", "prim"):
            cs.append(Case(f"preview {' '.join(kinds)} via {via}", preview, kinds=kinds, via=via))
    for kinds in (("point", "line"), ("quad", "point", "group")):
        cs.append(Case(f"preview {' '.join(kinds)} with any keys", preview, kinds=kinds, via="prims", symbolic=True))
    for kind in ("point", "line", "poly3", "quad", "poly7"):
        cs.append(Case(f"direct {kind}", direct, kind=kind))
    for ints in ((), (2.0, 0.5), (0.25, 0.05), (3.0, 1.0)):
        cs.append(Case(f"sheet {ints}", sheet, ints=ints))
    for kind in ("point", "line", "quad", "axes", "group", "deep"):
        for depth in (0, 1, 2, None):
            cs.append(Case(f"labels to depth {depth} of {kind}", single, kind=kind, depth=depth))
    cs.append(Case("collapsed polygon", corners_equal))
    cs.append(Case("rotation", rotation))
    for via in ("line", "prim", "prims"):
        cs.append(Case(f"line label via {via}", line_label, via=via))
    cs.append(Case("labels of shared corners", shared))
    return cs
