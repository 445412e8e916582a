"""C02: quadrilateral constraints vanish exactly on their documented relation."""
from vx.run import Case

BOUNDS = ("every constraint class at its fixed arity; all real corner coordinates and targets "
          "(axis-aligned boxes of any signed size where the relation is about boxes)")

SIDES = ("bottom", "top", "left", "right")
OPP = {"left": "right", "right": "left", "bottom": "top", "top": "bottom"}


def corners(q):
    return [list(q[f"Line{i}/Point0"].value) for i in range(4)]


def sides(q):
    """Coordinates of the sides of an axis-aligned box."""
    c = corners(q)
    return {"left": c[0][0], "right": c[2][0], "bottom": c[0][1], "top": c[2][1]}


def box(w):
    q = w.quad("q")
    p = corners(q)
    r = w.m.constraints.Box()((q,))
    w.zero_iff("box", r, [p[1][1] - p[0][1], p[2][1] - p[3][1], p[3][0] - p[0][0], p[2][0] - p[1][0]])


def dims(w):
    C = w.m.constraints
    q = w.box("q")
    s = sides(q)
    t = w.real("t")
    w.zero_iff("width", C.Width()((q,), t), [s["right"] - s["left"] - t])
    w.zero_iff("height", C.Height()((q,), t), [s["top"] - s["bottom"] - t])


def aspect(w):
    q = w.quad("q")
    w.nondegenerate(q["Line1"])
    t = w.real("t")
    r = w.m.constraints.AspectRatio()((q,), t)
    w.zero_iff("aspect ratio", r, [w.norm(w.lvec(q["Line0"])) - t * w.norm(w.lvec(q["Line1"]))])


def margin(w, side, outer):
    C = w.m.constraints
    a, b = w.box("a"), w.box("b")
    t = w.real("t")
    sa, sb = sides(a), sides(b)
    sign = 1 if side in ("right", "top") else -1
    if outer:
        r = C.OuterMargin(side=side)((a, b), t)
        e = sign * (sb[OPP[side]] - sa[side])
    else:
        r = C.InnerMargin(side=side)((a, b), t)
        e = sign * (sb[side] - sa[side])
    w.zero_iff(f"{'outer' if outer else 'inner'} margin {side}", r, [e - t])


def _cross(a, b):
    return a[0] * b[1] - a[1] * b[0]


def _sub(a, b):
    return [a[0] - b[0], a[1] - b[1]]


def _collinear(w, l, k):
    u = w.lvec(l)
    (la, _), (ka, kb) = w.ends(l), w.ends(k)
    w.nondegenerate(l)
    w.nondegenerate(k)
    return [_cross(u, _sub(ka, la)), _cross(u, _sub(kb, la))]


def align(w, row, named):
    C = w.m.constraints
    a, b = w.quad("a"), w.quad("b")
    if named:
        c = C.AlignRow() if row else C.AlignColumn()
    else:
        c = C.Align(row=row)
    i, j = (0, 2) if row else (3, 1)
    eqs = _collinear(w, a[f"Line{i}"], b[f"Line{i}"]) + _collinear(w, a[f"Line{j}"], b[f"Line{j}"])
    w.zero_iff("align " + ("row" if row else "column"), c((a, b)), eqs)


def align_boxes(w, row):
    """Axis-aligned boxes: aligned iff they share the two lines."""
    C = w.m.constraints
    a, b = w.box("a", nondeg=True), w.box("b", nondeg=True)
    sa, sb = sides(a), sides(b)
    c = C.AlignRow() if row else C.AlignColumn()
    k = ("bottom", "top") if row else ("left", "right")
    w.zero_iff("align boxes", c((a, b)), [sa[s] - sb[s] for s in k])


def faces(w, side):
    C = w.m.constraints
    a, b = w.quad("a"), w.quad("b")
    p, q = corners(a), corners(b)
    r = C.CoincidentOutwardFaces(side=side)((a, b))
    # corners of the side of a, and of the opposite side of b, that must meet
    pairs = {"bottom": ((0, 3), (1, 2)), "top": ((2, 1), (3, 0)),
             "left": ((3, 2), (0, 1)), "right": ((1, 0), (2, 3))}[side]
    eqs = []
    for i, j in pairs:
        eqs += _sub(p[i], q[j])
    w.zero_iff("faces " + side, r, eqs)


def cases(tier):
    out = [Case("box", box), Case("dims", dims), Case("aspect", aspect)]
    out += [Case(f"margin:{s}:{'outer' if o else 'inner'}", margin, side=s, outer=o)
            for s in SIDES for o in (True, False)]
    out += [Case(f"align:{'row' if r else 'column'}:{n}", align, row=r, named=n)
            for r in (True, False) for n in (True, False)]
    out += [Case(f"align-boxes:{'row' if r else 'column'}", align_boxes, row=r) for r in (True, False)]
    out += [Case("faces:" + s, faces, side=s) for s in SIDES]
    return out
