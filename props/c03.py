"""C03: grid constraints vanish exactly on the specified grid."""
from vx.run import Case

SHAPES = [(1, 1), (1, 2), (2, 1), (2, 2), (2, 3), (3, 2), (1, 4), (4, 1), (3, 4), (4, 3), (1, 12), (12, 1)]
MORE = [(3, 3), (5, 2), (2, 5), (4, 4), (2, 6), (6, 2), (3, 5), (5, 4), (1, 15), (15, 1)]
BOUNDS = ("grid shapes (rows, columns): " + ", ".join(map(str, SHAPES)) + "; margin arrays of 1..4 and 12 boxes on each side; "
          "thorough adds " + ", ".join(map(str, MORE)) + "; all axis-aligned boxes of positive size, all real grid parameters")
OPP = {"left": "right", "right": "left", "bottom": "top", "top": "bottom"}


def sides(q):
    p0, p2 = list(q["Line0/Point0"].value), list(q["Line2/Point0"].value)
    return {"left": p0[0], "right": p2[0], "bottom": p0[1], "top": p2[1]}


def _boxes(w, shape):
    nr, nc = shape
    quads = [w.box(f"q{i}_{j}", nondeg=True) for i in range(nr) for j in range(nc)]
    return quads, [[sides(quads[i * nc + j]) for j in range(nc)] for i in range(nr)]


def _rectilinear(s, shape):
    nr, nc = shape
    eqs = []
    for i in range(nr):
        for j in range(1, nc):
            eqs += [s[i][j]["bottom"] - s[i][0]["bottom"], s[i][j]["top"] - s[i][0]["top"]]
    for j in range(nc):
        for i in range(1, nr):
            eqs += [s[i][j]["left"] - s[0][j]["left"], s[i][j]["right"] - s[0][j]["right"]]
    return eqs


def _zero(w, label, r, eqs):
    if not eqs:
        # a single box: nothing to satisfy, so every residual entry must vanish
        for k in range(len(r)):
            w.eq(label + ":trivial", r[k], 0)
    else:
        w.zero_iff(label, r, eqs)


def rectilinear(w, shape):
    quads, s = _boxes(w, shape)
    r = w.m.constraints.RectilinearGrid(shape=shape)(tuple(quads))
    _zero(w, "rectilinear grid", r, _rectilinear(s, shape))


def grid(w, shape, as_list):
    nr, nc = shape
    quads, s = _boxes(w, shape)
    cw, rh = w.reals("cw", nc - 1), w.reals("rh", nr - 1)
    cm, rm = w.reals("cm", nc - 1), w.reals("rm", nr - 1)
    pack = list if as_list else w.arr
    r = w.m.constraints.Grid(shape=shape)(tuple(quads), pack(cw), pack(rh), pack(cm), pack(rm))
    eqs = _rectilinear(s, shape)
    width = [s[0][j]["right"] - s[0][j]["left"] for j in range(nc)]
    height = [s[i][0]["top"] - s[i][0]["bottom"] for i in range(nr)]
    for j in range(1, nc):
        eqs.append(width[j] - cw[j - 1] * width[0])
        eqs.append(s[0][j]["left"] - s[0][j - 1]["right"] - cm[j - 1])
    for i in range(1, nr):
        eqs.append(height[i] - rh[i - 1] * height[0])
        eqs.append(s[i - 1][0]["bottom"] - s[i][0]["top"] - rm[i - 1])
    _zero(w, "grid", r, eqs)


def margins(w, n, side):
    quads = [w.box(f"q{i}") for i in range(n)]
    s = [sides(q) for q in quads]
    t = w.reals("t", n - 1)
    r = w.m.constraints.OuterMarginArray(shape=(n,), side=side)(tuple(quads), *t)
    sign = 1 if side in ("right", "top") else -1
    eqs = [sign * (s[i + 1][OPP[side]] - s[i][side]) - t[i] for i in range(n - 1)]
    _zero(w, "margins", r, eqs)


def cases(tier):
    shapes = SHAPES + (MORE if tier == "thorough" else [])
    out = [Case("rectilinear:%dx%d" % s, rectilinear, witness=1, shape=s) for s in shapes]
    out += [Case("grid:%dx%d" % s, grid, witness=1, shape=s, as_list=(k % 3 == 1)) for k, s in enumerate(shapes)]
    out += [Case(f"margins:{n}:{side}", margins, witness=1, n=n, side=side)
            for n in (1, 2, 3, 4, 12) for side in ("bottom", "top", "left", "right")]
    return sorted(out, key=lambda c: -len(c.name.split("x")) - 9 * ("12" in c.name) - 5 * ("4" in c.name))
