"""C06: arithmetic on constructions is pointwise arithmetic on their values."""
from props.shapes import OPERANDS, operand
from vx.run import Case

BOUNDS = ("operands: leaves, library compounds, maps, partial applications and user-defined trees up to depth 3 with "
          "own values at inner nodes; all real coordinates, parameters and scalars; integer, half-integer and "
          "symbolic exponents; expressions of up to 4 operations")
ASSUMPTIONS = ["bases of non-integer powers are positive, divisors are non-zero",
               "powers with a symbolic exponent are an uninterpreted function of base and exponent"]


def _val(op):
    c, p, a = op
    return list(c(p, *a))


def unary(w, na):
    op = operand(w, na, "a")
    c, p, a = op
    v = _val(op)
    w.true("the operand returns values", len(v) > 0)
    w.eq("negation", (-c)(p, *a), [-x for x in v])
    w.eq("plus", (+c)(p, *a), v)
    w.eq("double negation", (-(-c))(p, *a), v)


def scale(w, na, kind):
    op = operand(w, na, "a")
    c, p, a = op
    v = _val(op)
    k = w.real("k", kind)
    w.eq("right constant", (c * k)(p, *a), [x * k for x in v])
    w.true("left product works", not w.fails(lambda: k * c))
    left = k * c
    w.true("left product is a construction", isinstance(left, w.m.constructions.ConstructionNode))
    w.eq("left constant", left(p, *a), [x * k for x in v])


def divide(w, na, kind):
    op = operand(w, na, "a")
    c, p, a = op
    v = _val(op)
    k = w.real("k", kind)
    w.assume(k != 0)
    w.eq("divided by constant", (c / k)(p, *a), [x / k for x in v])


def scalar(w, na, kind):
    C = w.m.constructions
    op = operand(w, na, "a")
    c, p, a = op
    v = _val(op)
    k = w.real("k", kind)
    w.eq("right parameter", (c * C.Scalar())(p, *a, k), [x * k for x in v])
    w.eq("left parameter", (C.Scalar() * c)(p, *a, k), [x * k for x in v])
    w.assume(k != 0)
    w.eq("divided by parameter", (c / C.Scalar())(p, *a, k), [x / k for x in v])


def two_scalars(w, na):
    C = w.m.constructions
    op = operand(w, na, "a")
    c, p, a = op
    v = _val(op)
    k, h = w.real("k"), w.real("h")
    w.assume(h != 0)
    w.eq("two parameters", ((c * C.Scalar()) / C.Scalar())(p, *a, k, h), [x * k / h for x in v])
    w.eq("mixed", (2.0 * ((-c) / C.Scalar()) * C.Scalar())(p, *a, h, k), [-2 * x * k / h for x in v])


def powers(w, na, e):
    op = operand(w, na, "a")
    c, p, a = op
    v = _val(op)
    if e != int(e):
        for x in v:
            w.assume(x > 0)
    elif e < 0:
        for x in v:
            w.assume(x != 0)
    w.eq("constant power", (c ** e)(p, *a), [w.power(x, e) for x in v])
    w.eq("parameter power", (c ** w.m.constructions.Scalar())(p, *a, e), [w.power(x, e) for x in v])


def symbolic_power(w, na):
    op = operand(w, na, "a")
    c, p, a = op
    v = _val(op)
    for x in v:
        w.assume(x > 0)
    e = w.real("e", lo=-3, hi=3)
    w.eq("constant power", (c ** e)(p, *a), [w.power(x, e) for x in v])
    w.eq("parameter power", (c ** w.m.constructions.Scalar())(p, *a, e), [w.power(x, e) for x in v])


def add(w, na, nb):
    A, B = operand(w, na, "a"), operand(w, nb, "b")
    va, vb = _val(A), _val(B)
    w.eq("sum", (A[0] + B[0])(A[1] + B[1], *A[2], *B[2]), [x + y for x, y in zip(va, vb)])
    w.eq("difference", (A[0] + (-B[0]))(A[1] + B[1], *A[2], *B[2]), [x - y for x, y in zip(va, vb)])


def shared(w, na):
    """The same construction object on both sides, on different primitives."""
    A, B = operand(w, na, "a"), operand(w, na, "b")
    va, vb = _val(A), _val(B)
    c = A[0]
    if na == "Partial":
        vb = list(c(B[1], *B[2]))
    w.eq("c + c", (c + c)(A[1] + B[1], *A[2], *B[2]), [x + y for x, y in zip(va, vb)])


def chain(w, na, nb, nc, left):
    C = w.m.constructions
    A, B, D = operand(w, na, "a"), operand(w, nb, "b"), operand(w, nc, "c")
    va, vb, vc = _val(A), _val(B), _val(D)
    k = w.real("k")
    s = (A[0] + B[0]) + D[0] if left else A[0] + (B[0] + D[0])
    w.eq("three operands", s(A[1] + B[1] + D[1], *A[2], *B[2], *D[2]),
         [x + y + z for x, y, z in zip(va, vb, vc)])
    s = A[0] * 3.0 + (B[0] * C.Scalar() + -D[0])
    w.eq("parameters in operand order", s(A[1] + B[1] + D[1], *A[2], *B[2], k, *D[2]),
         [3 * x + y * k - z for x, y, z in zip(va, vb, vc)])
    s = ((A[0] + B[0]) * C.Scalar() + D[0])
    w.eq("scaled sum plus", s(A[1] + B[1] + D[1], *A[2], *B[2], k, *D[2]),
         [(x + y) * k + z for x, y, z in zip(va, vb, vc)])


def scalars(w):
    """Scalars are constructions too."""
    C = w.m.constructions
    k, h = w.real("k"), w.real("h")
    w.eq("scalar", C.Scalar()((), k), [k])
    w.eq("minus scalar", (-C.Scalar())((), k), [-k])
    w.eq("scalar + scalar", (C.Scalar() + C.Scalar())((), k, h), [k + h])
    w.eq("scalar times scalar", (C.Scalar() * C.Scalar())((), k, h), [k * h])
    w.eq("square times scalar", (C.Scalar() ** 2 * C.Scalar())((), k, h), [k * k * h])
    w.eq("scalar times square", (C.Scalar() * C.Scalar() ** 2)((), k, h), [k * h * h])
    w.eq("float times scalar", (2.0 * C.Scalar())((), k), [2 * k])
    w.eq("squared scalar", (C.Scalar() ** 2)((), k), [k * k])
    w.assume(h != 0)
    w.eq("scalar over scalar", (C.Scalar() / C.Scalar())((), k, h), [k / h])
    w.eq("half scalar", (C.Scalar() / 2)((), k), [k / 2])


def scalar_times_float(w, kind):
    C = w.m.constructions
    k = w.real("k")
    c = w.real("c", kind)
    w.eq("scalar times constant", (C.Scalar() * c)((), k), [c * k])
    l = w.line("l")
    w.eq("product with a scaled scalar", (C.XLength() * (C.Scalar() * c))((l,), k), [(l[1].value - l[0].value)[0] * k * c])


def untouched(w, na):
    """Building expressions leaves the operands as they were."""
    C = w.m.constructions
    A, B = operand(w, na, "a"), operand(w, na, "b")
    va = _val(A)
    _ = (A[0] + A[0]) * 2.0
    _ = (-A[0]) / 3 + A[0] * C.Scalar()
    w.eq("operand unchanged", A[0](A[1], *A[2]), va)


def _same(names):
    return [(n, n) for n in names]


def cases(tier):
    out = []
    th = tier == "thorough"
    for n in OPERANDS:
        out.append(Case(f"negate {n}", unary, na=n))
        out.append(Case(f"two scalars {n}", two_scalars, na=n))
        out.append(Case(f"self sum {n}", shared, na=n))
        out.append(Case(f"untouched {n}", untouched, na=n))
        for k in (("float", "int", "npfloat", "npint") if th or n in ("Length", "Deep") else ("float", "int")):
            if k != "npint":
                out.append(Case(f"scale {n} {k}", scale, na=n, kind=k))
                out.append(Case(f"divide {n} {k}", divide, na=n, kind=k))
            out.append(Case(f"scalar {n} {k}", scalar, na=n, kind=k))
    for n in ("Length", "XLength", "Coordinate", "Width", "Swapped", "Deep", "Rooted"):
        for e in (2, 3.0, -1, -2.0, 0.5, 0):
            if n == "Deep" and e in (-2.0, 0.5) and not th:
                continue
            out.append(Case(f"power {n} {e}", powers, na=n, e=e))
    for n in ("Length", "XLength", "Swapped", "Rooted"):
        out.append(Case(f"symbolic power {n}", symbolic_power, na=n))
    pairs = _same(OPERANDS) + [("Length", "DirectedDistance"), ("DirectedDistance", "Length"),
                               ("PointToLine", "DirectedDistance"), ("DirectedDistance", "PointToLine"),
                               ("Inner", "Partial"), ("Partial", "Inner")]
    for a, b in pairs:
        out.append(Case(f"{a} + {b}", add, na=a, nb=b))
    trip = [("Length", "DirectedDistance", "XLength"), ("DirectedDistance", "DirectedDistance", "DirectedDistance"),
            ("Width", "Width", "Width"), ("Inner", "Partial", "Inner"), ("Deep", "Deep", "Deep"),
            ("Swapped",) * 3, ("Margin",) * 3]
    for t in trip:
        for left in (True, False):
            out.append(Case(f"chain {t[0]},{t[1]},{t[2]} {'left' if left else 'right'}", chain,
                            na=t[0], nb=t[1], nc=t[2], left=left))
    out.append(Case("scalars", scalars))
    for k in ("float", "int"):
        out.append(Case(f"scalar times {k}", scalar_times_float, kind=k))
    return out
