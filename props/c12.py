"""C12: the Newton solver takes Newton steps and reports them truthfully."""
import jax
import jax.numpy as jnp
import numpy as np
from vx.run import Case

BOUNDS = ("14 layouts of up to 34 unknowns with affine, polynomial and algebraic (square root) residuals, consistent, "
          "inconsistent, over- and underdetermined, with shared points; 1 to 3 iterations, up to 12 on three of them; arbitrary real start, "
          "targets and tolerances")
ASSUMPTIONS = ["a least-squares kernel returns a solution of the normal equations, the same one for the same arguments",
               "the reported errors at a tolerance exactly equal to the error may or may not stop the iteration"]


class Sys:
    """A layout together with its residual as a function of its points' coordinates."""

    def __init__(self, w, pts, build):
        self.w = w
        self.pts = pts
        self.build = build          # build(points) -> (named prims, [(constraint, keys, params)])

    def layout(self, xs):
        P = self.w.m.primitives
        pts = [P.Point(list(xs[2 * i:2 * i + 2])) for i in range(self.pts)]
        prims, cons = self.build(pts)
        L = self.w.m.layout.Layout()
        L.add_prims(prims)
        for c, k, a in cons:
            L.add_constraint(c, k, a)
        return L, pts

    def residual(self, xs):
        P = self.w.m.primitives
        pts = [P.Point.from_tree(xs[2 * i:2 * i + 2], {}) for i in range(self.pts)]
        prims, cons = self.build(pts)
        out = []
        for c, k, a in cons:
            out.append(c(tuple(_get(prims, key) for key in k), *a))
        return jnp.concatenate(out)

    def jacobian(self, xs):
        return jax.jacfwd(self.residual)(xs)

    def coords(self, sol, paths):
        return [c for p in paths for c in sol[p].value]


def _get(prims, key):
    head, _, rest = key.partition("/")
    return prims[head][rest] if rest else prims[head]


def _system(w, kind):
    """(Sys, paths of the points in order, inputs)"""
    cr, P = w.m.constraints, w.m.primitives
    line = lambda a, b: P.Line(prims=(a, b))
    if kind == "fix":
        t = w.vec("t")
        return Sys(w, 1, lambda p: ({"A": p[0]}, [(cr.Fix(), ("A",), (t,))])), ["A"]
    if kind == "fix twice":
        t, s = w.vec("t"), w.vec("s")
        return Sys(w, 1, lambda p: ({"A": p[0]}, [(cr.Fix(), ("A",), (t,)), (cr.Fix(), ("A",), (s,))])), ["A"]
    if kind == "shared":
        t, s, u = w.real("t"), w.real("s"), w.real("u")
        return Sys(w, 3, lambda p: (
            {"A": line(p[0], p[1]), "B": line(p[1], p[2])},
            [(cr.XLength(), ("A",), (t,)), (cr.YLength(), ("B",), (s,)), (cr.Vertical(), ("B",), ()),
             (cr.XLength(), ("A",), (u,))])), ["A/Point0", "A/Point1", "B/Point1"]
    if kind == "box":
        t, s = w.real("t"), w.real("s")

        def build(p):
            return ({"Q": P.Quadrilateral(None, list(p))},
                    [(cr.Box(), ("Q",), ()), (cr.XLength(), ("Q/Line0",), (t,)), (cr.YLength(), ("Q/Line1",), (s,))])
        return Sys(w, 4, build), [f"Q/Line{i}/Point0" for i in range(4)]
    if kind == "orthogonal":
        return Sys(w, 3, lambda p: ({"A": line(p[0], p[1]), "B": line(p[1], p[2])},
                                    [(cr.Orthogonal(), ("A", "B"), ())])), ["A/Point0", "A/Point1", "B/Point1"]
    if kind == "parallel fixed":
        t = w.vec("t")
        return Sys(w, 4, lambda p: (
            {"A": line(p[0], p[1]), "B": line(p[2], p[3])},
            [(cr.Parallel(), ("A", "B"), ()), (cr.Fix(), ("A/Point1",), (t,)), (cr.Orthogonal(), ("B", "A"), ())])), \
            ["A/Point0", "A/Point1", "B/Point0", "B/Point1"]
    if kind == "length":
        t = w.real("t")
        return Sys(w, 2, lambda p: ({"A": line(*p)}, [(cr.Length(), ("A",), (t,))])), ["A/Point0", "A/Point1"]
    if kind == "length and fix":
        t, s = w.real("t"), w.vec("s")
        return Sys(w, 2, lambda p: ({"A": line(*p)}, [(cr.Length(), ("A",), (t,)), (cr.Fix(), ("A/Point0",), (s,))])), \
            ["A/Point0", "A/Point1"]
    if kind == "relative":
        t = w.real("t")
        return Sys(w, 3, lambda p: ({"A": line(p[0], p[1]), "B": line(p[2], p[1])},
                                    [(cr.RelativeLength(), ("A", "B"), (t,))])), ["A/Point0", "A/Point1", "B/Point0"]
    if kind == "point line":
        t = w.real("t")
        return Sys(w, 3, lambda p: ({"A": line(p[0], p[1]), "B": p[2]},
                                    [(cr.PointToLineDistance(), ("B", "A"), (False, t))])), ["A/Point0", "A/Point1", "B"]
    if kind.startswith("many"):
        n = int(kind[4:])
        ts = [w.vec(f"t{i}") for i in range(n)]
        return Sys(w, n, lambda p: ({f"P{i}": p[i] for i in range(n)},
                                    [(cr.Fix(), (f"P{i}",), (ts[i],)) for i in range(n)])), [f"P{i}" for i in range(n)]
    if kind == "squares":
        t = w.vec("t")
        sq = w.m.constructions.transform_constraint(w.m.constructions.Coordinate() ** 2)
        return Sys(w, 1, lambda p: ({"A": p[0]}, [(sq, ("A",), (t,))])), ["A"]
    if kind == "square and fix":
        t, u = w.vec("t"), w.vec("u")
        sq = w.m.constructions.transform_constraint(w.m.constructions.Coordinate() ** 2)
        return Sys(w, 2, lambda p: ({"A": p[0], "B": p[1]}, [(cr.Fix(), ("A",), (u,)), (sq, ("B",), (t,))])), ["A", "B"]
    if kind == "directed":
        n, t = w.vec("n"), w.real("t")
        return Sys(w, 2, lambda p: ({"A": p[0], "B": p[1]}, [(cr.DirectedDistance(), ("A", "B"), (n, t))])), ["A", "B"]
    if kind == "scaled":
        a, b, t, u = w.real("a", lo=0), w.real("b", lo=0), w.real("t"), w.real("u")
        w.assume((a >= 0.001) & (a <= 1000) & (b >= 0.001) & (b <= 1000))
        return Sys(w, 2, lambda p: ({"A": p[0], "B": p[1]},
                                    [(cr.DirectedDistance(), ("A", "B"), (w.arr([a, 0]), t)),
                                     (cr.DirectedDistance(), ("A", "B"), (w.arr([0, b]), u))])), ["A", "B"]
    raise KeyError(kind)


AFFINE = ("fix", "fix twice", "shared", "box", "directed", "scaled")
NONLIN = ("orthogonal", "parallel fixed", "length", "length and fix", "relative", "point line")
NEVER = {"abs_tol": -1.0, "rel_tol": -1.0}


def _start(w, s):
    xs = w.reals("x", 2 * s.pts)
    _distinct(w, s, xs)
    return xs


def _distinct(w, s, xs):
    """No two points coincide (lengths are not differentiable there)."""
    for i in range(s.pts):
        for j in range(i):
            w.assume((xs[2 * i] - xs[2 * j]) ** 2 + (xs[2 * i + 1] - xs[2 * j + 1]) ** 2 != 0)


def _solve(w, s, xs, paths, args=(), **kw):
    L, pts = s.layout(xs)
    before = [list(p.value) for p in pts]
    ids = [p.value for p in pts]
    params = L.flat_constraints()[2]
    sol, info = w.m.solver.solve(L, *args, **kw)
    for p, b, v in zip(pts, before, ids):
        w.true("input kept", p.value is v)
        w.eq("input coordinates kept", list(p.value), b)
    w.eq("input tree kept", [k for k, _ in w.m.containers.iter_flat("", L.root_prim)],
         [k for k, _ in w.m.containers.iter_flat("", sol)])
    for pa, pb in zip(params, L.flat_constraints()[2]):
        w.true("parameters kept", pa is pb)
    return s.coords(sol, paths), info


def step(w, kind, n):
    """Every one of n iterations is a least-squares Newton step; errors are the residual norms."""
    s, paths = _system(w, kind)
    it = [_start(w, s)]
    errs = []
    w.assume(w.norm(list(s.residual(w.arr(it[0])))) != 0)
    for k in range(1, n + 1):
        x, info = _solve(w, s, it[0], paths, max_iter=k, **NEVER)
        r = s.residual(w.arr(it[-1]))
        J = s.jacobian(w.arr(it[-1]))
        d = [a - b for a, b in zip(x, it[-1])]
        m, nn = len(r), len(d)
        lin = [sum((J[i][j] * d[j] for j in range(nn)), r[i]) for i in range(m)]
        for j in range(nn):
            w.eq("least-squares step", sum((J[i][j] * lin[i] for i in range(m)), 0.0), 0.0)
        errs.append(w.norm(list(r)))
        w.eq("one error per iteration", [len(info["abs_errs"]), len(info["rel_errs"])], [k, k])
        w.eq("absolute errors", list(info["abs_errs"]), errs)
        w.eq("relative errors", list(info["rel_errs"]), [e / errs[0] for e in errs])
        it.append(x)
        if kind in NONLIN:
            _distinct(w, s, x)


def stop(w, kind, limit, how):
    """Iteration stops exactly when a tolerance is met or the limit is reached."""
    s, paths = _system(w, kind)
    x0 = _start(w, s)
    at, rt = w.real("abs_tol", lo=0), w.real("rel_tol", lo=0)
    if how == "positional":
        x, info = _solve(w, s, x0, paths, args=(at, rt, limit))
    else:
        x, info = _solve(w, s, x0, paths, max_iter=limit, abs_tol=at, rel_tol=rt, method="newton")
    n = len(info["abs_errs"])
    w.true("limit", n <= limit)
    w.eq("reports in step", len(info["rel_errs"]), n)
    if limit == 0:
        w.eq("unchanged", x, x0)
        return
    w.true("at least one iteration", n >= 1)
    it, errs = x0, []
    for k in range(1, n + 1):
        errs.append(w.norm(list(s.residual(w.arr(it)))))
        if k == 1:
            w.assume(errs[0] != 0)
        met = (errs[-1] < at) | (errs[-1] < rt * errs[0])
        possibly = (errs[-1] <= at) | (errs[-1] <= rt * errs[0])
        if k < n:
            w.true("no tolerance was met earlier", _not(met))
        elif n < limit:
            w.true("stopped because a tolerance is met", possibly)
        it, _ = _solve(w, s, x0, paths, max_iter=k, **NEVER)
    w.eq("absolute errors", list(info["abs_errs"]), errs)
    w.eq("last iterate", x, it)


def direct(w, kind, method, variants):
    """The solver functions called directly, with their own defaults, do what `solve` does."""
    s, paths = _system(w, kind)
    x0 = _start(w, s)
    w.assume(w.norm(list(s.residual(w.arr(x0)))) >= 1)
    f = {"newton": w.m.solver.solve_newton, "minimize": w.m.solver.solve_minimize}[method]
    at, rt = w.real("abs_tol", lo=0, hi=0.5), w.real("rel_tol", lo=0, hi=0.5)
    every = (((), {}), ((at, rt), {}), ((), {"rel_tol": rt}), ((at, rt, 2), {}), ((), {"max_iter": 1, "abs_tol": at}))
    for args, kw in every[variants]:
        a, ia = f(s.layout(x0)[0], *args, **kw)
        b, ib = w.m.solver.solve(s.layout(x0)[0], *args, method=method, **kw)
        w.eq("same iterations", [len(ia["abs_errs"]), len(ia["rel_errs"])], [len(ib["abs_errs"]), len(ib["rel_errs"])])
        w.eq("same answer", s.coords(a, paths), s.coords(b, paths))
        w.eq("same errors", list(ia["abs_errs"]) + list(ia["rel_errs"]), list(ib["abs_errs"]) + list(ib["rel_errs"]))
    if method == "newton" and kind == "fix":
        # the method is Newton's unless said otherwise
        c, ic = w.m.solver.solve(s.layout(x0)[0], at, rt)
        d, id_ = w.m.solver.solve(s.layout(x0)[0], at, rt, method="newton")
        w.eq("default method", s.coords(c, paths), s.coords(d, paths))
        w.eq("default method errors", list(ic["abs_errs"]), list(id_["abs_errs"]))
    for m in ("Newton", "", "newton-krylov", None):
        w.raises("unknown method", lambda: w.m.solver.solve(s.layout(x0)[0], method=m), (ValueError, KeyError, TypeError, AssertionError, NotImplementedError))


def _not(b):
    return ~b if hasattr(b, "e") else not b


def cases(tier):
    th = tier == "thorough"
    out = []
    for k in AFFINE:
        for n in (1, 2, 3):
            out.append(Case(f"step {k} {n}", step, kind=k, n=n))
    for k, n in (("many17", 1), ("many7", 2)):
        out.append(Case(f"step {k} {n}", step, kind=k, n=n))
    for k in NONLIN:
        for n in (1, 2, 3) if th else (1, 2) if k in ("orthogonal", "parallel fixed", "length") else (1,):
            out.append(Case(f"step {k} {n}", step, witness=None if n == 1 else 0, kind=k, n=n))
    for k in ("fix", "fix twice", "directed") + (("shared", "box", "orthogonal", "length") if th else ()):
        for lim in (0, 1, 2, 3):
            out.append(Case(f"stop {k} {lim}", stop, kind=k, limit=lim, how="keyword" if lim % 2 else "positional"))
    for k in ("squares", "square and fix"):
        for n in (1, 2, 3):
            out.append(Case(f"step {k} {n}", step, witness=None if n == 1 else 0, kind=k, n=n))
            out.append(Case(f"stop {k} {n}", stop, kind=k, limit=n, how="keyword" if n % 2 else "positional"))
    for n in (4, 6, 8, 12):
        out.append(Case(f"step square and fix {n}", step, witness=0, kind="square and fix", n=n))
        out.append(Case(f"step squares {n}", step, witness=0, kind="squares", n=n))
    for n in (4, 5):
        out.append(Case(f"stop fix twice {n}", stop, kind="fix twice", limit=n, how="positional"))
    out.append(Case(f"step fix twice 10", step, kind="fix twice", n=10))
    out.append(Case("direct fix twice", direct, kind="fix twice", method="newton", variants=slice(0, 1)))
    out.append(Case("direct fix", direct, kind="fix", method="newton", variants=slice(0, 2)))
    out.append(Case("direct fix more", direct, kind="fix", method="newton", variants=slice(2, 5)))
    return out
