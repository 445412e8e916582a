"""C14: the minimizing solver hands over the right problem and reports the constraint error."""
import jax
import jax.numpy as jnp
import numpy as np

from vx.minim import Minimizer
from vx.run import Case

BOUNDS = ("12 layouts of up to 34 unknowns with affine, polynomial and algebraic residuals; up to 2 iterations (3 in the "
          "thorough tier, up to 12 on two layouts) at arbitrary real iterates; all starting coordinates, targets and tolerances; the requested "
          "iteration limits 0, 1, 3 and the default")
ASSUMPTIONS = ["scipy.optimize.minimize evaluates what it is given at the start and at arbitrary iterates, reports each "
               "iterate to the callback and returns the last one; it performs no iteration from a stationary point"]


def _values(sol, paths):
    return [c for p in paths for c in sol[p].value]


def _norm2(s, xs):
    r = s.residual(xs)
    return sum((e * e for e in r), 0.0)


def problem(w, kind, limit, how, tols, iters=None):
    systems = w.props("c12")
    s, paths = systems._system(w, kind)
    x0 = systems._start(w, s)
    L, pts = s.layout(x0)
    before = [list(p.value) for p in pts]
    S0 = _norm2(s, w.arr(x0))
    w.assume(S0 != 0)
    at, rt = (w.real("abs_tol", lo=0), w.real("rel_tol", lo=0)) if tols else (-1.0, -1.0)
    def regular(rec, x):
        order = _order(w, rec["x0"], x0)
        if order is not None and kind in systems.NONLIN:
            y = list(x)
            for i, j in enumerate(order):
                y[j] = x[i]
            systems._distinct(w, s, y)

    with Minimizer(w, regular, iters) as log:
        if how == "default":
            sol, info = w.m.solver.solve(L, at, rt, method="minimize")
        elif how == "keyword":
            sol, info = w.m.solver.solve(L, abs_tol=at, rel_tol=rt, max_iter=limit, method="minimize")
        else:
            sol, info = w.m.solver.solve(L, at, rt, limit, "minimize")
    w.eq("one optimization", len(log.calls), 1)
    rec = log.calls[0]
    w.eq("iteration limit", rec["options"].get("maxiter"), 10 if how == "default" else limit)
    w.true("unconstrained", rec["bounds"] is None and not rec["constraints"])
    # the unknowns: every point's coordinates, in some order, starting at the layout's primitives
    w.eq("number of unknowns", len(rec["x0"]), len(x0))
    order = _order(w, rec["x0"], x0)
    w.true("starts at the layout's primitives", order is not None)

    def coords(v):
        out = [None] * len(v)
        for i, j in enumerate(order):
            out[j] = v[i]
        return out
    # objective and derivative
    dS0 = None
    for x, v, g in rec["evals"]:
        c = coords(x)
        S = _norm2(s, w.arr(c))
        w.eq("objective is a multiple of the squared residual", v * S0, rec["evals"][0][1] * S)
        w.true("positive multiple", rec["evals"][0][1] > 0)
        w.true("a derivative is given", g is not None)
        dS = jax.grad(lambda y: jnp.sum(s.residual(y) ** 2))(w.arr(c))
        w.eq("derivative", [e * S0 for e in coords(g)], [rec["evals"][0][1] * e for e in dS])
    # answer
    x = coords(rec["result"].x)
    w.eq("answer", _values(sol, paths), x)
    for p, b in zip(pts, before):
        w.eq("input kept", list(p.value), b)
    # report
    n = len(rec["iterates"])
    w.eq("one error per iteration", [len(info["abs_errs"]), len(info["rel_errs"])], [n, n])
    e0 = w.sqrt(S0)
    for k, (x, _) in enumerate(rec["iterates"]):
        e = w.sqrt(_norm2(s, w.arr(coords(x))))
        w.eq("absolute error", info["abs_errs"][k], e)
        w.eq("relative error", info["rel_errs"][k], e / e0)
        if not tols:
            w.true("not stopped", rec["stopped"] is None)
        elif rec["stopped"] == k:
            w.true("stopped because a tolerance is met", (e <= at) | (e <= rt * e0))
        else:
            w.true("stopped when a tolerance is met", (e >= at) & (e >= rt * e0))


def direct(w, kind, variant):
    """The minimizing solver called directly, with its own defaults, does what `solve` does."""
    systems = w.props("c12")
    s, paths = systems._system(w, kind)
    x0 = systems._start(w, s)
    w.assume(_norm2(s, w.arr(x0)) >= 1)
    at, rt = w.real("abs_tol", lo=0, hi=0.5), w.real("rel_tol", lo=0, hi=0.5)
    args, kw = (((), {}), ((at, rt, 2), {}), ((), {"max_iter": 1, "abs_tol": at}), ((at,), {}))[variant]
    recs = []
    for f in (w.m.solver.solve_minimize, lambda *a, **k: w.m.solver.solve(*a, method="minimize", **k)):
        with Minimizer(w) as log:
            sol, info = f(s.layout(x0)[0], *args, **kw)
        recs.append((log.calls[-1], len(info["abs_errs"]), len(info["rel_errs"]), sol))
    a, b = recs
    w.eq("same limit", a[0]["options"].get("maxiter"), b[0]["options"].get("maxiter"))
    w.eq("same start", list(a[0]["x0"]), list(b[0]["x0"]))
    w.eq("same objective", a[0]["evals"][0][1], b[0]["evals"][0][1])


def _order(w, got, want):
    """Position in `want` of every entry of `got`: the layout keeps its own order of unknowns."""
    out = []
    for g in got:
        k = None
        for j, x in enumerate(want):
            if j not in out and _same(w, g, x):
                k = j
                break
        if k is None:
            return None
        out.append(k)
    return out


def _same(w, g, x):
    if w.symbolic:
        from vx.real import lift
        return lift(g) == lift(x)
    return abs(float(g) - float(x)) <= 1e-9


def cases(tier):
    th = tier == "thorough"
    out = []
    kinds = ("fix", "fix twice", "shared", "directed", "orthogonal", "length", "length and fix", "relative",
             "point line", "parallel fixed", "box")
    for k in kinds:
        out.append(Case(f"objective {k}", problem, kind=k, limit=3, how="keyword", tols=False))
    out.append(Case("objective many17", problem, kind="many17", limit=3, how="keyword", tols=False))
    for k in ("fix", "fix twice", "length", "directed") + (("orthogonal", "relative", "shared") if th else ()):
        out.append(Case(f"tolerance {k}", problem, kind=k, limit=3, how="positional", tols=True))
    out.append(Case("long tolerance", problem, kind="fix", limit=20, how="positional", tols=True, iters=8))
    out.append(Case("long", problem, kind="fix twice", limit=20, how="keyword", tols=False, iters=12))
    for lim in (0, 1):
        out.append(Case(f"limit {lim}", problem, kind="fix", limit=lim, how="positional", tols=False))
    out.append(Case("default limit", problem, kind="fix", limit=None, how="default", tols=True))
    for v in range(4):
        out.append(Case(f"direct {v}", direct, kind="fix", variant=v))
    return out
