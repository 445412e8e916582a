"""Contract stubs for numerical kernels outside the repository.

  numpy/jax/scipy lstsq, pinv, solve, inv : exact rational linear algebra when
      the matrix is constant; otherwise a fresh vector constrained by the
      normal equations A^T A d = A^T b (d = 0 when b is identically 0);
      the same vector whenever the arguments are the same.
  jax.jacfwd/jacrev/jacobian/grad/value_and_grad : exact derivative of the
      polynomial/algebraic expression the function computes on this path.
  scipy.optimize.minimize : calls fun/jac at the start and at symbolic
      iterates, reports them to the callback, returns the last one.
"""
from __future__ import annotations

import math
from fractions import Fraction

import jax
import jax.numpy as jnp
import numpy as np
import z3

from . import core, real
from .core import Unsupported
from .real import Poly, SymReal, mk, lift, diff, atom, ATOMS, ZERO

STUBS = {}
LOG = []     # events of the current path, for harnesses


def stub(*fs):
    def d(g):
        for f in fs:
            if f is not None:
                STUBS[f] = g
        return g
    return d


def polys(a):
    from .hooks import _obj_array
    return [_poly(x) for x in _obj_array(a).ravel()]


def _poly(x):
    p = lift(x)
    if p is None or isinstance(p, tuple):
        raise Unsupported("non-finite value in linear algebra")
    return p


def matrix(a):
    from .hooks import _obj_array
    a = _obj_array(a)
    if a.ndim == 1:
        a = a.reshape(-1, 1)
    return [[_poly(x) for x in row] for row in a]


# ---- exact rational linear algebra ----------------------------------------------

def q_rref(M):
    M = [list(r) for r in M]
    rows, cols = len(M), len(M[0]) if M else 0
    piv = []
    r = 0
    for c in range(cols):
        p = next((i for i in range(r, rows) if M[i][c]), None)
        if p is None:
            continue
        M[r], M[p] = M[p], M[r]
        iv = 1 / M[r][c]
        M[r] = [x * iv for x in M[r]]
        for i in range(rows):
            if i != r and M[i][c]:
                f = M[i][c]
                M[i] = [x - f * y for x, y in zip(M[i], M[r])]
        piv.append(c)
        r += 1
        if r == rows:
            break
    return M, piv


def q_mul(A, B):
    n = len(B)
    cols = len(B[0]) if B else 0
    Bt = [[B[k][j] for k in range(n)] for j in range(cols)]
    out = []
    for row in A:
        nz = [(k, x) for k, x in enumerate(row) if x]
        out.append([sum((x * bt[k] for k, x in nz), Fraction(0)) for bt in Bt])
    return out


def q_T(A):
    return [list(x) for x in zip(*A)]


def q_inv(A):
    n = len(A)
    M = [list(r) + [Fraction(int(i == j)) for j in range(n)] for i, r in enumerate(A)]
    R, piv = q_rref(M)
    if piv[:n] != list(range(n)):
        raise np.linalg.LinAlgError("Singular matrix")
    return [r[n:] for r in R]


def q_pinv(A):
    m, n = len(A), len(A[0])
    R, piv = q_rref(A)
    k = len(piv)
    if k == 0:
        return [[Fraction(0)] * m for _ in range(n)], 0
    C = [[A[i][j] for j in piv] for i in range(m)]
    F = R[:k]
    Ct, Ft = q_T(C), q_T(F)
    X = q_mul(Ft, q_inv(q_mul(F, Ft)))
    Y = q_mul(q_inv(q_mul(Ct, C)), Ct)
    return q_mul(X, Y), k


def const_matrix(A):
    if all(x.is_const() for r in A for x in r):
        return [[x.cval() for x in r] for r in A]
    return None


def _vec(ps, shape=None):
    from .hooks import sarr, wrap
    return wrap(sarr([mk(p) for p in ps], shape))


def _entailed_zero(b):
    """The path condition makes every entry zero."""
    nz = [x for x in b if not x.is_zero()]
    if any(x.is_const() for x in nz):
        return False
    r, _ = core.ctx().solve([z3.Or([x.z3() != 0 for x in nz])], timeout_ms=1500, feas=True)
    return r == "unsat"


def solve_ls(A, bs):
    """Least squares solution vectors (Polys); A list of rows, bs list of columns."""
    m, n = len(A), len(A[0])
    out = []
    for b in bs:
        c = core.ctx()
        # the kernel is a function: equal arguments give equal results
        key = (tuple(tuple(r) for r in A), tuple(b))
        memo = c.__dict__.setdefault("ls_memo", {})
        if key in memo:
            out.append(memo[key])
            continue
        if all(x.is_zero() for x in b) or _entailed_zero(b):
            memo[key] = [ZERO] * n
            out.append(memo[key])
            continue
        q = const_matrix(A)
        if q is not None:
            P, _ = q_pinv(q)
            out.append([_lin(row, b) for row in P])
            continue
        base = c.fresh("d")
        d = memo[key] = [Poly.of(atom("var", (f"{base}_{i}",), f"{base}_{i}")) for i in range(n)]
        # normal equations
        r = []
        for i in range(m):
            s = -b[i]
            for j in range(n):
                s = s + A[i][j] * d[j]
            r.append(s)
        eqs = []
        for j in range(n):
            s = ZERO
            for i in range(m):
                s = s + A[i][j] * r[i]
            if not s.is_zero():
                eqs.append(s.z3() == 0)
        for e in eqs:
            c.add_pc(e)
        LOG.append(("lstsq", A, b, d))
        out.append(d)
    return out


def _lin(row, b):
    s = ZERO
    for x, y in zip(row, b):
        if x:
            s = s + y.scale(x)
    return s


def _ls_common(a, b):
    from .hooks import _obj_array
    A = matrix(a)
    B = _obj_array(b)
    one = B.ndim == 1
    cols = [[_poly(x) for x in B]] if one else [[_poly(x) for x in B[:, k]] for k in range(B.shape[1])]
    xs = solve_ls(A, cols)
    if one:
        x = _vec(xs[0])
    else:
        n = len(xs[0])
        x = _vec([xs[k][i] for i in range(n) for k in range(len(xs))], (n, len(xs)))
    return A, cols, x


def _sym_any(*a):
    from .hooks import any_sym
    return any_sym(a)


try:
    import scipy.linalg as sl
    import scipy.optimize as so
except ImportError:  # pragma: no cover
    sl = so = None


def core_obj(x):
    from .hooks import _obj_array
    return _obj_array(x)


def _truncated(A, b, rc):
    """Least squares that ignores singular values up to rc times the largest; rows at right angles only."""
    def dot(u, v):
        s = ZERO
        for x, y in zip(u, v):
            s = s + x * y
        return s
    m = len(A)
    if any(not dot(A[i], A[j]).is_zero() for i in range(m) for j in range(i)):
        return None
    sq = [dot(r, r) for r in A]
    out = [ZERO] * len(A[0])
    for i in range(m):
        if sq[i].is_zero():
            continue
        keep = all(bool(mk(sq[i]) > rc * rc * mk(sq[j])) for j in range(m) if j != i)
        if keep:
            f = lift(mk(b[i]) / mk(sq[i]))
            out = [o + f * x for o, x in zip(out, A[i])]
    return out


@stub(np.linalg.lstsq, jnp.linalg.lstsq, getattr(sl, "lstsq", None))
def _lstsq(f, args, kwargs):
    a, b = args[0], args[1]
    if not _sym_any(a, b):
        return NotImplemented
    rc = kwargs.get("rcond", args[2] if len(args) > 2 else kwargs.get("cond"))
    if isinstance(rc, (int, float)) and rc > 1e-6:
        n = matrix(a)
        t = _truncated(n, [_poly(x) for x in core_obj(b)], rc) if core_obj(b).ndim == 1 else None
        if t is not None:
            return _vec(t), np.array([]), len(n[0]), np.array([1.0])
        # directions are cut off: anything may come back, a replay decides
        c = core.ctx()
        base = c.fresh("cut")
        cut = [Poly.of(atom("var", (f"{base}_{i}",), f"{base}_{i}")) for i in range(len(n[0]))]
        return _vec(cut), np.array([]), len(n[0]), np.array([1.0])
    A, cols, x = _ls_common(a, b)
    return x, np.array([]), len(A[0]), np.array([1.0])


@stub(np.linalg.pinv, jnp.linalg.pinv, getattr(sl, "pinv", None))
def _pinv(f, args, kwargs):
    q = const_matrix(matrix(args[0]))
    if q is None:
        A = matrix(args[0])
        m = len(A)
        # pinv(A) b is only used through products: model columns as LS solutions
        raise Unsupported("pinv of a symbolic matrix")
    P, _ = q_pinv(q)
    return np.array([[float(x) for x in r] for r in P])


@stub(np.linalg.solve, jnp.linalg.solve, getattr(sl, "solve", None))
def _solve(f, args, kwargs):
    if not _sym_any(args[0], args[1]):
        return NotImplemented
    q = const_matrix(matrix(args[0]))
    if q is not None:
        q_inv(q)     # raises LinAlgError when singular
    A, cols, x = _ls_common(args[0], args[1])
    return x


# ---- derivatives --------------------------------------------------------------------

def _fresh_point(x):
    """Vector of atoms standing for x, with the map back."""
    from .hooks import _obj_array, sarr
    xs = [_poly(v) for v in _obj_array(x).ravel()]
    shape = _obj_array(x).shape
    c = core.ctx()
    ids = []
    ps = []
    back = {}
    used = set()
    for p in xs:
        if len(p.t) == 1:
            (m, q), = p.t.items()
            if q == 1 and len(m) == 1 and m[0][1] == 1 and ATOMS[m[0][0]].kind == "var" and m[0][0] not in used:
                used.add(m[0][0])
                ids.append(m[0][0])
                ps.append(p)
                continue
        a = atom("alias", (p, c.fresh("y")))
        back[a.id] = p
        ids.append(a.id)
        ps.append(Poly.of(a))
    return sarr([mk(p) for p in ps], shape), ids, back


def _result_polys(r):
    from .hooks import _obj_array
    r = _obj_array(r)
    return r.shape, [_poly(v) for v in r.ravel()]


def _back(p, back):
    if not back:
        return p
    return real.subst(p, back)


def _only_x_dependency(x, ids):
    return None


def _jac(f, args, kwargs):
    fun = args[0]
    argnums = kwargs.get("argnums", 0)

    def g(*xs, **kw):
        x, ids, back = _fresh_point(xs[argnums])
        ys = list(xs)
        ys[argnums] = x
        r = fun(*ys, **kw)
        shape, ps = _result_polys(r)
        n = len(ids)
        from .hooks import _obj_array
        xshape = _obj_array(xs[argnums]).shape
        memo = {}
        out = []
        for p in ps:
            for i in ids:
                memo.setdefault(i, {})
                out.append(_back(diff(p, i, memo[i]), back))
        from .hooks import sarr
        arr = np.empty(len(out), dtype=object)
        for k, q in enumerate(out):
            arr[k] = mk(q) if not q.is_const() else float(q.cval())
        arr = arr.reshape(shape + xshape)
        from .hooks import wrap
        return wrap(arr)
    return g


for _f in (jax.jacfwd, jax.jacrev, jax.jacobian):
    STUBS[_f] = lambda f, a, k: _jac(f, a, k)


@stub(jax.grad)
def _grad(f, args, kwargs):
    g = _jac(f, args, kwargs)
    return lambda *x, **k: g(*x, **k)


@stub(jax.value_and_grad)
def _vag(f, args, kwargs):
    g = _jac(f, args, kwargs)
    fun = args[0]
    return lambda *x, **k: (fun(*x, **k), g(*x, **k))


@stub(jax.jvp)
def _jvp(f, args, kwargs):
    raise Unsupported("jvp")


@stub(jax.block_until_ready)
def _bur(f, args, kwargs):
    return args[0]


@stub(jax.device_get, jax.device_put)
def _dg(f, args, kwargs):
    return args[0] if _sym_any(args[0]) else NotImplemented


@stub(jax.vmap)
def _vmap(f, args, kwargs):
    fun = args[0]
    in_axes = kwargs.get("in_axes", args[1] if len(args) > 1 else 0)

    def g(*xs):
        if not _sym_any(*xs):
            return f(fun, *args[1:], **kwargs)(*xs)
        from .hooks import _obj_array, wrap
        ax = in_axes if isinstance(in_axes, tuple) else (in_axes,) * len(xs)
        if any(a not in (0, None) for a in ax):
            raise Unsupported("vmap axes")
        n = next(_obj_array(x).shape[0] for x, a in zip(xs, ax) if a == 0)
        rs = [_obj_array(fun(*[(x[i] if a == 0 else x) for x, a in zip(xs, ax)])) for i in range(n)]
        out = np.empty((n,) + rs[0].shape, dtype=object)
        for i, r in enumerate(rs):
            out[i] = r if r.ndim else r[()]
        return wrap(out)
    return g


# ---- scipy.optimize.minimize ------------------------------------------------------------

MIN_ITERS = 2


class MinimizeLog:
    """What the code under test handed to the optimizer (one per call)."""

    def __init__(self):
        self.calls = []
        self.iters = MIN_ITERS
        self.assume = None       # what is assumed of every iterate


MIN = MinimizeLog()


def outcome(rec):
    """How L-BFGS-B describes the end of a run."""
    if rec["stopped"] is not None:
        return {"success": False, "message": "`callback` raised `StopIteration`.", "status": 99}
    if len(rec["iterates"]) >= rec["options"].get("maxiter", 15000):
        return {"success": False, "message": "STOP: TOTAL NO. OF ITERATIONS REACHED LIMIT", "status": 1}
    return {"success": True, "message": "CONVERGENCE: NORM OF PROJECTED GRADIENT <= PGTOL", "status": 0}


def _minimize(f, args, kwargs):
    import inspect
    ba = inspect.signature(so.minimize).bind(*args, **kwargs)
    ba.apply_defaults()
    a = ba.arguments
    fun, x0 = a["fun"], a["x0"]
    extra = a["args"]
    jac = a["jac"]
    options = dict(a["options"] or {})
    cb = a["callback"]
    from .hooks import _obj_array, sarr
    x0a = sarr([v for v in _obj_array(x0).ravel()])
    n = x0a.size
    c = core.ctx()

    def evalf(x):
        r = fun(x, *extra)
        g = None
        if jac is True:
            r, g = r
        elif callable(jac):
            g = jac(x, *extra)
        r = _obj_array(r).ravel()[0]
        return r, (None if g is None else wrapv(g))

    def wrapv(g):
        return sarr(list(_obj_array(g).ravel()))

    rec = {"x0": x0a, "method": a["method"], "options": options, "tol": a["tol"], "jac": jac,
           "evals": [], "iterates": [], "stopped": None, "result": None, "bounds": a["bounds"], "constraints": a["constraints"]}
    MIN.calls.append(rec)
    v0, g0 = evalf(x0a)
    rec["evals"].append((x0a, v0, g0))
    maxiter = options.get("maxiter", 15000)
    k = int(min(maxiter, MIN.iters))
    if g0 is not None:
        gs = polys(g0)
        if all(p.is_zero() for p in gs) or _entailed_zero(gs):
            k = 0          # a stationary point is returned at once
    # a symbolic number of iterations actually performed
    z = z3.Int(c.fresh("miniters"))
    c.add_pc(z3.And(z >= 0, z <= k))
    k = c.choose(z, k + 1)
    x, v, g = x0a, v0, g0
    for it in range(k):
        base = c.fresh("xk")
        ps = []
        for i in range(n):
            nm = f"{base}_{i}"
            at = atom("var", (nm,), nm)
            c.inputs[nm] = ("real", at.var, "aux")
            ps.append(mk(Poly.of(at)))
        x = sarr(ps)
        if MIN.assume is not None:
            MIN.assume(x)
        v, g = evalf(x)
        rec["evals"].append((x, v, g))
        rec["iterates"].append((x, v))
        if cb is not None:
            params = inspect.signature(cb).parameters
            try:
                if set(params) == {"intermediate_result"}:
                    cb(intermediate_result=so.OptimizeResult(x=x, fun=v))
                else:
                    cb(x)
            except StopIteration:
                rec["stopped"] = it
                break
    res = so.OptimizeResult(x=x, fun=v, jac=g, nit=len(rec["iterates"]), nfev=len(rec["evals"]),
                            **outcome(rec))
    rec["result"] = res
    return res


if so is not None:
    STUBS[so.minimize] = _minimize
