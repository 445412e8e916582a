"""Interpret jaxprs of jax.numpy functions over symbolic scalars.

The jax function itself is traced by jax (its own code decides the jaxpr);
only the resulting primitive operations are given symbolic meaning here.
"""
from __future__ import annotations

import functools
import math
import operator

import jax
import jax.numpy as jnp
import numpy as np
import z3

from . import core
from .core import Unsupported
from .real import SymBool, SymReal, mk, mkbool, atan2, power, lift, trig, Poly

_cache: dict = {}


def _h():
    from . import hooks
    return hooks


def call(f, args, kwargs):
    """Call a jax function on arguments with symbolic leaves."""
    H = _h()
    leaves = []

    def lower(x):
        if isinstance(x, (SymReal, SymBool)):
            leaves.append(_obj(x))
            return ("L", len(leaves) - 1, (), isinstance(x, SymBool))
        if isinstance(x, np.ndarray) and x.dtype == object:
            leaves.append(np.asarray(x))
            b = x.size > 0 and all(isinstance(v, (SymBool, bool, np.bool_)) for v in x.ravel())
            return ("L", len(leaves) - 1, x.shape, b)
        if isinstance(x, (list, tuple)) and H.any_sym((x,)):
            vals = [lower(v) for v in x]
            return ("T" if isinstance(x, tuple) else "S", vals)
        if isinstance(x, (np.ndarray, jax.Array)):
            return ("C", x)
        return ("C", x)

    la = [lower(a) for a in args]
    lk = {k: lower(v) for k, v in kwargs.items()}
    shapes = []
    for i, l in enumerate(leaves):
        shapes.append(l.shape)
    kinds = [False] * len(leaves)

    def mark(t):
        if t[0] == "L":
            kinds[t[1]] = t[3]
        elif t[0] in "TS":
            for v in t[1]:
                mark(v)
    for t in la + list(lk.values()):
        mark(t)

    def rebuild(t, xs):
        if t[0] == "L":
            return xs[t[1]]
        if t[0] == "T":
            return tuple(rebuild(v, xs) for v in t[1])
        if t[0] == "S":
            return [rebuild(v, xs) for v in t[1]]
        return t[1]

    def g(*xs):
        return f(*[rebuild(t, xs) for t in la], **{k: rebuild(t, xs) for k, t in lk.items()})

    def sig(t):
        if t[0] == "L":
            return ("L", t[1], t[2], t[3])
        if t[0] in "TS":
            return (t[0], tuple(sig(v) for v in t[1]))
        v = t[1]
        if isinstance(v, (np.ndarray, jax.Array)):
            a = np.asarray(v)
            return ("A", a.shape, str(a.dtype), a.tobytes())
        try:
            hash(v)
            return ("C", type(v), v)
        except TypeError:
            return ("R", repr(v))

    try:
        key = (f, tuple(sig(t) for t in la), tuple(sorted((k, sig(t)) for k, t in lk.items())))
        hash(key)
    except TypeError:
        key = None
    ent = _cache.get(key) if key is not None else None
    if ent is None:
        structs = [jax.ShapeDtypeStruct(s, np.bool_ if b else np.float64) for s, b in zip(shapes, kinds)]
        closed, out_shape = jax.make_jaxpr(g, return_shape=True)(*structs)
        tree = jax.tree_util.tree_structure(out_shape)
        ent = (closed, tree)
        if key is not None:
            _cache[key] = ent
    closed, tree = ent
    outs = eval_jaxpr(closed.jaxpr, closed.consts, leaves)
    outs = [_out(o) for o in outs]
    return jax.tree_util.tree_unflatten(tree, outs)


def _out(o):
    H = _h()
    a = np.asarray(o)
    if a.dtype == object:
        if a.ndim == 0:
            v = a[()]
            return v
        return H.wrap(a)
    return a


def _obj(x):
    a = np.empty((), dtype=object)
    a[()] = x
    return a


def _symarr(a):
    return isinstance(a, np.ndarray) and a.dtype == object


def eval_jaxpr(jaxpr, consts, args):
    env = {}

    def read(v):
        if isinstance(v, jax.extend.core.Literal):
            return np.asarray(v.val)
        return env[v]

    for v, c in zip(jaxpr.constvars, consts):
        env[v] = np.asarray(c)
    for v, a in zip(jaxpr.invars, args):
        env[v] = a
    for eqn in jaxpr.eqns:
        ins = [read(v) for v in eqn.invars]
        outs = eval_eqn(eqn, ins)
        for v, o in zip(eqn.outvars, outs):
            env[v] = o
    return [read(v) for v in jaxpr.outvars]


import jax.extend  # noqa: E402
import jax.extend.core  # noqa: E402


def eval_eqn(eqn, ins):
    p = eqn.primitive
    name = p.name
    params = eqn.params
    if name in ("jit", "pjit", "closed_call", "core_call", "remat", "checkpoint", "custom_jvp_call",
                "custom_vjp_call", "custom_jvp_call_jaxpr", "custom_vjp_call_jaxpr"):
        sub = params.get("jaxpr") or params.get("call_jaxpr") or params.get("fun_jaxpr")
        if hasattr(sub, "consts"):
            return eval_jaxpr(sub.jaxpr, sub.consts, ins)
        return eval_jaxpr(sub, (), ins)
    if not any(_symarr(i) for i in ins):
        out = p.bind(*[jnp.asarray(i) for i in ins], **params)
        outs = out if p.multiple_results else [out]
        return [np.asarray(o) for o in outs]
    if name == "cond":
        idx = ins[0]
        branches = params["branches"]
        n = len(branches)
        v = np.asarray(idx).ravel()[0] if _symarr(idx) else int(idx)
        if isinstance(v, (SymBool, SymReal)):
            for k in range(n - 1):
                if bool((v if isinstance(v, SymReal) else mk(Poly.const(int(bool(v))))) <= k):
                    v = k
                    break
            else:
                v = n - 1
        b = branches[min(max(int(v), 0), n - 1)]
        return eval_jaxpr(b.jaxpr, b.consts, ins[1:])
    if name in MOVE:
        return [move(p, params, ins)]
    if name in ELEM:
        return [elem(ELEM[name], ins, params)]
    if name in SPECIAL:
        r = SPECIAL[name](ins, params, eqn)
        return r if isinstance(r, list) else [r]
    raise Unsupported(f"jax primitive {name}")


# ---- data movement -------------------------------------------------------------

MOVE = {"broadcast_in_dim", "reshape", "squeeze", "expand_dims", "concatenate", "slice", "transpose", "rev",
        "dynamic_slice", "gather", "pad", "scatter", "dynamic_update_slice", "split_", "copy", "copy_p",
        "stop_gradient", "real", "device_put", "optimization_barrier_", "reduce_precision", "select_and_gather"}
_IDX_ARGS = {"dynamic_slice": 1, "gather": 1, "scatter": None, "dynamic_update_slice": 2}


def move(p, params, ins):
    """Run the primitive on positions and pick elements."""
    pool = [None]
    nins = []
    name = p.name
    for k, a in enumerate(ins):
        a = np.asarray(a)
        is_index = (name == "dynamic_slice" and k >= 1) or (name == "gather" and k == 1) \
            or (name == "scatter" and k == 1) or (name == "dynamic_update_slice" and k >= 2)
        if is_index:
            if a.dtype == object:
                a = np.array([int(x) for x in a.ravel()]).reshape(a.shape)
            nins.append(jnp.asarray(a))
            continue
        start = len(pool)
        pool.extend(list(a.ravel()))
        nins.append(jnp.asarray(np.arange(start, start + a.size, dtype=np.int64).reshape(a.shape)))
    prm = dict(params)
    if name == "gather" and prm.get("fill_value", None) is not None:
        prm["fill_value"] = 0
    if name in ("real", "reduce_precision"):
        idx = np.asarray(nins[0])
    else:
        idx = np.asarray(p.bind(*nins, **prm))
    out = np.empty(idx.shape, dtype=object)
    flat = idx.ravel()
    o = [None] * flat.size
    for k, i in enumerate(flat):
        if not 0 < i < len(pool):
            o[k] = math.nan
        else:
            o[k] = pool[i]
    of = np.empty(flat.size, dtype=object)
    for k, x in enumerate(o):
        of[k] = x
    return of.reshape(out.shape)


# ---- elementwise ---------------------------------------------------------------

def elem(f, ins, params):
    arrs = [np.asarray(a) for a in ins]
    shape = np.broadcast_shapes(*[a.shape for a in arrs])
    arrs = [np.broadcast_to(a, shape) for a in arrs]
    out = np.empty(shape, dtype=object)
    for i in np.ndindex(shape):
        out[i] = f(params, *[_scal(a[i]) for a in arrs])
    return out


def _scal(x):
    if isinstance(x, np.generic):
        return x.item()
    if isinstance(x, np.ndarray) and x.ndim == 0:
        return x.item()
    return x


def _div(_, a, b):
    if not isinstance(a, (SymReal, SymBool)) and not isinstance(b, (SymReal, SymBool)):
        with np.errstate(all="ignore"):
            return float(np.divide(float(a), float(b)))
    return operator.truediv(a, b)


def _sqrt(_, a):
    if isinstance(a, SymReal):
        return a.sqrt()
    return math.sqrt(a) if a >= 0 else math.nan


def _sign(_, a):
    if isinstance(a, SymReal):
        if bool(a == 0):
            return 0.0
        return 1.0 if bool(a > 0) else -1.0
    return float(np.sign(a))


def _max(_, a, b):
    if _isnan(a) or _isnan(b):
        return math.nan
    return a if bool(a >= b) else b


def _min(_, a, b):
    if _isnan(a) or _isnan(b):
        return math.nan
    return a if bool(a <= b) else b


def _isnan(a):
    return isinstance(a, float) and a != a


def _pow(_, a, b):
    if isinstance(a, (SymReal,)) or isinstance(b, SymReal):
        return a ** b if isinstance(a, SymReal) else b.__rpow__(a)
    return float(np.power(float(a), float(b)))


def _not(_, a):
    return ~a if isinstance(a, SymBool) else (not a)


def _logic(op):
    def f(_, a, b):
        if isinstance(a, SymBool):
            return getattr(a, op)(b)
        if isinstance(b, SymBool):
            return getattr(b, op)(a)
        return {"__and__": a and b, "__or__": a or b, "__xor__": bool(a) != bool(b)}[op]
    return f


def _cmp(op):
    def f(_, a, b):
        r = op(a, b)
        return r
    return f


def _fn1(name, mf):
    def f(_, a):
        if isinstance(a, SymReal):
            return getattr(a, name)()
        try:
            return mf(a)
        except ValueError:
            return math.nan
    return f


def _atan2(_, a, b):
    if isinstance(a, SymReal) or isinstance(b, SymReal):
        return atan2(a, b)
    return math.atan2(a, b)


def _rem(_, a, b):
    # C-like remainder (sign of the dividend)
    if isinstance(a, SymReal) or isinstance(b, SymReal):
        q = a / b
        if not isinstance(q, SymReal):
            return math.nan
        return a - b * q.__trunc__()
    return math.fmod(a, b)


def _convert(params, a):
    d = np.dtype(params["new_dtype"])
    if isinstance(a, SymBool):
        if d.kind == "b":
            return a
        return float(a) if d.kind == "f" else int(a)
    if isinstance(a, SymReal):
        if d.kind == "b":
            return bool(a)
        if d.kind in "iu" and a.kind not in ("int", "npint"):
            return a.__trunc__()
        return a
    return d.type(a).item()


def _select(params, which, *cases):
    if isinstance(which, SymBool):
        which = bool(which)
    elif isinstance(which, SymReal):
        which = int(which)
    return cases[int(which)]


def _clamp(_, lo, x, hi):
    return _min(_, _max(_, lo, x), hi)


ELEM = {
    "add": lambda _, a, b: a + b, "add_any": lambda _, a, b: a + b,
    "sub": lambda _, a, b: a - b, "mul": lambda _, a, b: a * b, "div": _div,
    "neg": lambda _, a: -a, "abs": lambda _, a: abs(a), "sign": _sign, "sqrt": _sqrt,
    "rsqrt": lambda _, a: _div(_, 1.0, _sqrt(_, a)), "square": lambda _, a: a * a,
    "integer_pow": lambda p, a: _pow(p, a, p["y"]) if p["y"] >= 0 else _div(p, 1.0, _pow(p, a, -p["y"])),
    "pow": _pow, "max": _max, "min": _min, "not": _not,
    "and": _logic("__and__"), "or": _logic("__or__"), "xor": _logic("__xor__"),
    "eq": _cmp(operator.eq), "ne": _cmp(operator.ne), "lt": _cmp(operator.lt), "le": _cmp(operator.le),
    "gt": _cmp(operator.gt), "ge": _cmp(operator.ge), "eq_to": _cmp(operator.eq),
    "is_finite": lambda _, a: True if isinstance(a, SymReal) else bool(np.isfinite(a)),
    "cos": _fn1("cos", math.cos), "sin": _fn1("sin", math.sin),
    "acos": _fn1("arccos", math.acos), "asin": _fn1("arcsin", math.asin), "atan": _fn1("arctan", math.atan),
    "atan2": _atan2, "rem": _rem, "floor": lambda _, a: a.__floor__() if isinstance(a, SymReal) else math.floor(a),
    "ceil": lambda _, a: a.__ceil__() if isinstance(a, SymReal) else math.ceil(a),
    "round": lambda _, a: a.__round__() if isinstance(a, SymReal) else float(round(a)),
    "convert_element_type": _convert, "select_n": _select, "clamp": _clamp,
    "copy": lambda _, a: a, "copy_p": lambda _, a: a, "stop_gradient": lambda _, a: a,
    "nextafter": lambda _, a, b: a,
}


# ---- reductions and contractions -------------------------------------------------

def _reduce(f, init):
    def g(ins, params, eqn):
        a = np.asarray(ins[0])
        axes = params["axes"]
        keep = [i for i in range(a.ndim) if i not in axes]
        t = np.transpose(a, keep + list(axes))
        sh = tuple(a.shape[i] for i in keep)
        t = t.reshape(sh + (-1,))
        out = np.empty(sh, dtype=object)
        for i in np.ndindex(sh):
            vals = [_scal(x) for x in t[i]]
            out[i] = functools.reduce(f, vals) if vals else init
        return out
    return g


def _argred(better):
    def g(ins, params, eqn):
        a = np.asarray(ins[0])
        (ax,) = params["axes"]
        t = np.moveaxis(a, ax, -1)
        sh = t.shape[:-1]
        out = np.empty(sh, dtype=np.int64)
        for i in np.ndindex(sh):
            vals = [_scal(x) for x in t[i]]
            b = 0
            for k in range(1, len(vals)):
                if bool(better(vals[k], vals[b])):
                    b = k
            out[i] = b
        return out
    return g


def _dot_general(ins, params, eqn):
    a, b = (np.asarray(x) for x in ins)
    (ca, cb), (ba, bb) = params["dimension_numbers"]
    fa = [i for i in range(a.ndim) if i not in ca and i not in ba]
    fb = [i for i in range(b.ndim) if i not in cb and i not in bb]
    at = np.transpose(a, list(ba) + fa + list(ca))
    bt = np.transpose(b, list(bb) + fb + list(cb))
    bs = tuple(a.shape[i] for i in ba)
    fas = tuple(a.shape[i] for i in fa)
    fbs = tuple(b.shape[i] for i in fb)
    K = int(np.prod([a.shape[i] for i in ca])) if ca else 1
    at = at.reshape(bs + (int(np.prod(fas)), K))
    bt = bt.reshape(bs + (int(np.prod(fbs)), K))
    out = np.empty(bs + (at.shape[-2], bt.shape[-2]), dtype=object)
    for i in np.ndindex(bs):
        for r in range(at.shape[-2]):
            for c in range(bt.shape[-2]):
                s = 0
                for k in range(K):
                    x, y = _scal(at[i][r, k]), _scal(bt[i][c, k])
                    if not isinstance(x, SymReal) and x == 0 and isinstance(y, SymReal):
                        continue
                    if not isinstance(y, SymReal) and y == 0 and isinstance(x, SymReal):
                        continue
                    s = s + x * y
                out[i + (r, c)] = s if isinstance(s, SymReal) else float(s)
    return out.reshape(bs + fas + fbs)


def _cum(f):
    def g(ins, params, eqn):
        a = np.array(ins[0], dtype=object)
        ax = params["axis"]
        t = np.moveaxis(a, ax, -1)
        if params.get("reverse"):
            t = t[..., ::-1]
        t = t.copy()
        for i in np.ndindex(t.shape[:-1]):
            for k in range(1, t.shape[-1]):
                t[i + (k,)] = f(t[i + (k - 1,)], t[i + (k,)])
        if params.get("reverse"):
            t = t[..., ::-1]
        return np.moveaxis(t, -1, ax)
    return g


def _sort(ins, params, eqn):
    if len(ins) != 1 or np.asarray(ins[0]).ndim != 1:
        raise Unsupported("sort")
    xs = [_scal(x) for x in np.asarray(ins[0])]
    out = []
    for x in xs:
        k = len(out)
        while k and bool(x < out[k - 1]):
            k -= 1
        out.insert(k, x)
    r = np.empty(len(out), dtype=object)
    for i, x in enumerate(out):
        r[i] = x
    return r


def _scatter_add(ins, params, eqn):
    # positions by pushing each update alone through the real primitive
    op, idx, upd = (np.asarray(x) for x in ins)
    out = np.array(op, dtype=object)
    for k in np.ndindex(upd.shape):
        u = np.zeros(upd.shape)
        u[k] = 1
        hit = np.asarray(eqn.primitive.bind(jnp.zeros(op.shape), jnp.asarray(idx), jnp.asarray(u), **params))
        for i in np.argwhere(hit != 0):
            i = tuple(i)
            out[i] = out[i] + upd[k]
    return out


SPECIAL = {
    "reduce_sum": _reduce(lambda a, b: a + b, 0.0),
    "reduce_prod": _reduce(lambda a, b: a * b, 1.0),
    "reduce_max": _reduce(lambda a, b: _max(None, a, b), -math.inf),
    "reduce_min": _reduce(lambda a, b: _min(None, a, b), math.inf),
    "reduce_and": _reduce(lambda a, b: _logic("__and__")(None, a, b), True),
    "reduce_or": _reduce(lambda a, b: _logic("__or__")(None, a, b), False),
    "argmin": _argred(lambda a, b: a < b), "argmax": _argred(lambda a, b: a > b),
    "dot_general": _dot_general, "cumsum": _cum(operator.add), "cumprod": _cum(operator.mul),
    "sort": _sort, "scatter-add": _scatter_add, "scatter_add": _scatter_add,
}
