"""Run-time helpers the instrumented code calls; dispatch on symbolic values."""
from __future__ import annotations

import builtins
import collections
import functools
import itertools
import math
import operator
import string
import types
from fractions import Fraction

import jax
import jax.numpy as jnp
import numpy as np

from . import core
from .core import Unsupported
from .real import SymBool, SymReal, Poly, lift, mk, atan2, ZERO
from .sdict import SDict, SSet, KeysView
from .strs import SymStr, join, make, parts_of
from .rec import Recorder, register_calls

jax.tree_util.register_pytree_with_keys(
    SDict,
    lambda d: (tuple((jax.tree_util.DictKey(k), d[k]) for k in sorted(d)), tuple(sorted(d))),
    lambda keys, vals: SDict(zip(keys, vals)))


# ------------------------------------------------------------------ arrays

class SArr(np.ndarray):
    """object ndarray of symbolic / concrete scalars, standing for a float array."""
    __array_priority__ = 1000

    @property
    def at(self):
        return _At(self)

    def astype(self, dtype=None, *a, **k):
        if dtype in (object, "O"):
            return np.ndarray.astype(self, object)
        return self.copy()

    def item(self, *a):
        return np.ndarray.item(self, *a)

    def block_until_ready(self):
        return self

    def __array_function__(self, func, types, args, kwargs):
        return np_call(func, args, kwargs)

    def sum(self, axis=None, **k):
        r = np.add.reduce(np.asarray(self), axis=axis) if axis is not None else \
            functools.reduce(operator.add, list(np.asarray(self).ravel()), 0)
        return wrap(r)

    def mean(self, axis=None, **k):
        n = self.size if axis is None else self.shape[axis]
        return self.sum(axis) / n

    def dot(self, o):
        return jax_call(jnp.dot, (self, o), {})

    def max(self, axis=None, **k):
        return jax_call(jnp.max, (self,), {"axis": axis})

    def min(self, axis=None, **k):
        return jax_call(jnp.min, (self,), {"axis": axis})

    def argmin(self, axis=None, **k):
        return jax_call(jnp.argmin, (self,), {"axis": axis})

    def argmax(self, axis=None, **k):
        return jax_call(jnp.argmax, (self,), {"axis": axis})

    def prod(self, axis=None, **k):
        return jax_call(jnp.prod, (self,), {"axis": axis})

    def __getitem__(self, i):
        return np.ndarray.__getitem__(self, index(i))

    def __setitem__(self, i, v):
        np.ndarray.__setitem__(self, index(i), v)

    def __bool__(self):
        if self.size == 1:
            return bool(np.ndarray.item(self))
        return np.ndarray.__bool__(self)

    def __float__(self):
        if self.size == 1:
            return float(np.ndarray.item(self))
        raise TypeError("only length-1 arrays can be converted to Python scalars")

    def __repr__(self):
        return f"array({[repr(x) for x in np.asarray(self).ravel()]})"

    __str__ = __repr__

    def __format__(self, spec):
        return repr(self)


class _At:
    def __init__(self, a):
        self.a = a

    def __getitem__(self, i):
        return _AtI(self.a, i)


class _AtI:
    def __init__(self, a, i):
        self.a, self.i = a, i

    def _do(self, f):
        r = self.a.copy()
        r[self.i] = f(r[self.i])
        return r

    def set(self, v, **k):
        return self._do(lambda _: v)

    def add(self, v, **k):
        return self._do(lambda x: x + v)

    def multiply(self, v, **k):
        return self._do(lambda x: x * v)

    mul = multiply

    def divide(self, v, **k):
        return self._do(lambda x: x / v)

    def get(self, **k):
        return self.a[self.i]


def index(i):
    """An index whose masks and positions are concrete: the path splits over symbolic ones."""
    if isinstance(i, tuple):
        return tuple(index(x) for x in i)
    if isinstance(i, list) and any(isinstance(x, (SymBool, SymReal)) for x in i):
        i = sarr(i)
    if isinstance(i, SymBool):
        return bool(i)
    if isinstance(i, np.ndarray) and i.dtype == object:
        xs = list(np.asarray(i).ravel())
        if xs and all(isinstance(x, (bool, np.bool_, SymBool)) for x in xs):
            return np.array([bool(x) for x in xs], dtype=bool).reshape(i.shape)
        return np.array([x.__index__() for x in xs], dtype=int).reshape(i.shape)
    return i


def sarr(items, shape=None):
    a = np.empty(len(items), dtype=object)
    for i, x in enumerate(items):
        a[i] = x
    if shape is not None:
        a = a.reshape(shape)
    return a.view(SArr)


def sarr_map(f, arr):
    arr = np.asarray(arr)
    return sarr([f(unnp(x)) for x in arr.ravel()], arr.shape)


def unnp(x):
    return x


def wrap(r):
    """Give results of object computations the array flavour of the program."""
    if isinstance(r, np.ndarray):
        if r.dtype == object:
            if not any(isinstance(x, (SymReal, SymBool)) for x in r.ravel()):
                try:
                    if all(isinstance(x, (bool, np.bool_)) for x in r.ravel()) and r.size:
                        return r.astype(bool).view(np.ndarray)
                    return np.array([float(x) for x in r.ravel()], dtype=float).reshape(r.shape)
                except (TypeError, ValueError):
                    return r
            return r.view(SArr)
        return r
    if isinstance(r, tuple) and type(r) is tuple:
        return tuple(wrap(x) for x in r)
    if type(r) is list:
        return [wrap(x) for x in r]
    return r


def is_sym(x):
    if isinstance(x, (SymReal, SymBool, SymStr)):
        return True
    if isinstance(x, np.ndarray):
        return x.dtype == object and x.size > 0 and any(
            isinstance(v, (SymReal, SymBool)) for v in x.ravel())
    return False


def any_sym(xs, depth=0):
    for x in xs:
        if is_sym(x):
            return True
        if depth < 4:
            t = type(x)
            if t in (list, tuple) or isinstance(x, (list, tuple)):
                if any_sym(x, depth + 1):
                    return True
            elif isinstance(x, dict):
                if any_sym(x.values(), depth + 1):
                    return True
    return False


def _desym(x):
    """Object arrays left without symbolic entries become float arrays."""
    if isinstance(x, SArr):
        return wrap(np.asarray(x))
    if type(x) in (list, tuple) and any(isinstance(v, (SArr, list, tuple)) for v in x):
        return type(x)(_desym(v) for v in x)
    return x


def has_symstr(x, depth=0):
    if isinstance(x, SymStr):
        return True
    if depth < 3 and isinstance(x, (list, tuple)):
        return any(has_symstr(v, depth + 1) for v in x)
    return False


def np_out(r):
    """Results of jax functions on concrete data become numpy arrays."""
    if isinstance(r, jax.Array):
        return np.asarray(r)
    if type(r) is tuple:
        return tuple(np_out(x) for x in r)
    if type(r) is list:
        return [np_out(x) for x in r]
    return r


# ---------------------------------------------------------------- syntax helpers

def fstr(*parts):
    out = []
    for p in parts:
        if isinstance(p, str):
            out.append(p)
            continue
        v, conv, spec = p
        if isinstance(v, SymStr) and conv in (-1, 115) and not spec:
            out.extend(v.parts)
            continue
        if conv == 114:
            v = repr(v)
        elif conv == 115:
            v = str(v)
        elif conv == 97:
            v = ascii(v)
        out.append(format(v, spec or ""))
    return make(out)


def dictlit(*items):
    d = SDict()
    for it in items:
        if len(it) == 1:
            d.update(it[0])
        else:
            d[it[0]] = it[1]
    return d


def dictcomp(gen):
    d = SDict()
    for k, v in gen:
        d[k] = v
    return d


def setlit(items):
    items = list(items)
    if any(has_symstr(x) for x in items):
        return SSet(items)
    try:
        return set(items)
    except TypeError:
        return SSet(items)


def contains(container, item):
    if isinstance(item, SymStr) and isinstance(container, str):
        return bool(SymStr((container,)).__contains__(item))
    if isinstance(container, (dict, set, frozenset)) and not isinstance(container, (SDict, SSet)):
        if has_symstr(item) or any(has_symstr(k) for k in container):
            return any(bool(k == item) for k in container)
    t = type(container)
    if t in (type({}.keys()), ) and has_symstr(item):
        return any(bool(k == item) for k in container)
    return item in container


def notcontains(container, item):
    return not contains(container, item)


def _fixj(x):
    """A concrete jax array meeting a symbolic operand is used as numpy."""
    return np.asarray(x) if isinstance(x, jax.Array) and not isinstance(x, jax.core.Tracer) else x


def _bin(op, name):
    def f(a, b):
        if is_sym(a) or is_sym(b):
            a, b = _fixj(a), _fixj(b)
            r = op(a, b)
            return wrap(r) if isinstance(r, np.ndarray) and not isinstance(r, SArr) else r
        return op(a, b)
    f.__name__ = name
    return f


add = _bin(operator.add, "add")
sub = _bin(operator.sub, "sub")
mul = _bin(operator.mul, "mul")
truediv = _bin(operator.truediv, "truediv")
floordiv = _bin(operator.floordiv, "floordiv")
pow = _bin(operator.pow, "pow")


def matmul(a, b):
    if is_sym(a) or is_sym(b):
        return jax_call(jnp.matmul, (a, b), {})
    return operator.matmul(a, b)


def mod(a, b):
    if isinstance(a, str):
        args = b if isinstance(b, tuple) else (b,)
        if any(isinstance(x, SymStr) for x in args):
            bits = a.split("%s")
            if len(bits) == len(args) + 1 and "%" not in "".join(bits):
                out = [bits[0]]
                for x, t in zip(args, bits[1:]):
                    out.extend(parts_of(x) if isinstance(x, (str, SymStr)) else [str(x)])
                    out.append(t)
                return make(out)
            raise Unsupported("% formatting")
        return a % b
    if is_sym(a) or is_sym(b):
        return operator.mod(_fixj(a), _fixj(b))
    return a % b


def deco(d):
    if d is jax.jit:
        return lambda f: f
    if isinstance(d, functools.partial) and d.func is jax.jit:
        return lambda f: f
    if d in _WRAPPED:
        return _WRAPPED[d]
    return d


# ------------------------------------------------------------------ overrides

_OV = {}          # callable -> replacement
_WRAPPED = {}     # decorators


def ov(*fs):
    def d(g):
        for f in fs:
            _OV[f] = g
        return g
    return d


_NPTYPES = {
    "float": (float, np.floating, np.generic, object),
}


def _kinds(x):
    """Concrete classes a SymReal stands for."""
    k = x.kind
    if k == "float":
        return (float,)
    if k == "int":
        return (int,)
    if k == "npfloat":
        return (np.float64,)
    if k == "npint":
        return (np.int64,)
    return (float,)


@ov(isinstance)
def _isinstance(x, t):
    if isinstance(x, SymReal):
        return any(_issub(k, t) for k in _kinds(x))
    if isinstance(x, SymBool):
        return _issub(bool, t)
    if isinstance(x, SymStr):
        return _issub(str, t)
    if isinstance(x, SArr):
        if isinstance(x, t):
            return True
        # arrays produced by jax functions are jax arrays in the real program
        return False
    if isinstance(x, Recorder):
        return x.vx_isinstance(t)
    return isinstance(x, t)


def _issub(k, t):
    if isinstance(t, tuple):
        return any(_issub(k, u) for u in t)
    if isinstance(t, types.UnionType):
        return any(_issub(k, u) for u in t.__args__)
    try:
        return issubclass(k, t)
    except TypeError:
        return False


@ov(type)
def _type(*a):
    if len(a) == 1:
        x = a[0]
        if isinstance(x, SymReal):
            return _kinds(x)[0]
        if isinstance(x, SymBool):
            return bool
        if isinstance(x, SymStr):
            return str
        if isinstance(x, SDict) and type(x) is SDict:
            return dict
        if isinstance(x, SSet):
            return set
        if isinstance(x, SArr):
            return np.ndarray
    return type(*a)


@ov(float)
def _float(*a):
    if a and isinstance(a[0], SymReal):
        return mk(a[0].p, "float")
    if a and isinstance(a[0], np.ndarray) and is_sym(a[0]):
        if a[0].size == 1:
            return _float(np.asarray(a[0]).ravel()[0])
        raise TypeError("only 0-dimensional arrays can be converted to Python scalars")
    return float(*a)


@ov(np.float64)
def _npfloat(*a):
    if a and isinstance(a[0], SymReal):
        return mk(a[0].p, "npfloat")
    if a and is_sym(a[0]):
        return a[0]
    return np.float64(*a)


@ov(int)
def _int(*a):
    if a and isinstance(a[0], SymReal):
        if a[0].kind in ("int", "npint"):
            return mk(a[0].p, "int")
        return mk(a[0].__trunc__().p, "int")
    if a and isinstance(a[0], SymStr):
        return int(a[0].concrete(), *a[1:])
    return int(*a)


@ov(bool)
def _bool(*a):
    return bool(*a)


@ov(str)
def _str(*a, **k):
    if a and isinstance(a[0], SymStr):
        return a[0]
    return str(*a, **k)


@ov(repr)
def _repr(x):
    return repr(x)


@ov(dict)
def _dict(*a, **k):
    return SDict(*a, **k)


@ov(set)
def _set(*a):
    items = list(a[0]) if a else []
    return SSet(items)


@ov(frozenset)
def _fset(*a):
    items = list(a[0]) if a else []
    if any(has_symstr(x) for x in items):
        return SSet(items)
    return frozenset(items)


class SDefault(SDict):
    def __init__(self, factory=None, *a, **k):
        self.default_factory = factory
        SDict.__init__(self, *a, **k)

    def __missing__(self, key):
        if self.default_factory is None:
            raise KeyError(key)
        v = self.default_factory()
        self[key] = v
        return v


@ov(collections.defaultdict)
def _defaultdict(*a, **k):
    return SDefault(*a, **k)


@ov(collections.OrderedDict)
def _odict(*a, **k):
    return SDict(*a, **k)


class SCounter(SDict):
    def __init__(self, it=()):
        SDict.__init__(self)
        for x in it:
            self[x] = self.get(x, 0) + 1

    def __missing__(self, key):
        return 0


@ov(collections.Counter)
def _counter(*a, **k):
    return SCounter(*a)


@ov(hash)
def _hash(x):
    return hash(x)


@ov(sum)
def _sum(it, start=0):
    r = start
    for x in it:
        r = add(r, x)
    return r


@ov(math.isclose)
def _mclose(a, b, rel_tol=1e-9, abs_tol=0.0):
    if is_sym(a) or is_sym(b):
        d = abs(sub(a, b))
        m1, m2 = abs(a), abs(b)
        m = m1 if bool(m1 >= m2) else m2
        t = mul(m, rel_tol)
        if not bool(t >= abs_tol):
            t = abs_tol
        return d <= t
    return math.isclose(a, b, rel_tol=rel_tol, abs_tol=abs_tol)


def _m(name):
    f = getattr(math, name)

    def g(*a):
        if any_sym(a):
            j = {"acos": "arccos", "asin": "arcsin", "atan": "arctan", "atan2": "arctan2",
                 "fabs": "abs", "dist": None, "pow": "power"}.get(name, name)
            if name == "dist":
                return jax_call(jnp.linalg.norm, (sub(np_call(np.asarray, (a[0],), {}), np_call(np.asarray, (a[1],), {})),), {})
            if name == "hypot" and len(a) != 2:
                return np_call(np.linalg.norm, (list(a),), {})
            return jax_call(getattr(jnp, j), a, {})
        return f(*a)
    _OV[f] = g


for _n in ("sqrt", "hypot", "atan2", "acos", "asin", "atan", "cos", "sin", "fabs", "dist", "pow",
           "degrees", "radians", "floor", "ceil", "isnan", "isinf", "isfinite", "copysign"):
    _m(_n)


@ov(jax.jit)
def _jit(f=None, **k):
    if f is None:
        return lambda g: g
    return f


# ---- numpy / jax.numpy --------------------------------------------------------

STRUCT = {
    "array", "asarray", "asanyarray", "atleast_1d", "atleast_2d", "concatenate", "stack",
    "hstack", "vstack", "column_stack", "append", "reshape", "ravel", "squeeze", "copy", "split",
    "array_split", "take", "repeat", "tile", "flip", "transpose", "expand_dims", "broadcast_to",
    "moveaxis", "roll", "diff", "insert", "delete", "ascontiguousarray", "atleast_3d", "swapaxes",
    "array_equal", "size", "shape", "ndim", "full", "full_like", "ones_like", "zeros_like", "empty_like",
    "zeros", "ones", "empty", "isscalar", "iterable", "nonzero", "result_type", "issubdtype", "can_cast",
    "array_repr", "array_str", "array2string", "may_share_memory", "shares_memory", "block", "flatnonzero",
    "outer", "fromiter", "unique", "apply_along_axis", "vectorize", "frompyfunc", "ix_", "resize", "pad",
    "copyto", "put", "rot90", "fliplr", "flipud",
}


def _to_items(x):
    """Nested lists with arrays / jax arrays -> object ndarray."""
    if isinstance(x, jax.Array):
        return np.asarray(x)
    if isinstance(x, (list, tuple)):
        return [_to_items(v) for v in x]
    if isinstance(x, np.ndarray) and x.ndim == 0 and x.dtype == object:
        return x[()]
    return x


def _obj_array(x):
    """np.array(x, dtype=object) that never treats SymReal as a sequence."""
    if isinstance(x, np.ndarray):
        return np.asarray(x)
    x = _to_items(x)
    if isinstance(x, list):
        elems = [_obj_array(v) for v in x]
        if not elems:
            return np.empty(0, dtype=object)
        shapes = {e.shape for e in elems}
        if len(shapes) != 1:
            raise ValueError("setting an array element with a sequence. The requested array has an inhomogeneous shape")
        out = np.empty((len(elems),) + elems[0].shape, dtype=object)
        for i, e in enumerate(elems):
            out[i] = e if e.ndim else e[()]
        return out
    out = np.empty((), dtype=object)
    out[()] = x
    return out


def _seq_arrays(seq):
    return [np.asarray(_obj_array(x)) for x in seq]


def np_call(f, args, kwargs):
    """A numpy function with at least one symbolic argument."""
    name = getattr(f, "__name__", "")
    kwargs = dict(kwargs)
    if name in ("array", "asarray", "asanyarray", "ascontiguousarray", "copy"):
        a = _obj_array(args[0])
        if name in ("asarray", "asanyarray", "ascontiguousarray") and isinstance(args[0], np.ndarray):
            return args[0]
        a = np.array(a, dtype=object, copy=True)
        nd = kwargs.get("ndmin", 0)
        while a.ndim < nd:
            a = a[None]
        return a.view(SArr)
    if name in STRUCT:
        kwargs.pop("dtype", None)
        a = []
        for x in args:
            if isinstance(x, (list, tuple)) and any_sym((x,)):
                a.append(_seq_arrays(x) if name in ("concatenate", "stack", "hstack", "vstack", "column_stack", "block") else np.asarray(_obj_array(x)))
            elif isinstance(x, SymReal):
                a.append(_obj_array(x))
            elif isinstance(x, np.ndarray):
                a.append(np.asarray(x))
            elif isinstance(x, jax.Array):
                a.append(np.asarray(x))
            else:
                a.append(x)
        if name == "array_equal":
            x, y = (_obj_array(v) for v in args[:2])
            if x.shape != y.shape:
                return False
            return all(bool(p == q) for p, q in zip(x.ravel(), y.ravel()))
        if name == "full":
            return sarr([args[1]] * int(np.prod(args[0])), args[0] if isinstance(args[0], tuple) else (args[0],))
        if name == "full_like":
            return sarr([args[1]] * np.size(np.asarray(args[0])), np.shape(args[0]))
        if name in ("zeros_like", "ones_like", "empty_like"):
            return np.full(np.shape(np.asarray(_obj_array(args[0]))), 0.0 if name != "ones_like" else 1.0)
        fn = getattr(np, name, f)
        return wrap(fn(*a, **kwargs))
    if name in NPSPEC:
        return NPSPEC[name](*args, **kwargs)
    path = _np_path(f)
    j = _resolve_jnp(path or name)
    if j is not None:
        kwargs.pop("dtype", None)
        args = [_obj_array(x).view(SArr) if isinstance(x, (list, tuple)) and any_sym((x,)) else x for x in args]
        return jax_call(j, args, kwargs)
    # last resort: run numpy on the object arrays
    a = [np.asarray(_obj_array(x)) if any_sym((x,)) else x for x in args]
    return wrap(f(*a, **kwargs))


def _np_path(f):
    m = getattr(f, "__module__", "") or ""
    n = getattr(f, "__name__", "")
    if "linalg" in m:
        return "linalg." + n
    return n


def _resolve_jnp(path):
    o = jnp
    for p in path.split("."):
        o = getattr(o, p, None)
        if o is None:
            return None
    return o


def elementwise2(g):
    def f(x, y, *a, **k):
        x, y = np.asarray(_obj_array(x)), np.asarray(_obj_array(y))
        x, y = np.broadcast_arrays(x, y)
        r = np.empty(x.shape, dtype=object)
        for i in np.ndindex(x.shape):
            r[i] = g(x[i], y[i])
        return wrap(r) if r.ndim else r[()]
    return f


def elementwise1(g):
    def f(x, *a, **k):
        x = np.asarray(_obj_array(x))
        r = np.empty(x.shape, dtype=object)
        for i in np.ndindex(x.shape):
            r[i] = g(x[i])
        return wrap(r) if r.ndim else r[()]
    return f


def _isclose1(rtol, atol, equal_nan=False):
    def g(a, b):
        if _nf(a) or _nf(b):
            return bool(a == b)
        t = add(atol, mul(rtol, abs(b)))
        return abs(sub(a, b)) <= t
    return g


def _nf(x):
    return isinstance(x, (float, np.floating)) and not math.isfinite(x)


def sym_isclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    return elementwise2(_isclose1(rtol, atol))(a, b)


def sym_allclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    r = np.asarray(_obj_array(sym_isclose(a, b, rtol, atol)))
    return all(bool(x) for x in r.ravel())


def _finite1(x):
    return True if isinstance(x, (SymReal, SymBool)) else bool(np.isfinite(x))


def _toreal(x):
    return x


NPSPEC = {
    "isclose": sym_isclose,
    "allclose": sym_allclose,
    "isfinite": elementwise1(_finite1),
    "isnan": elementwise1(lambda x: False if isinstance(x, SymReal) else bool(np.isnan(x))),
    "isinf": elementwise1(lambda x: False if isinstance(x, SymReal) else bool(np.isinf(x))),
    "hypot": elementwise2(lambda x, y: np_sqrt(add(mul(x, x), mul(y, y)))),
    "arctan2": elementwise2(lambda y, x: atan2(y, x)),
    "degrees": elementwise1(lambda x: mul(x, 180 / math.pi)),
    "rad2deg": elementwise1(lambda x: mul(x, 180 / math.pi)),
    "radians": elementwise1(lambda x: mul(x, math.pi / 180)),
    "deg2rad": elementwise1(lambda x: mul(x, math.pi / 180)),
    "absolute": elementwise1(abs),
    "abs": elementwise1(abs),
    "fabs": elementwise1(abs),
    "sqrt": elementwise1(lambda x: np_sqrt(x)),
    "square": elementwise1(lambda x: mul(x, x)),
    "arccos": elementwise1(lambda x: x.arccos() if isinstance(x, SymReal) else float(np.arccos(x))),
    "arcsin": elementwise1(lambda x: x.arcsin() if isinstance(x, SymReal) else float(np.arcsin(x))),
    "cos": elementwise1(lambda x: x.cos() if isinstance(x, SymReal) else float(np.cos(x))),
    "sin": elementwise1(lambda x: x.sin() if isinstance(x, SymReal) else float(np.sin(x))),
    "mod": elementwise2(lambda x, y: mod(x, y)),
    "remainder": elementwise2(lambda x, y: mod(x, y)),
    "floor_divide": elementwise2(lambda x, y: floordiv(x, y)),
    "floor": elementwise1(lambda x: x.__floor__() if isinstance(x, SymReal) else float(np.floor(x))),
    "ceil": elementwise1(lambda x: x.__ceil__() if isinstance(x, SymReal) else float(np.ceil(x))),
    "real": lambda x: x,
    "nan_to_num": elementwise1(lambda x: x if isinstance(x, SymReal) else float(np.nan_to_num(x))),
    "ndim": lambda x: _obj_array(x).ndim,
    "size": lambda x, *a: _obj_array(x).size,
    "shape": lambda x: _obj_array(x).shape,
    "isscalar": lambda x: isinstance(x, (SymReal, SymBool, SymStr)),
    "sum": lambda x, axis=None, **k: wrap(_obj_array(x)).sum(axis) if isinstance(wrap(_obj_array(x)), SArr) else np.sum(x, axis=axis),
}


def np_sqrt(x):
    return x.sqrt() if isinstance(x, SymReal) else (float(np.sqrt(x)) if not isinstance(x, SymBool) else x)


def jax_call(f, args, kwargs):
    from . import jaxi
    name = getattr(f, "__name__", "")
    if name in ("array", "asarray", "copy") or name in STRUCT:
        k = dict(kwargs)
        k.pop("dtype", None)
        return np_call(getattr(np, name, f), args, k)
    if name in NPSPEC and name not in ("sum",):
        k = {a: b for a, b in kwargs.items() if a != "dtype"}
        return NPSPEC[name](*args, **k)
    return jaxi.call(f, args, kwargs)


# ------------------------------------------------------------- the call hook

_modname_cache: dict = {}


def _origin(f):
    """'np', 'jax', 'repo' or '' for a callable."""
    try:
        m = getattr(f, "__module__", None)
    except Exception:  # noqa: BLE001
        return ""
    if m is None:
        if isinstance(f, np.ufunc):
            return "np"
        s = getattr(f, "__self__", None)
        return ""
    if not isinstance(m, str):
        return ""
    if m.startswith("mpllayout"):
        return "repo"
    if m.startswith("numpy"):
        return "np"
    if m.startswith("jax") or m.startswith("jaxlib"):
        return "jax"
    if m.startswith("scipy"):
        return "scipy"
    if m.startswith("matplotlib"):
        return "mpl"
    return ""


def _wrap_callable(f):
    """Library callables handed to C code (map, reduce, ...) keep the hook."""
    if isinstance(f, (types.FunctionType, types.BuiltinFunctionType, np.ufunc, type)) or callable(f):
        try:
            if f in _OV or (_origin(f) in ("np", "jax") and not isinstance(f, type)):
                return lambda *a, **k: call(f, *a, **k)
        except TypeError:
            return f
    return f


_HOF = {map, filter, functools.reduce, functools.partial, itertools.accumulate, itertools.starmap, sorted, max, min}


def call(f, *args, **kwargs):
    # fast paths -------------------------------------------------------------
    try:
        g = _OV.get(f)
    except TypeError:
        g = None
    if g is not None:
        return g(*args, **kwargs)
    tf = type(f)
    if tf is types.FunctionType:
        m = f.__module__
        if m is not None and m.startswith("mpllayout"):
            c = core.CTX
            if c is not None:
                c.stats.functions.add(f"{m[10:]}.{f.__qualname__}")
            return f(*args, **kwargs)
    elif tf is types.MethodType:
        ff = f.__func__
        m = getattr(ff, "__module__", None)
        if m is not None and m.startswith("mpllayout"):
            c = core.CTX
            if c is not None:
                c.stats.functions.add(f"{m[10:]}.{ff.__qualname__}")
            return f(*args, **kwargs)
    elif tf is types.BuiltinMethodType or tf is types.BuiltinFunctionType:
        s = f.__self__
        if type(s) is str:
            if any(has_symstr(a) or isinstance(a, (types.GeneratorType, map)) for a in args) \
                    or kwargs and any(has_symstr(a) for a in kwargs.values()):
                if f.__name__ == "join":
                    return join(s, list(args[0]))
                if f.__name__ == "format":
                    return _str_format(s, args, kwargs)
                return getattr(SymStr((s,)), f.__name__)(*args, **kwargs)
            return f(*args, **kwargs)
        if type(s) is dict and args and has_symstr(args[0]):
            return getattr(SDict(s), f.__name__)(*args, **kwargs) if f.__name__ in (
                "get", "__contains__", "__getitem__") else f(*args, **kwargs)
    if tf is np.ndarray or isinstance(f, Recorder):
        return f(*args, **kwargs)
    r = register_calls(f, args, kwargs)
    if r is not NotImplemented:
        return r
    if f in _HOF_SAFE(f) and args:
        args = (_wrap_callable(args[0]),) + args[1:]
        if "key" in kwargs and kwargs["key"] is not None:
            kwargs["key"] = _wrap_callable(kwargs["key"])
        return f(*args, **kwargs)
    o = _origin(f)
    if o in ("np", "jax", "scipy") or (o == "" and isinstance(f, np.ufunc)):
        return lib_call(o or "np", f, args, kwargs)
    s = getattr(f, "__self__", None)
    if s is not None and isinstance(s, np.ndarray) and any_sym(args) and not isinstance(s, SArr):
        return getattr(s.astype(object).view(SArr), f.__name__)(*args, **kwargs)
    if s is not None and isinstance(s, jax.Array) and any_sym(args):
        return getattr(np.asarray(s).astype(object).view(SArr), f.__name__)(*args, **kwargs)
    if isinstance(s, (np.ufunc,)):
        if any_sym(args):
            return wrap(f(*[np.asarray(_obj_array(a)) if any_sym((a,)) else a for a in args], **kwargs))
    return f(*args, **kwargs)


def _str_format(template, args, kwargs):
    """str.format with symbolic strings as plain fields."""
    out, auto = [], 0
    for lit, name, spec, conv in string.Formatter().parse(template):
        out.append(lit)
        if name is None:
            continue
        if name == "":
            name, auto = str(auto), auto + 1
        if not name.isdigit() and not name.isidentifier():
            v = args[int(name[0])] if name[0].isdigit() else kwargs[name.split(".")[0].split("[")[0]]
            if has_symstr(v):
                raise Unsupported("format field " + name)
            out.append(("{" + name + ("!" + conv if conv else "") + ":" + spec + "}").format(*args, **kwargs))
            continue
        v = args[int(name)] if name.isdigit() else kwargs[name]
        if isinstance(v, SymStr):
            if spec or conv not in (None, "s"):
                raise Unsupported("format field " + name)
            out.extend(parts_of(v))
        else:
            out.append(("{0" + ("!" + conv if conv else "") + ":" + spec + "}").format(v))
    return make([p for p in out if not isinstance(p, str) or p])


def _HOF_SAFE(f):
    try:
        hash(f)
        return _HOF
    except TypeError:
        return ()


def lib_call(o, f, args, kwargs):
    from . import stubs
    try:
        st = stubs.STUBS.get(f)
    except TypeError:
        st = None
    if st is not None:
        r = st(f, args, kwargs)
        if r is not NotImplemented:
            return r
    if isinstance(f, type):
        if f in (np.ndarray,):
            return f(*args, **kwargs)
        if any_sym(args) and issubclass(f, np.generic):
            return args[0]
        return f(*args, **kwargs)
    if any_sym(args) or any_sym(kwargs.values()):
        if o == "np":
            return np_call(f, args, kwargs)
        if o == "jax":
            m = getattr(f, "__module__", "")
            if "tree" in m:
                return f(*args, **kwargs)
            return jax_call(f, args, kwargs)
        raise Unsupported(f"scipy call {getattr(f, '__name__', f)}")
    if o in ("np", "jax") and "tree" not in (getattr(f, "__module__", "") or ""):
        args = [_desym(a) for a in args]
    r = f(*args, **kwargs)
    if o == "jax" and not callable(r):
        m = getattr(f, "__module__", "") or ""
        if "tree" in m:
            return r
        return np_out(r)
    return r
