"""Exact symbolic reals: canonical polynomials over atoms, mapped to z3 Reals.

An atom is an input, or a derived real with a defining constraint:
  sqrt(p)    s >= 0 and s*s == p           (created only on paths where p >= 0)
  inv(q)     i*q == 1                      (created only on paths where q != 0)
  angle(y,x) half-turns t in (-1,1] of the direction (x,y), with cos/sin atoms
  pow(b,e)   uninterpreted for symbolic exponents
  floor(p)   integer k, k <= p < k+1
  PI         3.14159 < PI < 3.1416
"""
from __future__ import annotations

import math
from fractions import Fraction

import numpy as np
import z3

from . import core
from .core import Unsupported

Q = Fraction


class Atom:
    __slots__ = ("id", "kind", "args", "name", "var", "extra")

    def __init__(self, id, kind, args, name, extra=None):
        self.id, self.kind, self.args, self.name, self.extra = id, kind, args, name, extra
        self.var = z3.Real(name)


ATOMS: list[Atom] = []
BYKEY: dict = {}
BYNAME: dict = {}


def reset_atoms():
    ATOMS.clear()
    BYKEY.clear()
    BYNAME.clear()
    _defs_cache.clear()


def atom(kind, args, name=None, extra=None) -> Atom:
    key = (kind, args)
    a = BYKEY.get(key)
    if a is None:
        i = len(ATOMS)
        a = Atom(i, kind, args, name or f"{kind}#{i}", extra)
        ATOMS.append(a)
        BYKEY[key] = a
        BYNAME[a.name] = a
    return a


_defs_cache: dict = {}


def definitions(name):
    """Defining z3 constraints of a derived atom, by z3 name."""
    r = _defs_cache.get(name)
    if r is not None:
        return r
    a = BYNAME.get(name)
    out = []
    if a is not None:
        v = a.var
        if a.kind == "sqrt":
            out = [v >= 0, v * v == a.args[0].z3()]
        elif a.kind == "inv":
            out = [v * a.args[0].z3() == 1]
        elif a.kind == "PI":
            out = [v > Q2z(Q(314159, 100000)), v < Q2z(Q(31416, 10000))]
        elif a.kind == "angle":
            y, x = a.args
            c, s, r_ = (b.var for b in a.extra)
            out = [v > -1, v <= 1, c * c + s * s == 1, r_ > 0,
                   x.z3() == r_ * c, y.z3() == r_ * s,
                   z3.Implies(s > 0, z3.And(v > 0, v < 1)),
                   z3.Implies(s < 0, z3.And(v > -1, v < 0)),
                   z3.Implies(z3.And(s == 0, c > 0), v == 0),
                   z3.Implies(z3.And(s == 0, c < 0), v == 1),
                   z3.Implies(c > 0, z3.And(v > Q2z(Q(-1, 2)), v < Q2z(Q(1, 2)))),
                   z3.Implies(z3.And(c == 0, s > 0), v == Q2z(Q(1, 2))),
                   z3.Implies(z3.And(c == 0, s < 0), v == Q2z(Q(-1, 2))),
                   z3.Implies(c < 0, z3.Or(v > Q2z(Q(1, 2)), v < Q2z(Q(-1, 2))))]
        elif a.kind in ("cos", "sin", "rad"):
            pass  # constrained through their angle atom
        elif a.kind == "floor":
            k = z3.Int(a.name + "i")
            p = a.args[0].z3()
            out = [v == z3.ToReal(k), v <= p, p < v + 1]
        elif a.kind == "alias":
            out = [v == a.args[0].z3()]
        elif a.kind == "int":
            out = [v == z3.ToReal(z3.Int(a.name + "i"))]
        if a.kind in ("cos", "sin", "rad") and a.extra is not None:
            out = definitions(a.extra)
    _defs_cache[name] = out
    return out


def Q2z(q):
    q = Q(q)
    return z3.RealVal(f"{q.numerator}/{q.denominator}") if q.denominator != 1 else z3.RealVal(q.numerator)


# ---------------------------------------------------------------- polynomials

def _mono_mul(a, b):
    if not a:
        return b
    if not b:
        return a
    d = dict(a)
    for k, e in b:
        d[k] = d.get(k, 0) + e
    return tuple(sorted(d.items()))


def _mono_key(m):
    return (sum(e for _, e in m), m)


class Poly:
    __slots__ = ("t", "_h", "_z", "nn")
    # nn: built as a sum of squares and other nonnegative terms

    def __init__(self, t):
        self.t = t
        self._h = None
        self._z = None
        self.nn = False

    @staticmethod
    def const(q):
        q = Q(q)
        return Poly({(): q}) if q else Poly({})

    @staticmethod
    def of(a: Atom):
        return Poly({((a.id, 1),): Q(1)})

    def key(self):
        if self._h is None:
            self._h = frozenset(self.t.items())
        return self._h

    def __hash__(self):
        return hash(self.key())

    def __eq__(self, o):
        return isinstance(o, Poly) and self.t == o.t

    def is_const(self):
        return not self.t or (len(self.t) == 1 and () in self.t)

    def cval(self):
        return self.t.get((), Q(0))

    def is_zero(self):
        return not self.t

    def __add__(self, o):
        t = dict(self.t)
        for m, c in o.t.items():
            n = t.get(m, 0) + c
            if n:
                t[m] = n
            else:
                t.pop(m, None)
        r = Poly(t)
        if _nn(self) and _nn(o):
            r.nn = True
        return r

    def __neg__(self):
        return Poly({m: -c for m, c in self.t.items()})

    def __sub__(self, o):
        return self + (-o)

    def scale(self, q):
        if not q:
            return Poly({})
        r = Poly({m: c * q for m, c in self.t.items()})
        r.nn = self.nn and q > 0
        return r

    def __mul__(self, o):
        if self.is_const():
            return o.scale(self.cval())
        if o.is_const():
            return self.scale(o.cval())
        t = {}
        extra = []
        for m1, c1 in self.t.items():
            for m2, c2 in o.t.items():
                m = _mono_mul(m1, m2)
                c = c1 * c2
                red = reduce_mono(m)
                if red is None:
                    n = t.get(m, 0) + c
                    if n:
                        t[m] = n
                    else:
                        t.pop(m, None)
                else:
                    extra.append(red.scale(c))
        r = Poly(t)
        for e in extra:
            r = r + e
        if self is o or self.t == o.t or _nn(self) and _nn(o):
            r.nn = True
        return r

    def pow(self, n):
        r = Poly.const(1)
        b = self
        while n:
            if n & 1:
                r = r * b
            b = b * b if n > 1 else b
            n >>= 1
        return r

    def atoms(self):
        return {i for m in self.t for i, _ in m}

    def lead(self):
        m = max(self.t, key=_mono_key)
        return m, self.t[m]

    def z3(self):
        if self._z is None:
            terms = []
            for m, c in sorted(self.t.items(), key=lambda x: _mono_key(x[0])):
                f = []
                for i, e in m:
                    f.extend([ATOMS[i].var] * e)
                if not f:
                    terms.append(Q2z(c))
                else:
                    x = f[0]
                    for y in f[1:]:
                        x = x * y
                    terms.append(x if c == 1 else Q2z(c) * x)
            if not terms:
                self._z = z3.RealVal(0)
            elif len(terms) == 1:
                self._z = terms[0]
            else:
                self._z = z3.Sum(terms)
        return self._z

    def eval(self, env):
        """Numeric value with atoms' floats from env (atom id -> float)."""
        s = 0.0
        for m, c in self.t.items():
            x = float(c)
            for i, e in m:
                x *= atom_value(ATOMS[i], env) ** e
            s += x
        return s

    def __repr__(self):
        if not self.t:
            return "0"
        out = []
        for m, c in sorted(self.t.items(), key=lambda x: _mono_key(x[0])):
            out.append("*".join([str(c)] + [ATOMS[i].name + (f"^{e}" if e > 1 else "") for i, e in m]))
        return " + ".join(out)


def atom_value(a, env):
    if a.id in env:
        return env[a.id]
    if a.kind == "sqrt":
        v = math.sqrt(max(a.args[0].eval(env), 0.0))
    elif a.kind == "inv":
        v = 1.0 / a.args[0].eval(env)
    elif a.kind == "PI":
        v = math.pi
    elif a.kind == "angle":
        v = math.atan2(a.args[0].eval(env), a.args[1].eval(env)) / math.pi
    elif a.kind == "alias":
        v = a.args[0].eval(env)
    elif a.kind == "floor":
        v = math.floor(a.args[0].eval(env))
    elif a.kind == "cos":
        v = math.cos(math.pi * atom_value(BYNAME[a.extra], env))
    elif a.kind == "sin":
        v = math.sin(math.pi * atom_value(BYNAME[a.extra], env))
    else:
        raise Unsupported(f"no numeric value for {a.name}")
    env[a.id] = v
    return v


_red_depth = 0


def reduce_mono(m):
    """Rewrite a monomial by the atoms' algebraic identities; None if normal."""
    global _red_depth
    d = dict(m)
    for i, e in m:
        a = ATOMS[i]
        k = a.kind
        if k == "sqrt" and e >= 2:
            rest = dict(d)
            if e % 2:
                rest[i] = 1
            else:
                del rest[i]
            return _mono_poly(rest) * a.args[0].pow(e // 2)
        if k == "sin" and e >= 2:
            c = a.args[0]  # Poly of the cos atom
            rest = dict(d)
            if e - 2:
                rest[i] = e - 2
            else:
                del rest[i]
            return _mono_poly(rest) * (Poly.const(1) - c * c)
        if k == "inv":
            q = a.args[0]
            if len(q.t) == 1:
                (qm, _), = q.t.items()
                (qa, qe), = qm  # single atom, exponent 1
                if qa in d:
                    n = min(d[qa], e)
                    rest = dict(d)
                    for z in (qa, i):
                        rest[z] -= n
                        if not rest[z]:
                            del rest[z]
                    return _mono_poly(rest)
                if ATOMS[qa].kind == "sqrt" and e >= 2:
                    rest = dict(d)
                    if e % 2:
                        rest[i] = 1
                    else:
                        del rest[i]
                    return _mono_poly(rest) * inv_nocheck(ATOMS[qa].args[0]).pow(e // 2)
            else:
                # sqrt(q') * inv(q) with q = c*q'
                for j in d:
                    b = ATOMS[j]
                    if b.kind == "sqrt" and b.args[0] == q:
                        rest = dict(d)
                        for z in (j, i):
                            rest[z] -= 1
                            if not rest[z]:
                                del rest[z]
                        return _mono_poly(rest) * inv_nocheck(Poly.of(b))
                lm, lc = q.lead()
                if lm and all(d.get(x, 0) >= xe for x, xe in lm):
                    _red_depth += 1
                    try:
                        if _red_depth > 40:
                            return None
                        rest = dict(d)
                        for x, xe in lm:
                            rest[x] -= xe
                            if not rest[x]:
                                del rest[x]
                        rest[i] -= 1
                        if not rest[i]:
                            del rest[i]
                        base = _mono_poly(rest)
                        tail = Poly({mm: cc for mm, cc in q.t.items() if mm != lm})
                        ip = Poly({((i, 1),): Q(1)})
                        return (base - (base * tail) * ip).scale(1 / lc)
                    finally:
                        _red_depth -= 1
    return None


def _mono_poly(d):
    m = tuple(sorted(d.items()))
    r = reduce_mono(m)
    return Poly({m: Q(1)}) if r is None else r


ZERO = Poly({})
ONE = Poly.const(1)


def PIp():
    return Poly.of(atom("PI", (), "PI"))


def inv_nocheck(q: Poly) -> Poly:
    """1/q for q known non-zero on this path."""
    if q.is_const():
        return Poly.const(1 / q.cval())
    lm, lc = q.lead()
    if len(q.t) == 1:
        r = Poly.const(1 / lc)
        for i, e in lm:
            a = ATOMS[i]
            if a.kind == "inv":
                b = a.args[0]
            else:
                b = Poly.of(atom("inv", (Poly.of(a),)))
            r = r * b.pow(e)
        return r
    return Poly.of(atom("inv", (q.scale(1 / lc),))).scale(1 / lc)


def poly_sqrt_exact(p: Poly):
    """q with q*q == p, or None (plain polynomials)."""
    if not p.t:
        return ZERO
    rem = p
    q = ZERO
    for _ in range(12):
        if rem.is_zero():
            return q
        lm, lc = rem.lead()
        if q.is_zero():
            if lc < 0 or any(e % 2 for _, e in lm):
                return None
            r = isqrt_q(lc)
            if r is None:
                return None
            q = Poly({tuple((i, e // 2) for i, e in lm): r})
            rem = p - q * q
        else:
            qm, qc = q.lead()
            d = dict(lm)
            for i, e in qm:
                if d.get(i, 0) < e:
                    return None
                d[i] -= e
                if not d[i]:
                    del d[i]
            nt = Poly({tuple(sorted(d.items())): lc / (2 * qc)})
            if _mono_key(tuple(sorted(d.items()))) >= _mono_key(qm):
                return None
            q = q + nt
            rem = p - q * q
    return None


def isqrt_q(q):
    if q < 0:
        return None
    a, b = math.isqrt(q.numerator), math.isqrt(q.denominator)
    if a * a == q.numerator and b * b == q.denominator:
        return Q(a, b)
    return None


def sqrt_poly(p: Poly):
    """sqrt of p (p >= 0 known on this path). May fork on a sign."""
    if p.is_const():
        r = isqrt_q(p.cval())
        if r is not None:
            return Poly.const(r)
    if len(p.t) == 1:
        (m, c), = p.t.items()
        # inv(x)^1 with x = sqrt-able: sqrt(c * inv(q)) = inv(sqrt(q/c))
        if len(m) == 1 and ATOMS[m[0][0]].kind == "inv" and m[0][1] == 1:
            q = ATOMS[m[0][0]].args[0].scale(1 / c)
            return inv_nocheck(sqrt_poly(q))
    ex = poly_sqrt_exact(p)
    if ex is not None:
        if core.ctx().fork(ex.z3() >= 0):
            return ex
        return -ex
    lm, lc = p.lead()
    alc = abs(lc)
    r = isqrt_q(alc)
    if r is None or alc == 1:
        return Poly.of(atom("sqrt", (p,)))
    return Poly.of(atom("sqrt", (p.scale(1 / alc),))).scale(r)


# -------------------------------------------------------------- float -> exact

_PI_TABLE: dict = {}


def _pi_init():
    for d in (1, 2, 3, 4, 5, 6, 8, 9, 10, 12, 180, 360, 90, 45, 200):
        for n in (1, 2, 3, 4, 5, 6, 8):
            for f in {n * math.pi / d, math.pi / d * n, n / d * math.pi}:
                _PI_TABLE.setdefault(f, ("pi", Q(n, d)))
    for n in (180, 360, 90, 1, 2, 200, 0.5, 0.25, 45, 400):
        for f in {n / math.pi, n * (1 / math.pi)}:
            _PI_TABLE.setdefault(f, ("ipi", Q(n)))


_pi_init()
_exact_cache: dict = {}


def exact(f: float) -> Poly:
    """Exact meaning of a float constant: small rational, or multiple of pi."""
    f = float(f)
    r = _exact_cache.get(f)
    if r is not None:
        return r
    a = abs(f)
    if a in _PI_TABLE:
        kind, q = _PI_TABLE[a]
        p = PIp() if kind == "pi" else inv_nocheck(PIp())
        r = p.scale(q if f > 0 else -q)
        return r  # not cached: atoms may be reset
    q = Q(f)
    if q.denominator != 1:
        s = q.limit_denominator(1000000)
        if float(s) == f and s.denominator < 1000000:
            q = s
    r = Poly.const(q)
    _exact_cache[f] = r
    return r


# ------------------------------------------------------------------ booleans

class SymBool:
    __array_ufunc__ = None
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    def __bool__(self):
        return core.ctx().fork(self.e)

    @staticmethod
    def lift(o):
        if isinstance(o, SymBool):
            return o.e
        if isinstance(o, (bool, np.bool_)):
            return z3.BoolVal(bool(o))
        return None

    def _bin(self, o, f):
        if isinstance(o, np.ndarray):
            return NotImplemented
        e = SymBool.lift(o)
        if e is None:
            return NotImplemented
        return mkbool(f(self.e, e))

    def __and__(self, o):
        return self._bin(o, z3.And)

    __rand__ = __and__

    def __or__(self, o):
        return self._bin(o, z3.Or)

    __ror__ = __or__

    def __xor__(self, o):
        return self._bin(o, z3.Xor)

    __rxor__ = __xor__

    def __eq__(self, o):
        return self._bin(o, lambda a, b: a == b)

    def __ne__(self, o):
        return self._bin(o, lambda a, b: a != b)

    def __hash__(self):
        return hash(bool(self))

    def __invert__(self):
        return mkbool(z3.Not(self.e))

    def logical_not(self):
        return ~self

    def _num(self):
        return 1 if bool(self) else 0

    def __int__(self):
        return self._num()

    def __index__(self):
        return self._num()

    def __float__(self):
        return float(self._num())

    def __add__(self, o):
        return self._num() + (o._num() if isinstance(o, SymBool) else o)

    __radd__ = __add__

    def __mul__(self, o):
        return self._num() * (o._num() if isinstance(o, SymBool) else o)

    __rmul__ = __mul__

    def __sub__(self, o):
        return self._num() - (o._num() if isinstance(o, SymBool) else o)

    def __rsub__(self, o):
        return (o._num() if isinstance(o, SymBool) else o) - self._num()

    def __repr__(self):
        return f"<bool {self.e}>"

    def all(self, *a, **k):
        return self

    any = all
    item = all


def mkbool(e):
    e = z3.simplify(e)
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return SymBool(e)


# --------------------------------------------------------------------- reals

FLOATS = (float, int, Fraction, np.floating, np.integer, bool, np.bool_)


def lift(o):
    """Poly of a finite number, ('nf', float) for inf/nan, or None."""
    if isinstance(o, SymReal):
        return o.p
    if isinstance(o, SymBool):
        return Poly.const(o._num())
    if isinstance(o, (bool, np.bool_)):
        return Poly.const(int(o))
    if isinstance(o, (int, np.integer)):
        return Poly.const(int(o))
    if isinstance(o, Fraction):
        return Poly.const(o)
    if isinstance(o, (float, np.floating)):
        f = float(o)
        if f != f or f in (math.inf, -math.inf):
            return ("nf", f)
        return exact(f)
    if isinstance(o, np.ndarray) and o.ndim == 0:
        return lift(o.item() if o.dtype != object else o[()])
    try:
        import jax
        if isinstance(o, jax.Array) and o.ndim == 0:
            return lift(o.item())
    except ImportError:  # pragma: no cover
        pass
    return None


def mk(p: Poly, kind="float"):
    return SymReal(p, kind)


def sign_of(p: Poly) -> int:
    c = core.ctx()
    if p.is_const():
        v = p.cval()
        return (v > 0) - (v < 0)
    if c.fork(p.z3() == 0):
        return 0
    return 1 if c.fork(p.z3() > 0) else -1


class SymReal:
    """A real number of the program under analysis.

    `kind` records which concrete Python type it stands for
    (float, int, npfloat, npint); it only matters to isinstance-like tests.
    """
    __array_ufunc__ = None
    __slots__ = ("p", "kind")

    def __init__(self, p, kind="float"):
        self.p = p
        self.kind = kind

    # numpy-scalar like attributes
    shape = ()
    ndim = 0
    size = 1

    @property
    def dtype(self):
        return np.dtype(np.int64 if self.kind in ("int", "npint") else np.float64)

    @property
    def T(self):
        return self

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return 0.0

    def item(self):
        return mk(self.p, "int" if self.kind in ("int", "npint") else "float")

    def tolist(self):
        return self.item()

    def astype(self, *a, **k):
        return mk(self.p, "npfloat")

    def copy(self):
        return self

    def conjugate(self):
        return self

    def squeeze(self, *a):
        return self

    def ravel(self):
        from .hooks import sarr
        return sarr([self])

    flatten = ravel

    def reshape(self, *s):
        from .hooks import sarr
        return sarr([self]).reshape(*s)

    def block_until_ready(self):
        return self

    def is_integer(self):
        return mkbool(z3.IsInt(self.p.z3()))

    # arithmetic -----------------------------------------------------------
    def _arr(self, o, f):
        from .hooks import sarr_map
        return sarr_map(f, o)

    def _bin(self, o, f, g):
        if isinstance(o, (list, tuple, str, dict)) or o is None:
            return NotImplemented
        if isinstance(o, np.ndarray) and o.ndim:
            return self._arr(o, lambda x: f(self, x))
        import jax
        if isinstance(o, jax.Array) and o.ndim:
            return self._arr(np.asarray(o), lambda x: f(self, x))
        l = lift(o)
        if l is None:
            return NotImplemented
        return g(self.p, l)

    def __add__(self, o):
        def g(a, b):
            if isinstance(b, tuple):
                return b[1]
            return mk(a + b)
        return self._bin(o, lambda s, x: s + x, g)

    def __radd__(self, o):
        return self.__add__(o)

    def __sub__(self, o):
        def g(a, b):
            if isinstance(b, tuple):
                return -b[1]
            return mk(a - b)
        return self._bin(o, lambda s, x: s - x, g)

    def __rsub__(self, o):
        def g(a, b):
            if isinstance(b, tuple):
                return b[1]
            return mk(b - a)
        return self._bin(o, lambda s, x: x - s, g)

    def __mul__(self, o):
        def g(a, b):
            if isinstance(b, tuple):
                return nf_mul(a, b[1])
            return mk(a * b)
        return self._bin(o, lambda s, x: s * x, g)

    def __rmul__(self, o):
        def g(a, b):
            if isinstance(b, tuple):
                return nf_mul(a, b[1])
            return mk(b * a)
        return self._bin(o, lambda s, x: x * s, g)

    def __truediv__(self, o):
        return self._bin(o, lambda s, x: s / x, div)

    def __rtruediv__(self, o):
        return self._bin(o, lambda s, x: x / s, lambda a, b: div(b, a))

    def __floordiv__(self, o):
        q = self / o
        return q if not isinstance(q, SymReal) else q.__floor__()

    def __rfloordiv__(self, o):
        q = o / self
        return q if not isinstance(q, SymReal) else q.__floor__()

    def __mod__(self, o):
        if isinstance(o, np.ndarray) and o.ndim:
            return self._arr(o, lambda x: self % x)
        q = self / o
        if not isinstance(q, SymReal):
            return math.nan
        return self - o * q.__floor__()

    def __rmod__(self, o):
        if isinstance(o, np.ndarray) and o.ndim:
            return self._arr(o, lambda x: x % self)
        q = o / self
        if not isinstance(q, SymReal):
            return math.nan
        return o - self * q.__floor__()

    def __divmod__(self, o):
        return self // o, self % o

    def __pow__(self, o, mod=None):
        return self._bin(o, lambda s, x: s ** x, power)

    def __rpow__(self, o):
        return self._bin(o, lambda s, x: x ** s, lambda a, b: power(b, a))

    def __neg__(self):
        return mk(-self.p, self.kind)

    def __pos__(self):
        return self

    def __abs__(self):
        if core.ctx().fork(self.p.z3() >= 0):
            return self
        return -self

    fabs = __abs__
    absolute = __abs__

    def sqrt(self):
        return rsqrt_checked(self.p)

    def square(self):
        return self * self

    def hypot(self, o):
        return (self * self + o * o).sqrt()

    def arctan2(self, o):
        return atan2(self, o)

    def cos(self):
        return trig(self, 0)

    def sin(self):
        return trig(self, 1)

    def arccos(self):
        return acos(self)

    def arcsin(self):
        return asin(self)

    def arctan(self):
        return atan2(self, 1)

    def degrees(self):
        return self * (180 / math.pi)

    rad2deg = degrees

    def radians(self):
        return self * (math.pi / 180)

    deg2rad = radians

    def isfinite(self):
        return True

    def isnan(self):
        return False

    def isinf(self):
        return False

    def __floor__(self):
        if self.p.is_const():
            return mk(Poly.const(math.floor(self.p.cval())))
        return mk(Poly.of(atom("floor", (self.p,))))

    floor = __floor__

    def __ceil__(self):
        return -((-self).__floor__())

    ceil = __ceil__

    def __trunc__(self):
        if core.ctx().fork(self.p.z3() >= 0):
            return self.__floor__()
        return self.__ceil__()

    def __round__(self, n=None):
        if n is None or n == 0:
            f = (self + Q(1, 2)).__floor__()
            return f     # ties rounded up; ties to even not modelled
        s = Q(10) ** n
        return (self * s + Q(1, 2)).__floor__() / s

    def rint(self):
        return self.__round__()

    # comparisons ------------------------------------------------------------
    def _cmp(self, o, op, name):
        if isinstance(o, np.ndarray) and o.ndim:
            from .hooks import sarr_map
            return sarr_map(lambda x: getattr(self, name)(x), o)
        l = lift(o)
        if l is None:
            return NotImplemented
        if isinstance(l, tuple):
            f = l[1]
            if f != f:
                return name == "__ne__"
            return {"__lt__": f > 0, "__le__": f > 0, "__gt__": f < 0, "__ge__": f < 0,
                    "__eq__": False, "__ne__": True}[name]
        d = self.p - l
        return poly_cmp(d, op)

    def __lt__(self, o):
        return self._cmp(o, "<", "__lt__")

    def __le__(self, o):
        return self._cmp(o, "<=", "__le__")

    def __gt__(self, o):
        return self._cmp(o, ">", "__gt__")

    def __ge__(self, o):
        return self._cmp(o, ">=", "__ge__")

    def __eq__(self, o):
        return self._cmp(o, "==", "__eq__")

    def __ne__(self, o):
        return self._cmp(o, "!=", "__ne__")

    def __hash__(self):
        if self.p.is_const():
            return hash(self.p.cval())
        return hash(float(self))

    def __bool__(self):
        if self.p.is_const():
            return bool(self.p.cval())
        return core.ctx().fork(self.p.z3() != 0)

    # concretization -----------------------------------------------------------
    def __float__(self):
        return concretize(self.p)

    def __int__(self):
        if self.kind in ("int", "npint"):
            return int(round(concretize(self.p)))
        return int(concretize(self.p))

    def __index__(self):
        if self.kind not in ("int", "npint"):
            raise TypeError("'float' object cannot be interpreted as an integer")
        return int(self)

    def __complex__(self):
        return complex(float(self))

    def __repr__(self):
        if self.p.is_const():
            return repr(float(self.p.cval()))
        return "<real>"

    def __format__(self, spec):
        return repr(self)


def poly_cmp(d, op):
    if d.is_const():
        v = d.cval()
        return {"<": v < 0, "<=": v <= 0, ">": v > 0, ">=": v >= 0, "==": v == 0, "!=": v != 0}[op]
    d = _unroot(d)
    if d.is_const():
        return poly_cmp(d, op)
    if op in ("<", ">=") and _obviously_nonneg(d):
        return op == ">="
    if op in (">", "<=") and _obviously_nonneg(-d):
        return op == "<="
    if () in d.t and (d.t[()] > 0 and _even_sum(d) or d.t[()] < 0 and _even_sum(-d)):
        return poly_cmp(Poly.const(d.t[()]), op)
    z = d.z3()
    e = {"<": lambda: z < 0, "<=": lambda: z <= 0, ">": lambda: z > 0,
         ">=": lambda: z >= 0, "==": lambda: z == 0, "!=": lambda: z != 0}[op]()
    return mkbool(e)


def _unroot(d):
    """A polynomial of the same sign without square roots, where that is easy.

    q*sqrt(a) - r*sqrt(b) and q*sqrt(a) - c (q, r, c >= 0) have the signs of
    q^2 a - r^2 b and q^2 a - c^2."""
    if len(d.t) > 2:
        return d
    pos = neg = None
    for m, c in d.t.items():
        if len(m) == 0:
            v = Poly.const(c * c)
        elif len(m) == 1 and m[0][1] == 1 and ATOMS[m[0][0]].kind == "sqrt":
            v = ATOMS[m[0][0]].args[0].scale(c * c)
        else:
            return d
        if c > 0:
            if pos is not None:
                return d
            pos = v
        else:
            if neg is not None:
                return d
            neg = v
    if pos is None or neg is None:
        if len(d.t) == 1:
            return (pos if pos is not None else -neg)
        return d
    return pos - neg


def nf_mul(a, f):
    if f != f:
        return math.nan
    s = sign_of(a)
    return math.nan if s == 0 else s * f


def div(a, b):
    """a/b with numpy semantics; a, b Poly or ('nf', f)."""
    if isinstance(b, tuple):
        if isinstance(a, tuple) or b[1] != b[1]:
            return math.nan
        return mk(ZERO)
    if isinstance(a, tuple):
        if a[1] != a[1]:
            return math.nan
        s = sign_of(b)
        return a[1] * (1 if s >= 0 else -1)
    if b.is_const():
        if b.cval() == 0:
            s = sign_of(a)
            return math.nan if s == 0 else s * math.inf
        return mk(a.scale(1 / b.cval()))
    if bool(poly_cmp(b, "==")):
        s = sign_of(a)
        return math.nan if s == 0 else s * math.inf
    return mk(a * inv_nocheck(b))


def rsqrt_checked(p):
    if p.is_const() and p.cval() < 0:
        return math.nan
    if not p.is_const() and not _obviously_nonneg(p):
        if core.ctx().fork(p.z3() < 0):
            return math.nan
    return mk(sqrt_poly(p))


def _nn(p):
    return p.nn or (p.is_const() and p.cval() >= 0)


def _obviously_nonneg(p):
    """Built from squares, or a sum of even monomials with positive coefficients."""
    return p.nn or _even_sum(p)


def _even_sum(p):
    for m, c in p.t.items():
        if c < 0:
            return False
        for i, e in m:
            a = ATOMS[i]
            if e % 2 and a.kind != "sqrt" and not (a.kind == "inv" and _obviously_nonneg(a.args[0])):
                return False
    return True


def power(a, b):
    if isinstance(b, tuple) or isinstance(a, tuple):
        f = a[1] if isinstance(a, tuple) else b[1]
        return math.nan if f != f else core.ctx() and math.nan
    if b.is_const():
        e = b.cval()
        if e.denominator == 1:
            n = int(e)
            if n >= 0:
                if n > 40:
                    raise Unsupported("large power")
                return mk(a.pow(n))
            r = div(ONE, a)
            return r if not isinstance(r, SymReal) else mk(r.p.pow(-n))
        if e.denominator == 2:
            s = rsqrt_checked(a)
            if not isinstance(s, SymReal):
                return s
            n = e.numerator
            if n > 0:
                return mk(s.p.pow(n))
            return div(ONE, s.p.pow(-n))
    # symbolic or irrational exponent: uninterpreted function of (a, b)
    return mk(Poly.of(atom("pow", (a, b))))


# --------------------------------------------------------------------- angles

def angle_atom(y: Poly, x: Poly) -> Atom:
    """Angle of direction (x, y) != 0 in half turns."""
    y, x = _norm_dir(y, x)
    key = ("angle", (y, x))
    a = BYKEY.get(key)
    if a is None:
        a = atom("angle", (y, x))
        c = atom("cos", (a.id,), f"cos#{a.id}", a.name)
        s = atom("sin", (Poly.of(c),), f"sin#{a.id}", a.name)
        r = atom("rad", (a.id,), f"rad#{a.id}", a.name)
        a.extra = (c, s, r)
    return a


def _norm_dir(y, x):
    """Divide (y, x) by a common positive factor (sqrt / inv(sqrt) atoms)."""
    def positive(i):
        a = ATOMS[i]
        if a.kind == "sqrt" or a.kind == "PI":
            return True
        if a.kind == "inv":
            q = a.args[0]
            if len(q.t) == 1:
                (m, c), = q.t.items()
                return c > 0 and all(ATOMS[j].kind in ("sqrt", "PI") for j, _ in m)
        return False
    polys = [p for p in (y, x) if not p.is_zero()]
    common = None
    for p in polys:
        for m in p.t:
            d = {i: e for i, e in m if positive(i)}
            common = d if common is None else {i: min(e, d[i]) for i, e in common.items() if i in d}
    if common:
        def strip(p):
            t = {}
            for m, c in p.t.items():
                d = dict(m)
                for i, e in common.items():
                    d[i] -= e
                    if not d[i]:
                        del d[i]
                t[tuple(sorted(d.items()))] = c
            return Poly(t)
        y, x = strip(y), strip(x)
    lc = None
    for p in (x, y):
        if not p.is_zero():
            lc = abs(p.lead()[1])
            break
    if lc is not None and lc != 1:
        y, x = y.scale(1 / lc), x.scale(1 / lc)
    return y, x


def atan2(y, x):
    yp, xp = lift(y), lift(x)
    if isinstance(yp, tuple) or isinstance(xp, tuple):
        return math.nan
    c = core.ctx()
    if xp.is_zero() and yp.is_zero():
        return 0.0
    if yp.is_const() and xp.is_const():
        return math.atan2(float(yp.cval()), float(xp.cval()))
    if c.fork(z3.And(xp.z3() == 0, yp.z3() == 0)):
        return 0.0
    # atan2(sin E, cos E) folding is not attempted: it is a new direction
    a = angle_atom(yp, xp)
    return mk(Poly.of(a) * PIp())


def halfturns(p: Poly):
    """Express radians p as (const half-turns, {angle atom id: integer}, {floor..})."""
    pi = atom("PI", (), "PI")
    ip = atom("inv", (Poly.of(pi),))
    out = {}
    const = Q(0)
    for m, c in p.t.items():
        d = dict(m)
        if d.get(pi.id, 0) == 1:
            del d[pi.id]
        else:
            raise Unsupported("angle that is not a combination of angles")
        if not d:
            const += c
        elif len(d) == 1 and list(d.values()) == [1]:
            out[next(iter(d))] = c
        else:
            raise Unsupported("non-linear angle")
    return const, out


def cossin_halfturns(const, comb):
    """cos and sin of pi*(const + sum n_i t_i) as Polys."""
    k = const % 2
    tab = {Q(0): (1, 0), Q(1, 2): (0, 1), Q(1): (-1, 0), Q(3, 2): (0, -1)}
    if k in tab:
        c, s = (Poly.const(v) for v in tab[k])
    else:
        raise Unsupported("constant angle")
    for i, n in comb.items():
        a = ATOMS[i]
        if n.denominator != 1 or abs(n) > 6:
            raise Unsupported("fractional angle multiple")
        if a.kind in ("floor", "int"):
            if n % 2 == 0:
                continue
            raise Unsupported("half-turn multiple of an unknown integer")
        if a.kind == "angle":
            ca, sa = Poly.of(a.extra[0]), Poly.of(a.extra[1])
        elif a.kind in ("var",):
            ca, sa = free_angle(a)
        else:
            raise Unsupported("trig of " + a.kind)
        if n < 0:
            sa = -sa
        for _ in range(abs(int(n))):
            c, s = c * ca - s * sa, s * ca + c * sa
    return c, s


def free_angle(a: Atom):
    raise Unsupported("trig of a free variable")


def trig(x, which):
    if x.p.is_const():
        return (math.cos, math.sin)[which](float(x.p.cval()))
    return mk(cossin_halfturns(*halfturns(x.p))[which])


def acos(x):
    p = lift(x)
    if p.is_const():
        return math.acos(float(p.cval())) if abs(p.cval()) <= 1 else math.nan
    c = core.ctx()
    if c.fork(z3.Or(p.z3() > 1, p.z3() < -1)):
        return math.nan
    s = sqrt_poly(ONE - p * p)
    return atan2(mk(s), mk(p))


def asin(x):
    p = lift(x)
    if p.is_const():
        return math.asin(float(p.cval())) if abs(p.cval()) <= 1 else math.nan
    c = core.ctx()
    if c.fork(z3.Or(p.z3() > 1, p.z3() < -1)):
        return math.nan
    return atan2(mk(p), mk(sqrt_poly(ONE - p * p)))


# -------------------------------------------------------------- concretization

def input_atoms(p: Poly):
    out = set()
    todo = list(p.atoms())
    seen = set()
    while todo:
        i = todo.pop()
        if i in seen:
            continue
        seen.add(i)
        a = ATOMS[i]
        if a.kind == "var":
            out.add(i)
        else:
            for q in a.args:
                if isinstance(q, Poly):
                    todo.extend(q.atoms())
                elif isinstance(q, int):
                    todo.append(q)
            if a.kind == "sin":
                todo.append(BYNAME[a.extra].id)
    return out


def concretize(p: Poly) -> float:
    """Fix the inputs p depends on to a model's values; the path is partial."""
    if p.is_const():
        return float(p.cval())
    if p == PIp():
        return math.pi
    c = core.ctx()
    ins = input_atoms(p)
    st, vals = c.model()
    if st != "sat":
        raise Unsupported("cannot concretize")
    env = {}
    for i in ins:
        a = ATOMS[i]
        v = Q(vals.get(a.name, 0)).limit_denominator(1 << 20)
        env[i] = float(v)
        c.add_pc(a.var == Q2z(v))
    c.incomplete.append("a real was concretized")
    c.stats.concretized += 1
    return p.eval(env)


# ---------------------------------------------------------------- derivatives

def diff(p: Poly, v: int, memo=None) -> Poly:
    """d p / d atom v."""
    memo = {} if memo is None else memo
    r = ZERO
    for m, c in p.t.items():
        for k, (i, e) in enumerate(m):
            da = diff_atom(ATOMS[i], v, memo)
            if da.is_zero():
                continue
            d = dict(m)
            d[i] -= 1
            if not d[i]:
                del d[i]
            r = r + _mono_poly(d).scale(c * e) * da
    return r


def diff_atom(a: Atom, v: int, memo):
    if a.id == v:
        return ONE
    if a.id in memo:
        return memo[a.id]
    k = a.kind
    if k in ("var", "PI", "int", "floor"):
        r = ZERO
    elif k == "alias":
        r = ZERO
    elif k == "sqrt":
        dp = diff(a.args[0], v, memo)
        r = ZERO if dp.is_zero() else dp.scale(Q(1, 2)) * inv_checked(Poly.of(a))
    elif k == "inv":
        dq = diff(a.args[0], v, memo)
        ip = Poly.of(a)
        r = ZERO if dq.is_zero() else -(dq * (ip * ip))
    elif k == "angle":
        y, x = a.args
        dy, dx = diff(y, v, memo), diff(x, v, memo)
        num = x * dy - y * dx
        if num.is_zero():
            r = ZERO
        else:
            r = num * inv_checked(x * x + y * y) * inv_nocheck(PIp())
    elif k in ("cos", "sin"):
        t = BYNAME[a.extra]
        dt = diff_atom(t, v, memo) * PIp()
        c, s = Poly.of(t.extra[0]), Poly.of(t.extra[1])
        r = -(s * dt) if k == "cos" else c * dt
    else:
        raise Unsupported("derivative of " + k)
    memo[a.id] = r
    return r


def inv_checked(q):
    if not q.is_const():
        if bool(poly_cmp(q, "==")):
            raise Unsupported("derivative at a singular point")
    return inv_nocheck(q)


def subst(p: Poly, mp: dict, memo=None) -> Poly:
    """Replace atoms by polys (mp: atom id -> Poly)."""
    memo = {} if memo is None else memo
    r = ZERO
    for m, c in p.t.items():
        t = Poly.const(c)
        for i, e in m:
            t = t * subst_atom(ATOMS[i], mp, memo).pow(e)
        r = r + t
    return r


def subst_atom(a, mp, memo):
    if a.id in mp:
        return mp[a.id]
    if a.id in memo:
        return memo[a.id]
    k = a.kind
    if k in ("var", "PI", "alias", "int"):
        r = Poly.of(a)
    elif k == "sqrt":
        q = subst(a.args[0], mp, memo)
        r = Poly.of(a) if q == a.args[0] else sqrt_poly(q)
    elif k == "inv":
        q = subst(a.args[0], mp, memo)
        r = Poly.of(a) if q == a.args[0] else inv_checked(q)
    elif k == "angle":
        y, x = (subst(q, mp, memo) for q in a.args)
        r = Poly.of(a) if (y, x) == a.args else Poly.of(angle_atom(y, x))
    elif k in ("cos", "sin"):
        t = BYNAME[a.extra]
        u = subst_atom(t, mp, memo)
        (m, c), = u.t.items()
        ua = ATOMS[m[0][0]]
        r = Poly.of(ua.extra[0 if k == "cos" else 1])
    elif k == "floor":
        q = subst(a.args[0], mp, memo)
        r = Poly.of(atom("floor", (q,)))
    elif k == "pow":
        r = Poly.of(atom("pow", tuple(subst(q, mp, memo) for q in a.args)))
    else:
        raise Unsupported("subst in " + k)
    memo[a.id] = r
    return r
