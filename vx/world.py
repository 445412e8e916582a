"""Harness interface: the same harness runs symbolically and concretely."""
from __future__ import annotations

import math
from fractions import Fraction

import numpy as np
import z3

from . import core, real
from .real import Poly, SymBool, SymReal, atom, lift, mk, mkbool
from .strs import SymStr, eq_expr, make, new_piece, parts_of
from . import hooks
from .hooks import _obj_array, sarr


class Candidate(BaseException):
    """The solver found values violating an assertion."""

    def __init__(self, label, values, what):
        self.label, self.values, self.what = label, values, what


class Undischarged(Exception):
    pass


class Failed(Exception):
    """A concrete run violated an assertion."""

    def __init__(self, label, what):
        Exception.__init__(self, f"{label}: {what}")
        self.label, self.what = label, what


def _isnum(x):
    return isinstance(x, (int, float, Fraction, np.number, SymReal, bool, np.bool_, SymBool))


class Base:
    """Shared harness helpers."""

    def same(self, label, got, want):
        self.eq(label, got, want)

    def props(self, name):
        """Another harness module, instrumented as this one is."""
        import os
        from . import load
        return load.load_harness(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),
                                              "props", name + ".py"), self.symbolic)

    def vec(self, name, n=2, **k):
        return self.arr([self.real(f"{name}{'xyzw'[i] if n <= 4 else '_' + str(i)}", **k) for i in range(n)])

    def reals(self, name, n, **k):
        return [self.real(f"{name}_{i}", **k) for i in range(n)]

    def point(self, name):
        return self.m.primitives.Point(self.vec(name))

    def line(self, name):
        P = self.m.primitives
        return P.Line(prims=(self.point(name + "a"), self.point(name + "b")))

    def quad(self, name):
        P = self.m.primitives
        return P.Quadrilateral(None, [self.point(name + str(i)) for i in range(4)])

    def box(self, name, nondeg=False):
        """Axis-aligned box with free corners and sizes (w, h > 0 if nondeg)."""
        P = self.m.primitives
        x, y = self.real(name + "x"), self.real(name + "y")
        dx, dy = self.real(name + "w"), self.real(name + "h")
        if nondeg:
            self.assume(dx > 0)
            self.assume(dy > 0)
        pts = [(x, y), (x + dx, y), (x + dx, y + dy), (x, y + dy)]
        return P.Quadrilateral(None, [P.Point(self.arr(list(p))) for p in pts])

    def distinct_holds(self, label, strs):
        """Assert that the strings are pairwise different."""
        for i, a in enumerate(strs):
            for b in strs[:i]:
                r = a == b
                self.true(label + " distinct", ~r if hasattr(r, "e") else not r)

    def nondegenerate(self, line):
        a, b = self.ends(line)
        self.assume_or(b[0] - a[0] != 0, b[1] - a[1] != 0)

    @staticmethod
    def ends(line):
        """End point coordinates of a line primitive, as lists."""
        return [list(line["Point0"].value), list(line["Point1"].value)]

    @staticmethod
    def lvec(line):
        a, b = Base.ends(line)
        return [b[0] - a[0], b[1] - a[1]]


class SymW(Base):
    symbolic = True

    def __init__(self, ctx, m, skip=(), tier="quick"):
        self.c = ctx
        self.m = m
        self.skip = set(skip)
        self.avoid = {}
        self.tier = tier
        self.obl = 0
        self.undischarged = []

    # inputs ------------------------------------------------------------------
    def real(self, name, kind="float", lo=None, hi=None):
        a = atom("var", (name,), name)
        if name not in self.c.inputs:
            if kind in ("int", "npint"):
                iv = z3.Int(name + "!i")
                self.c.inputs[name] = ("real", a.var, kind)
                self.c.add_pc(a.var == z3.ToReal(iv))
            else:
                self.c.inputs[name] = ("real", a.var, kind)
        x = mk(Poly.of(a), kind)
        if lo is not None:
            self.assume(x >= lo)
        if hi is not None:
            self.assume(x <= hi)
        return x

    def string(self, name, minlen=1, maxlen=3):
        if name not in self.c.inputs:
            p = new_piece(name, minlen, maxlen)
            self.c.inputs[name] = ("str", p.e, None)
        else:
            from .strs import Piece
            p = Piece(self.c.inputs[name][1], maxlen)
        return SymStr((p,))

    def choice(self, name, options):
        options = list(options)
        if len(options) == 1:
            return options[0]
        z = z3.Int(name)
        if name not in self.c.inputs:
            self.c.inputs[name] = ("int", z, (0, len(options) - 1))
            self.c.add_pc(z3.And(z >= 0, z < len(options)))
        return options[self.c.choose(z, len(options))]

    def bool(self, name):
        return bool(self.choice(name, [False, True]))

    def arr(self, xs, shape=None):
        return sarr(list(xs), shape)

    def arr0(self, x):
        """0-d array holding x."""
        a = np.empty((), dtype=object)
        a[()] = x
        return a.view(hooks.SArr)

    def jnp(self, x):
        """jax array holding x (a number or a list)."""
        return self.arr(x) if isinstance(x, (list, tuple)) else self.arr0(x)

    def pi(self):
        return mk(real.PIp())

    # assumptions ----------------------------------------------------------------
    def assume(self, cond):
        if isinstance(cond, SymBool):
            self.c.assume(cond.e)
        else:
            self.c.assume(bool(cond))

    def assume_or(self, *conds):
        es = [c.e if isinstance(c, SymBool) else z3.BoolVal(bool(c)) for c in conds]
        self.c.assume(z3.Or(es))

    def distinct(self, *strs):
        for i, a in enumerate(strs):
            for b in strs[:i]:
                r = a == b
                if isinstance(r, SymBool):
                    self.c.assume(z3.Not(r.e))
                elif r:
                    self.c.assume(False)

    def feasible(self):
        if not self.c.check_feasible_now():
            raise core.PathAbort("assumptions")

    # math for specifications ------------------------------------------------------
    def sqrt(self, x):
        return x.sqrt() if isinstance(x, SymReal) else math.sqrt(x)

    def norm(self, v):
        s = 0
        for x in v:
            s = s + x * x
        return self.sqrt(s)

    def power(self, x, e):
        return x ** e

    def sin_half(self, t):
        raise NotImplementedError

    def _away(self, tried):
        """Goals asking for inputs unlike those that did not reproduce."""
        def off(d, v):
            out = []
            for n, (kind, var, _) in self.c.inputs.items():
                if kind == "real" and n in v:
                    x = Fraction(v[n])
                    out.append(z3.Or(var <= z3.RealVal(str(x - d)), var >= z3.RealVal(str(x + d))))
            return out
        if not tried:
            return []
        d1, d2 = Fraction(3, 16), Fraction(1, 64)
        return [[g for v in tried for g in off(d1, v)], [g for v in tried for g in off(d2, v)],
                [z3.Or(off(d1, v) or [z3.BoolVal(False)]) for v in tried]]

    # assertions ---------------------------------------------------------------------
    def _check(self, label, bad, margins=(), what=""):
        """Ask the solver for values making `bad` true."""
        st = self.c.stats
        self.obl += 1
        st.obligations += 1
        if label in self.skip:
            self.undischarged.append(f"{label}: solver counterexample not reproduced by the real code")
            return
        if isinstance(bad, bool):
            bad = z3.BoolVal(bad)
        r, _ = self.c.solve([bad])
        if r == "unsat":
            st.discharged += 1
            return
        if r == "unknown":
            self.undischarged.append(f"{label}: solver returned unknown")
            return
        values = None
        tried = self.avoid.get(self.obl, ())
        if len(tried) > 3:
            self.undischarged.append(f"{label}: solver counterexamples not reproduced by the real code")
            return
        away = self._away(tried)
        for mg in away + list(margins) + [None]:
            goals = [bad] + (mg if isinstance(mg, list) else [mg] if mg is not None else [])
            s, v = self.c.model(goals)
            if s == "sat":
                values = v
                break
        if values is None:
            if s == "unsat":     # the slice was satisfiable, the whole path is not
                st.discharged += 1
                return
            self.undischarged.append(f"{label}: no model for the counterexample")
            return
        raise Candidate(label, values, what)

    def true(self, label, cond, what=""):
        if isinstance(cond, SymBool):
            self._check(label, z3.Not(cond.e), what=what or "condition is false")
        elif isinstance(cond, np.ndarray):
            for x in cond.ravel():
                self.true(label, x, what)
        else:
            self._check(label, not bool(cond), what=what or "condition is false")

    def eq(self, label, got, want):
        self._eq(label, got, want)

    def _eq(self, label, got, want):
        if isinstance(want, (SymStr, str)) or isinstance(got, (SymStr, str)):
            if not (isinstance(want, (SymStr, str)) and isinstance(got, (SymStr, str))):
                return self._check(label, True, what=f"got {got!r}, expected {want!r}")
            r = eq_expr(parts_of(got), parts_of(want))
            bad = (not r) if isinstance(r, bool) else z3.Not(r)
            return self._check(label, bad, what=f"got {got!r}, expected {want!r}")
        if want is None or got is None:
            return self._check(label, got is not want, what=f"got {got!r}, expected {want!r}")
        if isinstance(want, dict) or isinstance(got, dict):
            self._eq(label, list(got.items()), list(want.items()))
            return
        if isinstance(want, (list, tuple)) and any(not _isnum(x) and not isinstance(x, np.ndarray) for x in want):
            got = list(got) if not isinstance(got, (list, tuple)) else got
            if len(got) != len(want):
                return self._check(label, True, what=f"length {len(got)}, expected {len(want)}")
            for g, x in zip(got, want):
                self._eq(label, g, x)
            if not want:
                self._check(label, False)
            return
        if _isnum(want) or isinstance(want, (list, tuple, np.ndarray)) or hasattr(want, "__array__"):
            return self._eqnum(label, got, want)
        return self._check(label, not (got is want or got == want), what=f"got {got!r}, expected {want!r}")

    def _eqnum(self, label, got, want):
        try:
            g, x = _obj_array(got), _obj_array(want)
        except Exception as e:  # noqa: BLE001
            return self._check(label, True, what=f"not comparable: {e}")
        if g.size != x.size or (g.ndim > 1 or x.ndim > 1) and g.shape != x.shape:
            return self._check(label, True, what=f"shape {g.shape}, expected {x.shape}")
        if g.size == 0:
            return self._check(label, False)
        for a, b in zip(g.ravel(), x.ravel()):
            a, b = _num(a), _num(b)
            pa, pb = lift(a), lift(b)
            if pa is None or pb is None:
                self._check(label, not (a is b), what=f"got {a!r}, expected {b!r}")
                continue
            if isinstance(pa, tuple) or isinstance(pb, tuple):
                same = isinstance(pa, tuple) and isinstance(pb, tuple) and (pa == pb or (pa[1] != pa[1] and pb[1] != pb[1]))
                self._check(label, not same, what="non-finite value")
                continue
            d = pa - pb
            z = d.z3()
            self._check(label, z != 0, margins=(z3.Or(z > 1, z < -1), z3.Or(z > real.Q2z(Fraction(1, 100)), z < real.Q2z(Fraction(-1, 100)))),
                        what="value differs")

    def zero_iff(self, label, res, eqs):
        """res vanishes exactly when all eqs do (values assumed finite)."""
        rs, nonfinite = self._zero_terms(res)
        es, enf = self._zero_terms(eqs)
        if enf:
            raise core.Unsupported("specification is not finite")
        if nonfinite:
            # residual is nan/inf: never zero
            self._check(label + ":nan", z3.And([e == 0 if not z3.is_bool(e) else e for e in es] or [True]),
                        what="residual is not finite although the relation can hold")
            return
        R = [self._z(r) for r in rs]
        E = [self._z(e) for e in es]
        half = real.Q2z(Fraction(1, 8))
        for e in es:
            m = () if z3.is_bool(e) else (z3.Or(e > 1, e < -1), z3.Or(e > half, e < -half),)
            self._check(label + ":only-if", z3.And(R + [z3.Not(self._z(e))]), margins=m,
                        what="residual is zero but the relation does not hold")
        for r in rs:
            m = () if z3.is_bool(r) else (z3.Or(r > 1, r < -1), z3.Or(r > half, r < -half),)
            self._check(label + ":if", z3.And(E + [z3.Not(self._z(r))]), margins=m,
                        what="the relation holds but the residual is not zero")
        if not rs:
            self._check(label + ":empty", z3.Not(z3.And(E)) if E else False, what="empty residual")

    @staticmethod
    def _z(x):
        return x if z3.is_bool(x) else x == 0

    def _zero_terms(self, xs):
        out = []
        nf = False
        if isinstance(xs, (list, tuple)):
            items = []
            for x in xs:
                if isinstance(x, (SymBool, bool, np.bool_)):
                    items.append(x)
                else:
                    items.extend(_obj_array(x).ravel())
        else:
            items = list(_obj_array(xs).ravel())
        for x in items:
            if isinstance(x, SymBool):
                out.append(x.e)
                continue
            if isinstance(x, (bool, np.bool_)):
                out.append(z3.BoolVal(bool(x)))
                continue
            p = lift(_num(x))
            if isinstance(p, tuple):
                nf = True
            else:
                out.append(p.z3())
        return out, nf

    def angle_is(self, label, got, x, y, unit="rad"):
        """got is the angle in (-pi, pi] of direction (x, y)."""
        g = lift(_num(_obj_array(got).ravel()[0]))
        if isinstance(g, tuple):
            return self._check(label, True, what="angle is not finite")
        if unit == "deg":
            g = g * real.PIp().scale(Fraction(1, 180))
        if g.is_const():       # atan2(0, 0) style constant
            g = real.PIp().scale(g.cval()) if g.cval() == 0 else g
        const, comb = real.halfturns(g)
        cs, sn = real.cossin_halfturns(const, comb)
        star = real.angle_atom(lift(_num(y)), lift(_num(x)))     # direction assumed non-zero
        px, py = Poly.of(star.extra[0]), Poly.of(star.extra[1])
        cr = (cs * py - sn * px).z3()
        dt = (cs * px + sn * py).z3()
        self._check(label, z3.Not(z3.And(cr == 0, dt > 0)), what="wrong direction")
        if unit == "rad":
            t = Poly.const(const)
            for i, n in comb.items():
                t = t + Poly.of(real.ATOMS[i]).scale(n)
            z = t.z3()
            self._check(label + ":range", z3.Or(z <= -1, z > 1),
                        margins=(z3.Or(z < real.Q2z(Fraction(-11, 10)), z > real.Q2z(Fraction(11, 10))),),
                        what="angle outside (-pi, pi]")

    def angle_zero_iff(self, label, res, target_ht, x, y):
        """res == 0 iff target (in half turns, in (-1, 1]) is the angle of (x, y)."""
        r = lift(_num(_obj_array(res).ravel()[0]))
        if isinstance(r, tuple):
            return self._check(label, True, what="residual is not finite")
        px, py = lift(_num(x)), lift(_num(y))
        star = real.angle_atom(py, px)
        tt = lift(target_ht)
        diffz = (tt - Poly.of(star)).z3() == 0
        rz = r.z3() == 0
        lemmas = []
        # res + target (radians) minus the true angle: integer combination of angle atoms
        e = r + tt * real.PIp() - Poly.of(star) * real.PIp()
        try:
            const, comb = real.halfturns(e)
            cs, sn = real.cossin_halfturns(const, comb)
            t = Poly.const(const)
            for i, n in comb.items():
                t = t + Poly.of(real.ATOMS[i]).scale(n)
            k = z3.Int(self.c.fresh("turn"))
            lemmas.append(z3.Implies(z3.And(cs.z3() == 1, sn.z3() == 0), t.z3() == 2 * z3.ToReal(k)))
            lemmas.append(z3.And(k >= -4, k <= 4))
        except core.Unsupported:
            pass
        pi = real.PIp().z3()
        self._check(label, z3.And(lemmas + [z3.Xor(rz, diffz)]), what="residual zero and target angle disagree")

    def raises(self, label, fn, excs, what=""):
        """fn must raise one of excs (assertion)."""
        try:
            r = fn()
        except excs as e:
            self._check(label, False)
            return e
        self._check(label, True, what=what or "no error was raised")
        return None

    def fails(self, fn, excs=(Exception,)):
        """Whether fn raises (no assertion)."""
        try:
            fn()
        except excs:
            return True
        return False

    def show(self, x):
        return repr(x)


def _num(x):
    if isinstance(x, np.ndarray):
        return x[()] if x.ndim == 0 else x
    return x


class ConcW(Base):
    symbolic = False
    NZ = 1e-5

    def __init__(self, values, m, tier="quick", tol=1e-7):
        self.values = values
        self.m = m
        self.tol = tol
        self.tier = tier
        self.checks = 0
        self.used = {}
        self.failures = []
        self.keep_going = False

    def real(self, name, kind="float", lo=None, hi=None):
        v = self.values.get(name, 0)
        self.used[name] = v
        v = Fraction(v)
        if kind == "int":
            x = int(v)
        elif kind == "npint":
            x = np.int64(int(v))
        elif kind == "npfloat":
            x = np.float64(float(v))
        else:
            x = float(v)
        return x

    def string(self, name, minlen=1, maxlen=3):
        return str(self.values.get(name, "k"))

    def choice(self, name, options):
        options = list(options)
        if len(options) == 1:
            return options[0]
        return options[int(self.values.get(name, 0))]

    def bool(self, name):
        return bool(self.choice(name, [False, True]))

    def arr(self, xs, shape=None):
        a = np.array([float(x) for x in xs], dtype=float)
        return a if shape is None else a.reshape(shape)

    def arr0(self, x):
        return np.array(x)

    def jnp(self, x):
        import jax.numpy as jnp
        return jnp.asarray(x, dtype=float)

    def pi(self):
        return math.pi

    def assume(self, cond):
        if isinstance(cond, np.ndarray):
            cond = cond.all()
        if not cond:
            raise core.PathAbort("assumption fails on concrete values")

    def assume_or(self, *conds):
        self.assume(any(bool(c) for c in conds))

    def distinct(self, *strs):
        self.assume(len(set(strs)) == len(strs))

    def feasible(self):
        pass

    def sqrt(self, x):
        return math.sqrt(x) if x >= 0 else math.nan

    def norm(self, v):
        return math.sqrt(sum(float(x) ** 2 for x in v))

    def power(self, x, e):
        return float(np.power(float(x), float(e)))

    def _fail(self, label, what):
        raise Failed(label, what)

    def true(self, label, cond, what=""):
        self.checks += 1
        if isinstance(cond, np.ndarray):
            cond = cond.all()
        if not bool(cond):
            self._fail(label, what or "condition is false")

    def eq(self, label, got, want):
        self.checks += 1
        self._eq(label, got, want)

    def same(self, label, got, want):
        """Equality of values that are only passed on: no rounding is due."""
        tol, self.tol = self.tol, 0
        try:
            self.eq(label, got, want)
        finally:
            self.tol = tol

    def _eq(self, label, got, want):
        if isinstance(want, str) or isinstance(got, str):
            if not (isinstance(want, str) and isinstance(got, str)) or got != want:
                self._fail(label, f"got {got!r}, expected {want!r}")
            return
        if want is None or got is None:
            if got is not want:
                self._fail(label, f"got {got!r}, expected {want!r}")
            return
        if isinstance(want, dict) or isinstance(got, dict):
            return self._eq(label, list(got.items()), list(want.items()))
        if isinstance(want, (list, tuple)) and any(not _isnum(x) and not isinstance(x, np.ndarray) for x in want):
            got = list(got) if not isinstance(got, (list, tuple)) else got
            if len(got) != len(want):
                self._fail(label, f"length {len(got)}, expected {len(want)}: {got!r}")
            for g, x in zip(got, want):
                self._eq(label, g, x)
            return
        if _isnum(want) or isinstance(want, (list, tuple, np.ndarray)) or hasattr(want, "__array__"):
            try:
                g, x = np.asarray(got, dtype=float), np.asarray(want, dtype=float)
            except (TypeError, ValueError):
                g, x = got, want
                if g != x:
                    self._fail(label, f"got {got!r}, expected {want!r}")
                return
            if g.size != x.size or (g.ndim > 1 or x.ndim > 1) and g.shape != x.shape:
                self._fail(label, f"shape {g.shape}, expected {x.shape}")
            g, x = g.ravel(), x.ravel()
            for a, b in zip(g, x):
                if math.isnan(a) and math.isnan(b):
                    continue
                if not (abs(a - b) <= self.tol * (1 + abs(b)) or a == b):
                    self._fail(label, f"got {got!r}, expected {want!r}")
            return
        if not (got is want or got == want):
            self._fail(label, f"got {got!r}, expected {want!r}")

    def zero_iff(self, label, res, eqs):
        self.checks += 1
        r, rn = self._mags(res)
        e, _ = self._mags(eqs)
        scale = 1e-8
        if rn:
            if e <= scale:
                self._fail(label + ":nan", f"residual {res!r} is not finite although the relation holds")
            return
        if r <= scale and e >= self.NZ:
            self._fail(label + ":only-if", f"residual {np.asarray(res)!r} is zero but the relation is off by {e}")
        if e <= scale and r >= self.NZ:
            self._fail(label + ":if", f"the relation holds but the residual is {np.asarray(res)!r}")

    def _mags(self, xs):
        vals = []
        nf = False
        items = []
        if isinstance(xs, (list, tuple)):
            for x in xs:
                items.extend([x] if isinstance(x, (bool, np.bool_)) else list(np.asarray(x).ravel()))
        else:
            items = list(np.asarray(xs).ravel())
        for x in items:
            if isinstance(x, (bool, np.bool_)):
                vals.append(0.0 if x else 1.0)
            else:
                f = float(x)
                if not math.isfinite(f):
                    nf = True
                else:
                    vals.append(abs(f))
        return max(vals, default=0.0), nf

    def angle_is(self, label, got, x, y, unit="rad"):
        self.checks += 1
        g = float(np.asarray(got).ravel()[0])
        if unit == "deg":
            g = g * math.pi / 180
        t = math.atan2(float(y) + 0.0, float(x) + 0.0)
        d = (g - t) % (2 * math.pi)
        d = min(d, 2 * math.pi - d)
        if not d <= 1e-6:
            self._fail(label, f"angle {g} rad, direction is at {t} rad")
        if unit == "rad" and not (-math.pi - 1e-9 <= g <= math.pi + 1e-9):
            self._fail(label + ":range", f"angle {g} outside (-pi, pi]")

    def angle_zero_iff(self, label, res, target_ht, x, y):
        self.checks += 1
        r = abs(float(np.asarray(res).ravel()[0]))
        e = abs(float(target_ht) - math.atan2(float(y) + 0.0, float(x) + 0.0) / math.pi)
        if r <= 1e-8 and e >= self.NZ or e <= 1e-8 and r >= self.NZ or math.isnan(r):
            self._fail(label, f"residual {r}, target is off the angle by {e} half turns")

    def raises(self, label, fn, excs, what=""):
        self.checks += 1
        try:
            fn()
        except excs as e:
            return e
        self._fail(label, what or "no error was raised")

    def fails(self, fn, excs=(Exception,)):
        try:
            fn()
        except excs:
            return True
        return False

    def show(self, x):
        return repr(x)
