"""Concrete points of a path, found without the solver: they show a branch to be reachable when the solver cannot tell."""
from __future__ import annotations

import math
import random
import time
from fractions import Fraction

import z3

_compiled: dict = {}


class NoValue(Exception):
    pass


_BIN = {z3.Z3_OP_LE: "<=", z3.Z3_OP_GE: ">=", z3.Z3_OP_LT: "<", z3.Z3_OP_GT: ">"}


def _same(a, b):
    if isinstance(a, bool) or isinstance(b, bool):
        return bool(a) == bool(b)
    return abs(a - b) <= 1e-9 * (1 + abs(a) + abs(b))


def _div(a, b):
    if b == 0:
        raise NoValue
    return a / b


def compile_expr(e):
    """A function env -> value for a z3 expression over reals, ints and booleans."""
    k = e.get_id()
    r = _compiled.get(k)
    if r is not None and r[0].eq(e):
        return r[1]
    lines, names = [], {}
    stack = [(e, False)]
    while stack:
        t, done = stack.pop()
        i = t.get_id()
        if i in names:
            continue
        ch = t.children()
        if not done and ch:
            stack.append((t, True))
            stack.extend((c, False) for c in ch)
            continue
        a = [names[c.get_id()] for c in ch]
        op = t.decl().kind()
        if op == z3.Z3_OP_UNINTERPRETED:
            if ch:
                raise NoValue
            x = f"env({t.decl().name()!r})"
        elif op == z3.Z3_OP_ANUM:
            q = t.as_fraction() if z3.is_rational_value(t) else Fraction(t.as_long())
            x = repr(q.numerator / q.denominator)
        elif op == z3.Z3_OP_TRUE:
            x = "True"
        elif op == z3.Z3_OP_FALSE:
            x = "False"
        elif op == z3.Z3_OP_ADD:
            x = " + ".join(a)
        elif op == z3.Z3_OP_SUB:
            x = " - ".join(a)
        elif op == z3.Z3_OP_MUL:
            x = " * ".join(a)
        elif op == z3.Z3_OP_UMINUS:
            x = "-" + a[0]
        elif op == z3.Z3_OP_DIV:
            x = f"div({a[0]}, {a[1]})"
        elif op == z3.Z3_OP_POWER:
            x = f"{a[0]} ** {a[1]}"
        elif op == z3.Z3_OP_TO_REAL:
            x = a[0]
        elif op in _BIN:
            x = f"{a[0]} {_BIN[op]} {a[1]}"
        elif op == z3.Z3_OP_EQ:
            x = f"same({a[0]}, {a[1]})"
        elif op == z3.Z3_OP_NOT:
            x = f"not {a[0]}"
        elif op == z3.Z3_OP_AND:
            x = "bool(" + " and ".join(a) + ")"
        elif op == z3.Z3_OP_OR:
            x = "bool(" + " or ".join(a) + ")"
        elif op == z3.Z3_OP_IMPLIES:
            x = f"(not {a[0]}) or {a[1]}"
        elif op == z3.Z3_OP_ITE:
            x = f"{a[1]} if {a[0]} else {a[2]}"
        elif op == z3.Z3_OP_XOR:
            x = f"bool({a[0]}) != bool({a[1]})"
        else:
            raise NoValue
        n = f"v{len(names)}"
        names[i] = n
        lines.append(f" {n} = {x}")
    src = "def f(env):\n" + "\n".join(lines) + f"\n return {names[e.get_id()]}\n"
    d = {"same": _same, "div": _div}
    exec(src, d)
    _compiled[k] = (e, d["f"])
    return d["f"]


class Point:
    """Values of the inputs; derived symbols are computed on demand."""

    def __init__(self, values):
        self.values = values
        self.upto = 0
        self.ok = True
        self.atoms = {}

    def __call__(self, name):
        from . import real
        if name in self.values:
            return self.values[name]
        a = real.BYNAME.get(name)
        if a is None:
            raise NoValue
        return self._atom(a)

    def _atom(self, a):
        from . import real
        env = self.atoms
        if a.id in env:
            return env[a.id]
        todo = [a]
        # inputs first: atom_value recurses into arguments and reads env by id
        seen = set()
        while todo:
            b = todo.pop()
            if b.id in env or b.id in seen:
                continue
            seen.add(b.id)
            if b.name in self.values:
                env[b.id] = float(self.values[b.name])
                continue
            if b.kind == "var":
                raise NoValue
            for p in b.args:
                if isinstance(p, real.Poly):
                    for m in p.t:
                        todo.extend(real.ATOMS[i] for i, _ in m)
            if b.kind in ("cos", "sin", "rad") and isinstance(b.extra, str):
                todo.append(real.BYNAME[b.extra])
        try:
            return real.atom_value(a, env)
        except (ZeroDivisionError, OverflowError, ValueError):
            raise NoValue from None
        except Exception:
            raise NoValue from None


class Sampler:
    def __init__(self, ctx):
        self.ctx = ctx
        self.rng = random.Random(ctx.seed + 1)
        self.points = []
        self.off = False
        self.seeded = -1

    def holds(self, p, forms):
        try:
            for f in forms:
                v = compile_expr(f)(p)
                if not v:
                    return False
            return True
        except (OverflowError, ZeroDivisionError):
            return False

    def alive(self, p):
        pc = self.ctx.pc
        while p.ok and p.upto < len(pc):
            p.ok = self.holds(p, pc[p.upto:p.upto + 1])
            p.upto += 1
        return p.ok

    def seed(self):
        """A point of the linear part of the path condition, from the solver."""
        c = self.ctx
        if self.seeded == len(c.pc):
            return
        self.seeded = len(c.pc)
        from .core import free_vars, value_of
        lin = [f for f in c.pc if free_vars(f) <= set(c.inputs)]
        s = z3.Solver()
        s.set("timeout", 500)
        for f in lin:
            s.add(f)
        if s.check() != z3.sat:
            return
        m = s.model()
        vals = {}
        for n, (kind, var, meta) in c.inputs.items():
            if kind not in ("real", "int", "bool"):
                raise NoValue
            vals[n] = value_of(m, var, kind)
        names = {n for f in lin for n in free_vars(f)}
        for n, (kind, var, meta) in c.inputs.items():
            if n not in names:
                vals[n] = c.default(kind, meta)
        vals = {n: float(v) if isinstance(v, Fraction) else v for n, v in vals.items()}
        # move about inside the linear part
        reals = [n for n, (k, *_) in c.inputs.items() if k == "real"]
        cur = Point(vals)
        if not self.holds(cur, lin):
            return
        by = {}
        for f in lin:
            for n in free_vars(f):
                by.setdefault(n, []).append(f)
        for _ in range(3):
            for n in reals:
                for scale in (8, 2, 0.3, 0.03):
                    q = Point({**cur.values, n: cur.values[n] + self.rng.uniform(-scale, scale)})
                    if self.holds(q, by.get(n, ())):
                        cur = q
                        break
            p = Point(dict(cur.values))
            if self.alive(p):
                self.points.append(p)

    def find(self, goals, tries=12):
        if self.off:
            return None
        try:
            self.points = [p for p in self.points if self.alive(p)]
            if not self.points:
                self.seed()
            for p in self.points:
                if self.holds(p, goals):
                    return p
            if not self.points:
                return None
            t0 = time.time()
            reals = [n for n, (k, *_) in self.ctx.inputs.items() if k == "real"]
            for i in range(tries):
                if time.time() - t0 > 0.5:
                    break
                b = self.rng.choice(self.points)
                scale = self.rng.choice([3, 0.5, 0.05])
                part = reals if i % 2 else self.rng.sample(reals, min(len(reals), 3))
                p = Point({**b.values, **{n: b.values[n] + self.rng.uniform(-scale, scale) for n in part}})
                if self.alive(p) and self.holds(p, goals):
                    self.points.append(p)
                    self.points = self.points[-8:]
                    return p
        except NoValue:
            self.off = True
        return None

    def values(self):
        p = self.find([])
        if p is None:
            return None
        return {n: Fraction(v).limit_denominator(1 << 20) if isinstance(v, float) else v for n, v in p.values.items()}
