"""Path context: decisions, path condition, solver queries.

One `Ctx` is alive per symbolic execution of a harness.  Execution is
re-execution based: a run follows a list of recorded decisions and, past its
end, asks z3 which side of a branch is feasible, takes one and queues the other.
"""
from __future__ import annotations

import os
import random
import time
from fractions import Fraction

import z3

from .sample import Sampler


class PathAbort(BaseException):
    """The current path is infeasible (or was cut by an assumption)."""


class Unsupported(BaseException):
    """The engine cannot continue symbolically on this path."""


class PathLimit(BaseException):
    pass


SLOW = float(os.environ.get("VX_SLOW", "0"))
CTX: "Ctx | None" = None


def ctx() -> "Ctx":
    if CTX is None:
        raise Unsupported("no symbolic context")
    return CTX


def set_ctx(c):
    global CTX
    CTX = c


class Stats:
    def __init__(self):
        self.queries = 0
        self.feasibility = 0
        self.unknown = 0
        self.solver_s = 0.0
        self.paths = 0
        self.aborted = 0
        self.decisions = 0
        self.obligations = 0
        self.discharged = 0
        self.replays = 0
        self.concretized = 0
        self.functions = set()
        self.slowest = 0.0


_vars_cache: dict = {}


def free_vars(e) -> frozenset:
    """Names of uninterpreted constants in a z3 expression (cached)."""
    k = e.get_id()
    r = _vars_cache.get(k)
    if r is not None and r[0].eq(e):
        return r[1]
    out = set()
    seen = set()
    todo = [e]
    while todo:
        t = todo.pop()
        i = t.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_const(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            out.add(t.decl().name())
        else:
            todo.extend(t.children())
    out = frozenset(out)
    _vars_cache[k] = (e, out)
    return out


class Ctx:
    def __init__(self, prefix=(), stats=None, timeout_ms=8000, seed=0, max_decisions=4000):
        self.prefix = list(prefix)
        self.taken = []
        self.pending = []       # new prefixes to explore
        self.pc = []            # z3 booleans
        self.pc_ids = {}
        self.stats = stats or Stats()
        self.timeout_ms = timeout_ms
        self.inputs = {}        # name -> (kind, z3 var, meta)
        self.rng = random.Random(seed)
        self.seed = seed
        self.max_decisions = max_decisions
        self.incomplete = []    # reasons why this path is not exhaustive
        self.notes = []
        self.fresh_n = 0
        self.free_dec = 0
        self.samples = Sampler(self)
        self.doubt_s = 0.0      # time spent on branches that stayed undecided

    # -- definitions ------------------------------------------------------
    def defs_for(self, names):
        """Defining constraints of derived symbols, transitively."""
        from . import real
        out = []
        seen = set()
        todo = list(names)
        while todo:
            n = todo.pop()
            if n in seen:
                continue
            seen.add(n)
            for d in real.definitions(n):
                out.append(d)
                todo.extend(free_vars(d) - seen)
        return out

    def slice(self, goals, base=None):
        """Constraints of the path condition connected to `goals`."""
        base = self.pc if base is None else base
        names = set()
        for g in goals:
            names |= free_vars(g)
        cons = list(base)
        chosen = []
        changed = True
        remaining = cons
        defs = []
        seen_defs = set()
        while changed:
            changed = False
            for d in self.defs_for(names):
                i = d.get_id()
                if i not in seen_defs:
                    seen_defs.add(i)
                    defs.append(d)
                    names |= free_vars(d)
            rest = []
            for c in remaining:
                fv = self._closure(c)
                if fv & names or not fv:
                    chosen.append(c)
                    names |= fv
                    changed = True
                else:
                    rest.append(c)
            remaining = rest
        return chosen + defs

    def _closure(self, c):
        """free variables of c with the variables of their definitions."""
        k = c.get_id()
        cc = getattr(self, "_clos", None)
        if cc is None:
            cc = self._clos = {}
        if k in cc:
            return cc[k]
        fv = set(free_vars(c))
        for d in self.defs_for(fv):
            fv |= free_vars(d)
        cc[k] = frozenset(fv)
        return cc[k]

    # -- solving ----------------------------------------------------------
    def solve(self, goals, timeout_ms=None, extra=(), feas=False):
        """Decide satisfiability of path condition (relevant slice) + goals."""
        goals = [g for g in goals]
        ex = list(extra)
        sl = self.slice(goals + ex)
        near_sat = False
        if len(sl) > 6 and not any(_has_strings(g) for g in goals):
            # a few constraints close to the goals are often enough to refute them
            fv, gv = set(), set()
            for g in goals + ex:
                fv |= self._closure(g)
                gv |= free_vars(g)
            defs = self.defs_for(gv)
            last, sat = None, False
            for near in ([c for c in self.pc if free_vars(c) == gv],
                         [c for c in self.pc if self._closure(c) <= fv]):
                k = len(near)
                if (near or defs) and k != last and k + len(defs) < len(sl):
                    last = k
                    r, m = self.raw_solve(near + defs + goals + ex,
                                          min(timeout_ms or self.timeout_ms, 700), feas, once=True)
                    sat = r == "sat"
                    if r == "unsat":
                        return r, m
            near_sat = sat
        if feas:
            # a point of the path settles what the solver is slow to tell; doubtful branches are explored
            to = timeout_ms or self.timeout_ms
            r, m = self.raw_solve(sl + goals + ex, min(to, 500), feas, once=True)
            if r != "unknown":
                return r, m
            if near_sat or self.samples.find(goals + ex) is not None:
                return "sat", None
            if self.doubt_s > 10:
                return "unknown", None
            t0 = time.time()
            r = self.raw_solve(sl + goals + ex, to, feas)
            if r[0] == "unknown":
                self.doubt_s += time.time() - t0
            return r
        return self.raw_solve(sl + goals + ex, timeout_ms, feas)

    def raw_solve(self, forms, timeout_ms=None, feas=False, once=False):
        t0 = time.time()
        to = timeout_ms or self.timeout_ms
        strings = any(_has_strings(f) for f in forms)
        if strings:
            s = z3.Solver()
        else:
            s = z3.SimpleSolver() if not forms else z3.Then(
                "simplify", "solve-eqs", "smt") .solver() if False else z3.Solver()
        s.set("timeout", to)
        s.set("random_seed", self.seed % 1000)
        for f in forms:
            s.add(f)
        r = s.check()
        if r == z3.unknown and not strings and not once:
            # second opinion: pure nlsat
            s2 = z3.Tactic("qfnra-nlsat").solver()
            s2.set("timeout", to // 2 if feas else to)
            for f in forms:
                s2.add(f)
            try:
                r = s2.check()
                s = s2
            except z3.Z3Exception:
                r = z3.unknown
        dt = time.time() - t0
        if SLOW and dt > SLOW:
            import traceback
            fr = [f"{f.name}:{f.lineno}" for f in traceback.extract_stack()[-9:-1]]
            print(f"slow {dt:.1f} {r} feas={feas} forms={len(forms)} {fr}", file=__import__("sys").stderr)
        st = self.stats
        st.queries += 1
        if feas:
            st.feasibility += 1
        st.solver_s += dt
        st.slowest = max(st.slowest, dt)
        if r == z3.sat:
            return "sat", s.model()
        if r == z3.unsat:
            return "unsat", None
        if not once:
            st.unknown += 1
        return "unknown", None

    def feasible(self, goal):
        r, _ = self.solve([goal], timeout_ms=min(self.timeout_ms, 3000), feas=True)
        return r != "unsat"

    # -- branching --------------------------------------------------------
    def add_pc(self, cond):
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return
        k = cond.get_id()
        if k in self.pc_ids:
            return
        self.pc_ids[k] = cond
        self.pc.append(cond)

    def known(self, cond):
        k = cond.get_id()
        if k in self.pc_ids:
            return True
        n = z3.simplify(z3.Not(cond))
        if n.get_id() in self.pc_ids:
            return False
        return None

    def fork(self, cond) -> bool:
        """Branch on a z3 boolean; returns the side this path takes."""
        if isinstance(cond, bool):
            return cond
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        kn = self.known(cond)
        if kn is not None:
            return kn
        i = len(self.taken)
        if i < len(self.prefix):
            d = self.prefix[i]
            self.taken.append(d)
            self.add_pc(cond if d else z3.Not(cond))
            return d
        if i >= self.max_decisions:
            raise PathLimit("decision limit")
        t = self.feasible(cond)
        f = self.feasible(z3.Not(cond))
        if t and f:
            self.pending.append(self.taken + [False])
            self.taken.append(True)
            self.stats.decisions += 1
            self.add_pc(cond)
            return True
        if t:
            self.taken.append(True)
            self.add_pc(cond)
            return True
        if f:
            self.taken.append(False)
            self.add_pc(z3.Not(cond))
            return False
        raise PathAbort("infeasible")

    def choose(self, z3int, n) -> int:
        """Branch over the n values 0..n-1 of a z3 integer."""
        for v in range(n - 1):
            if self.fork(z3int == v):
                return v
        self.add_pc(z3int == n - 1)
        return n - 1

    def assume(self, cond):
        if isinstance(cond, bool):
            if not cond:
                raise PathAbort("assume")
            return
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return
        if z3.is_false(cond):
            raise PathAbort("assume")
        self.add_pc(cond)

    def check_feasible_now(self):
        """Whether the whole path condition is satisfiable."""
        for comp in self.components(self.pc):
            r, _ = self.raw_solve(comp, feas=True)
            if r == "unsat":
                return False
        return True

    def components(self, forms):
        """Split constraints into variable-disjoint groups, with definitions."""
        groups = []
        for f in forms:
            fv = set(self._closure(f))
            g = [f]
            rest = []
            for (v, fs) in groups:
                if v & fv:
                    fv |= v
                    g = fs + g
                else:
                    rest.append((v, fs))
            groups = rest + [(fv, g)]
        out = []
        for v, fs in groups:
            out.append(fs + self.defs_for(v))
        return out

    # -- models -----------------------------------------------------------
    def model(self, goals=(), nice=True, quick=False):
        """Concrete values for every input satisfying pc + goals, or None.

        Returns (status, values) with values: name -> python value.
        """
        goals = list(goals)
        values = {}
        status = "sat"
        comps = self.components(self.pc + goals)
        covered = {}
        for comp in comps:
            m = None
            r = "unknown"
            if nice:
                bounds = self._nice(comp)
                if bounds:
                    r, m = self.raw_solve(comp + bounds, timeout_ms=1000 if quick else 4000, once=quick)
            if r != "sat" and quick:
                v = self.samples.values()
                if v is not None:
                    return "sat", v
            if r != "sat":
                r, m = self.raw_solve(comp, timeout_ms=3000 if quick else None, once=quick)
            if r == "unsat":
                return "unsat", None
            if r != "sat":
                return "unknown", None
            names = set()
            for f in comp:
                names |= free_vars(f)
            for n in names:
                if n in self.inputs:
                    covered[n] = m
        for n, (kind, var, meta) in self.inputs.items():
            if n in covered:
                values[n] = value_of(covered[n], var, kind)
            else:
                values[n] = self.default(kind, meta)
        return status, values

    def _nice(self, comp):
        out = []
        names = set()
        for f in comp:
            names |= free_vars(f)
        for n in names:
            if n in self.inputs:
                kind, var, meta = self.inputs[n]
                if kind == "real":
                    out.append(var <= 16)
                    out.append(var >= -16)
        return out

    def default(self, kind, meta):
        r = self.rng
        if kind == "real":
            return Fraction(r.randint(-160, 160), 16) + Fraction(r.randint(1, 9), 64)
        if kind == "int":
            lo, hi = (meta or (0, 3))
            return r.randint(lo, hi)
        if kind == "str":
            return "k" + "".join(r.choice("abcxyz") for _ in range(2))
        if kind == "bool":
            return bool(r.getrandbits(1))
        return 0

    def fresh(self, base):
        self.fresh_n += 1
        return f"{base}!{self.fresh_n}"


_str_cache: dict = {}


def _has_strings(e):
    k = e.get_id()
    r = _str_cache.get(k)
    if r is not None and r[0].eq(e):
        return r[1]
    seen = set()
    todo = [e]
    res = False
    while todo:
        t = todo.pop()
        i = t.get_id()
        if i in seen:
            continue
        seen.add(i)
        if t.sort().kind() in (z3.Z3_SEQ_SORT, z3.Z3_RE_SORT):
            res = True
            break
        todo.extend(t.children())
    _str_cache[k] = (e, res)
    return res


def value_of(m, var, kind):
    v = m.eval(var, model_completion=True)
    if kind == "real":
        if z3.is_rational_value(v):
            return Fraction(v.numerator_as_long(), v.denominator_as_long())
        if z3.is_algebraic_value(v):
            a = v.approx(30)
            return Fraction(a.numerator_as_long(), a.denominator_as_long())
        return Fraction(0)
    if kind == "int":
        return v.as_long()
    if kind == "bool":
        return z3.is_true(v)
    if kind == "str":
        return z3_str(v)
    return v


def z3_str(v):
    s = v.as_string()
    # z3 escapes non-printable characters as \u{xx}
    import re
    return re.sub(r"\\u\{([0-9a-fA-F]+)\}", lambda g: chr(int(g.group(1), 16)), s)
