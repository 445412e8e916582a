"""Symbolic strings: concatenations of literals and slash-free z3 strings.

Whether and where a string contains '/' is structural (known), the content of
the slash-free pieces is symbolic.  Equality, prefix tests and ordering become
z3 sequence constraints.
"""
from __future__ import annotations

import z3

from . import core
from .real import mkbool


class Piece:
    """A slash-free symbolic string."""
    __slots__ = ("e", "maxlen")

    def __init__(self, e, maxlen):
        self.e = e
        self.maxlen = maxlen

    def __eq__(self, o):
        return isinstance(o, Piece) and self.e.eq(o.e)

    def __hash__(self):
        return self.e.hash()


def norm(parts):
    out = []
    for p in parts:
        if isinstance(p, str):
            if not p:
                continue
            if out and isinstance(out[-1], str):
                out[-1] += p
                continue
        out.append(p)
    return tuple(out)


def make(parts):
    parts = norm(parts)
    if all(isinstance(p, str) for p in parts):
        return "".join(parts)
    return SymStr(parts)


def parts_of(s):
    if isinstance(s, SymStr):
        return s.parts
    if isinstance(s, str):
        return (s,) if s else ()
    raise TypeError(f"expected str instance, {type(s).__name__} found")


def z3_of(parts):
    if not parts:
        return z3.StringVal("")
    es = [z3.StringVal(p) if isinstance(p, str) else p.e for p in parts]
    return es[0] if len(es) == 1 else z3.Concat(*es)


def segments(parts):
    """Split parts at literal slashes: list of part tuples."""
    segs = [[]]
    for p in parts:
        if isinstance(p, str):
            bits = p.split("/")
            segs[-1].append(bits[0])
            for b in bits[1:]:
                segs.append([b])
        else:
            segs[-1].append(p)
    return [norm(s) for s in segs]


def eq_expr(a, b):
    """z3/py bool for equality of two part tuples."""
    if a == b:
        return True
    sa, sb = segments(a), segments(b)
    if len(sa) != len(sb):
        return False
    conj = []
    for x, y in zip(sa, sb):
        r = seg_eq(x, y)
        if r is False:
            return False
        if r is not True:
            conj.append(r)
    if not conj:
        return True
    return z3.And(conj) if len(conj) > 1 else conj[0]


def aligned(ss, ps, i):
    """z3/py bool: the pattern with segments ps occurs in ss with its first slash being the i-th one (from 0)."""
    k = len(ps) - 1
    conj = []
    for j, p in enumerate(ps):
        s = ss[i + j]
        if not p and j in (0, k):
            continue
        if s == p:
            continue
        if 0 < j < k:
            r = seg_eq(s, p)
        elif j == 0:
            r = s[-len(p):] == p or z3.SuffixOf(z3_of(p), z3_of(s))
        else:
            r = s[:len(p)] == p or z3.PrefixOf(z3_of(p), z3_of(s))
        if r is False:
            return False
        if r is not True:
            conj.append(r)
    return z3.And(conj) if len(conj) > 1 else conj[0] if conj else True


def fork(r):
    return r if isinstance(r, bool) else core.ctx().fork(r)


def without(seg, cut, end):
    """The segment without a known prefix (suffix if `end`)."""
    if not cut:
        return seg
    if seg == cut:
        return ()
    if end and seg[-len(cut):] == cut:
        return seg[:-len(cut)]
    if not end and seg[:len(cut)] == cut:
        return seg[len(cut):]
    if fork(seg_eq(seg, cut)):
        return ()
    s, n = z3_of(seg), z3.Length(z3_of(seg)) - z3.Length(z3_of(cut))
    most = sum(len(p) if isinstance(p, str) else p.maxlen for p in seg)
    return (Piece(z3.SubString(s, 0 if end else z3.Length(z3_of(cut)), n), most),)


def split_slashed(parts, sep, maxsplit):
    """Split at a separator that begins or ends with a slash."""
    ss, ps = segments(parts), segments(sep)
    k = len(ps) - 1
    out, cur, i = [], [ss[0]], 0
    while i < len(ss) - 1:
        if (maxsplit < 0 or len(out) < maxsplit) and i + k < len(ss) and fork(aligned([cur[-1]] + ss[i + 1:], ps, 0)):
            cur[-1] = without(cur[-1], ps[0], True)
            out.append(_join_segs(cur))
            i += k
            cur = [without(ss[i], ps[k], False)]
        else:
            i += 1
            cur.append(ss[i])
    return out + [_join_segs(cur)]


def seg_eq(x, y):
    x, y = list(x), list(y)
    # strip common prefix / suffix
    while x and y:
        if x[0] == y[0]:
            x.pop(0)
            y.pop(0)
        elif isinstance(x[0], str) and isinstance(y[0], str):
            n = min(len(x[0]), len(y[0]))
            if x[0][:n] != y[0][:n]:
                return False
            x[0], y[0] = x[0][n:], y[0][n:]
            x = [p for p in x if p != ""]
            y = [p for p in y if p != ""]
        else:
            break
    while x and y:
        if x[-1] == y[-1]:
            x.pop()
            y.pop()
        elif isinstance(x[-1], str) and isinstance(y[-1], str):
            n = min(len(x[-1]), len(y[-1]))
            if x[-1][-n:] != y[-1][-n:]:
                return False
            x[-1], y[-1] = x[-1][:-n], y[-1][:-n]
            x = [p for p in x if p != ""]
            y = [p for p in y if p != ""]
        else:
            break
    if not x and not y:
        return True
    lx = sum(len(p) for p in x if isinstance(p, str))
    ly = sum(len(p) for p in y if isinstance(p, str))
    mx = lx + sum(p.maxlen for p in x if not isinstance(p, str))
    my = ly + sum(p.maxlen for p in y if not isinstance(p, str))
    if mx < ly or my < lx:
        return False
    return z3_of(x) == z3_of(y)


class Position:
    """What find() returns: whether there is a match is decided before where it is."""

    def __init__(self, s, sub, where):
        self.s, self.sub, self.where, self.v = s, sub, where, None

    def n(self):
        if self.v is None:
            self.v = self.where()
        return self.v

    def _cmp(self, o, f):
        # which side of the boundary between -1 and 0
        if self.v is None and o in (-1, 0):
            a, b = f(-1, o), {f(0, o), f(1, o)}
            if len(b) == 1 and self.sub not in self.s:
                self.v = -1
                return a
            if len(b) == 1:
                return b.pop()
        return f(self.n(), o)

    def __eq__(self, o):
        return self._cmp(o, lambda a, b: a == b)

    def __ne__(self, o):
        return self._cmp(o, lambda a, b: a != b)

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b)

    def __bool__(self):
        return self.n() != 0

    def __index__(self):
        return self.n()

    __int__ = __hash__ = __index__

    def __add__(self, o):
        return self.n() + o

    __radd__ = __add__

    def __sub__(self, o):
        return self.n() - o

    def __rsub__(self, o):
        return o - self.n()

    def __neg__(self):
        return -self.n()

    def __invert__(self):
        return ~self.n()


class SymStr:
    """Symbolic stand-in for a `str`."""
    __slots__ = ("parts",)

    def __init__(self, parts):
        self.parts = norm(parts)

    @property
    def z3(self):
        return z3_of(self.parts)

    def maxlen(self):
        return sum(len(p) if isinstance(p, str) else p.maxlen for p in self.parts)

    # equality / ordering ----------------------------------------------------
    def __eq__(self, o):
        if isinstance(o, (SymStr, str)):
            r = eq_expr(self.parts, parts_of(o))
            return r if isinstance(r, bool) else mkbool(r)
        return NotImplemented

    def __ne__(self, o):
        r = self.__eq__(o)
        if r is NotImplemented:
            return r
        return (not r) if isinstance(r, bool) else ~r

    def __lt__(self, o):
        return mkbool(self.z3 < z3_of(parts_of(o)))

    def __gt__(self, o):
        return mkbool(z3_of(parts_of(o)) < self.z3)

    def __le__(self, o):
        return mkbool(self.z3 <= z3_of(parts_of(o)))

    def __ge__(self, o):
        return mkbool(z3_of(parts_of(o)) <= self.z3)

    def __hash__(self):
        return hash(self.concrete())

    def __bool__(self):
        if any(isinstance(p, str) for p in self.parts):
            return True
        return not bool(self == "")

    # building -----------------------------------------------------------------
    def __add__(self, o):
        if not isinstance(o, (str, SymStr)):
            return NotImplemented
        return make(self.parts + parts_of(o))

    def __radd__(self, o):
        if not isinstance(o, (str, SymStr)):
            return NotImplemented
        return make(parts_of(o) + self.parts)

    def __mul__(self, n):
        return make(self.parts * n)

    __rmul__ = __mul__

    def join(self, items):
        return join(self, items)

    def __str__(self):
        return "".join(p if isinstance(p, str) else "\u2039sym\u203a" for p in self.parts)

    def __repr__(self):
        return repr(str(self))

    def __format__(self, spec):
        return str(self)

    # inspection -----------------------------------------------------------------
    def concrete(self) -> str:
        """Fix this string to a model value (partial coverage)."""
        c = core.ctx()
        st, m = c.solve([z3.BoolVal(True), self.z3 == self.z3])
        st, m = c.raw_solve(c.slice([self.z3 == z3.String("!c")]) + [z3.String("!c") == self.z3])
        if st != "sat":
            raise core.Unsupported("cannot concretize string")
        v = core.z3_str(m.eval(z3.String("!c"), model_completion=True))
        c.add_pc(self.z3 == z3.StringVal(v))
        c.incomplete.append("a string was concretized")
        c.stats.concretized += 1
        return v

    def __len__(self):
        c = core.ctx()
        lo = sum(len(p) for p in self.parts if isinstance(p, str))
        hi = self.maxlen()
        L = z3.Length(self.z3)
        for n in range(lo, hi):
            if c.fork(L == n):
                return n
        c.add_pc(L == hi)
        return hi

    def __contains__(self, o):
        op = parts_of(o)
        if not op:
            return True
        if isinstance(o, str):
            if any(isinstance(p, str) and o in p for p in self.parts):
                return True
        ss, ps = segments(self.parts), segments(op)
        if len(ss) < len(ps):
            return False
        if len(ps) > 1:
            rs = [aligned(ss, ps, i) for i in range(len(ss) - len(ps) + 1)]
            if any(r is True for r in rs):
                return True
            rs = [r for r in rs if r is not False]
            return core.ctx().fork(z3.Or(rs)) if rs else False
        return core.ctx().fork(z3.Contains(self.z3, z3_of(op)))

    def startswith(self, pre, start=0, end=None):
        if isinstance(pre, tuple):
            return any(self.startswith(p) for p in pre)
        if start or end is not None:
            return self[start:end].startswith(pre)
        pp = parts_of(pre)
        if not pp:
            return True
        if self.parts[:len(pp)] == pp:
            return True
        if isinstance(pre, str) and isinstance(self.parts[0], str):
            h = self.parts[0]
            n = min(len(h), len(pre))
            if h[:n] != pre[:n]:
                return False
            if len(h) >= len(pre):
                return True
        ss, ps = segments(self.parts), segments(pp)
        if len(ps) > 1 or len(ss) > 1:
            # prefixed by a slash, a prefix is aligned with the first slash
            return len(ps) <= len(ss) and fork(aligned([()] + ss, [()] + ps, 0))
        return core.ctx().fork(z3.PrefixOf(z3_of(pp), self.z3))

    def endswith(self, suf, start=0, end=None):
        if isinstance(suf, tuple):
            return any(self.endswith(p) for p in suf)
        sp = parts_of(suf)
        if not sp:
            return True
        if self.parts[-len(sp):] == sp:
            return True
        if isinstance(suf, str) and isinstance(self.parts[-1], str):
            h = self.parts[-1]
            n = min(len(h), len(suf))
            if h[-n:] != suf[-n:]:
                return False
            if len(h) >= len(suf):
                return True
        ss, ps = segments(self.parts), segments(sp)
        if len(ps) > 1 or len(ss) > 1:
            return len(ps) <= len(ss) and fork(aligned(ss + [()], ps + [()], len(ss) - len(ps)))
        return core.ctx().fork(z3.SuffixOf(z3_of(sp), self.z3))

    def removeprefix(self, pre):
        if self.startswith(pre):
            pp = parts_of(pre)
            if self.parts[:len(pp)] == pp:
                return make(self.parts[len(pp):])
            return self[len(pre):]
        return self

    def removesuffix(self, suf):
        if len(suf) and self.endswith(suf):
            return self[: len(self) - len(suf)]
        return self

    def count(self, sub):
        if isinstance(sub, str) and sub == "/":
            return len(segments(self.parts)) - 1
        if not len(sub):
            return len(self) + 1
        return len(self.split(sub)) - 1

    def _where(self, sub, a, last=False):
        """Branch on the position of `sub`."""
        n = len(sub)
        if last:
            if sub not in self:
                return -1
            e = z3.LastIndexOf(self.z3, z3_of(parts_of(sub)))
            lo, hi = 0, self.maxlen() - n
        else:
            e = z3.IndexOf(self.z3, z3_of(parts_of(sub)), a)
            if a == 0 and sub not in self or a and core.ctx().fork(e < 0):
                return -1
            lo, hi = a, self.maxlen() - n
        for k in range(lo, hi):
            if core.ctx().fork(e == k):
                return k
        core.ctx().add_pc(e == hi)
        return hi

    def find(self, sub, *a):
        if isinstance(sub, str) and sub == "/" and not a:
            s = segments(self.parts)
            if len(s) == 1:
                return -1
            return len(make(s[0]))
        if len(a) > 1 or a and a[0] is not None and a[0] < 0 or isinstance(sub, str) and not sub:
            return self._c().find(sub, *a)
        a = a[0] or 0 if a else 0
        if a == 0:
            return Position(self, sub, lambda: self._where(sub, 0))
        return self._where(sub, a)

    def index(self, sub, *a):
        r = self.find(sub, *a)
        if r < 0:
            raise ValueError("substring not found")
        return r

    def rfind(self, sub, *a):
        if isinstance(sub, str) and sub == "/" and not a:
            s = segments(self.parts)
            if len(s) == 1:
                return -1
            return len(self) - len(make(s[-1])) - 1
        if a or isinstance(sub, str) and not sub:
            return self._c().rfind(sub, *a)
        return Position(self, sub, lambda: self._where(sub, 0, last=True))

    def rindex(self, sub, *a):
        r = self.rfind(sub, *a)
        if r < 0:
            raise ValueError("substring not found")
        return r

    def split(self, sep=None, maxsplit=-1):
        if sep == "/":
            segs = segments(self.parts)
            if maxsplit is not None and 0 <= maxsplit < len(segs) - 1:
                head = segs[:maxsplit]
                tail = segs[maxsplit:]
                return [make(s) for s in head] + [_join_segs(tail)]
            return [make(s) for s in segs]
        if sep is None or not len(sep):
            return self._c().split(sep, maxsplit)
        ps = segments(parts_of(sep))
        if len(ps) > 1 and not (ps[0] and ps[-1]):
            return split_slashed(self.parts, parts_of(sep), maxsplit)
        out, rest = [], self
        while maxsplit < 0 or len(out) < maxsplit:
            h, m, t = _part(rest, sep, "find")
            if not m:
                break
            out.append(h)
            rest = t
        return out + [rest]

    def rsplit(self, sep=None, maxsplit=-1):
        if sep == "/":
            segs = segments(self.parts)
            if maxsplit is not None and 0 <= maxsplit < len(segs) - 1:
                k = len(segs) - maxsplit
                return [_join_segs(segs[:k])] + [make(s) for s in segs[k:]]
            return [make(s) for s in segs]
        if sep is None or not len(sep):
            return self._c().rsplit(sep, maxsplit)
        out, rest = [], self
        while maxsplit < 0 or len(out) < maxsplit:
            h, m, t = _part(rest, sep, "rfind")
            if not m:
                break
            out.append(t)
            rest = h
        return [rest] + out[::-1]

    def partition(self, sep):
        if sep == "/":
            segs = segments(self.parts)
            if len(segs) == 1:
                return (self, "", "")
            return (make(segs[0]), "/", _join_segs(segs[1:]))
        return _part(self, sep, "find")

    def rpartition(self, sep):
        if sep == "/":
            segs = segments(self.parts)
            if len(segs) == 1:
                return ("", "", self)
            return (_join_segs(segs[:-1]), "/", make(segs[-1]))
        return _part(self, sep, "rfind")

    def strip(self, chars=None):
        return self.lstrip(chars).rstrip(chars) if chars == "/" else self._c().strip(chars)

    def lstrip(self, chars=None):
        if chars == "/":
            segs = segments(self.parts)
            while len(segs) > 1 and not bool(make(segs[0]) != ""):
                segs = segs[1:]
            return _join_segs(segs)
        return self._c().lstrip(chars)

    def rstrip(self, chars=None):
        if chars == "/":
            segs = segments(self.parts)
            while len(segs) > 1 and not bool(make(segs[-1]) != ""):
                segs = segs[:-1]
            return _join_segs(segs)
        return self._c().rstrip(chars)

    def replace(self, old, new, count=-1):
        if isinstance(old, str) and old == "/":
            segs = segments(self.parts)
            if count is not None and 0 <= count < len(segs) - 1:
                a = join(new, [make(s) for s in segs[:count + 1]])
                return make(parts_of(a) + ("/",) + parts_of(_join_segs(segs[count + 1:])))
            return join(new, [make(s) for s in segs])
        # replace inside the literal parts when no symbolic piece can contain it
        if isinstance(old, str) and old and not (old in self):
            return self
        if not len(old):
            return self._c().replace(old, conc(new), count)
        return join(new, self.split(old, -1 if count is None else count))

    def __getitem__(self, i):
        if isinstance(i, slice) and i.step in (None, 1):
            r = self._slice(i.start, i.stop)
            if r is not None:
                return r
            n = len(self)
            a, b, _ = i.indices(n)
            return self._sub(a, max(a, b))
        n = len(self)
        if isinstance(i, slice):
            return join("", [self._sub(k, k + 1) for k in range(*i.indices(n))])
        if i < 0:
            i += n
        if not 0 <= i < n:
            raise IndexError("string index out of range")
        return self._sub(i, i + 1)

    def _slice(self, a, b):
        """Structural slicing on leading / trailing literals."""
        parts = list(self.parts)
        a = a or 0
        if a > 0:
            if parts and isinstance(parts[0], str) and len(parts[0]) >= a:
                parts[0] = parts[0][a:]
                a = 0
            else:
                return None
        elif a < 0:
            return None
        if b is None:
            return make(parts)
        if b < 0:
            if parts and isinstance(parts[-1], str) and len(parts[-1]) >= -b:
                parts[-1] = parts[-1][:b]
                return make(parts)
            return None
        if b == 0:
            return ""
        if i_lit(self.parts) >= b and a == 0:
            return self.parts[0][:b]
        return None

    def _sub(self, a, b):
        """Substring when the total length is known on this path."""
        if a >= b:
            return ""
        # walk the parts, forcing lengths of the pieces
        out = []
        pos = 0
        for p in self.parts:
            n = len(p) if isinstance(p, str) else len(SymStr((p,)))
            lo, hi = max(a - pos, 0), min(b - pos, n)
            if lo < hi:
                if isinstance(p, str):
                    out.append(p[lo:hi])
                elif lo == 0 and hi == n:
                    out.append(p)
                else:
                    out.append(Piece(z3.SubString(p.e, lo, hi - lo), hi - lo))
            pos += n
        return make(out)

    def __iter__(self):
        for k in range(len(self)):
            yield self[k]

    def isdigit(self):
        d = z3.Plus(z3.Range("0", "9"))
        return core.ctx().fork(z3.InRe(self.z3, d))

    isdecimal = isnumeric = isdigit

    def encode(self, *a):
        return self.concrete().encode(*a)

    def _c(self):
        return self.concrete()

    def upper(self):
        return self._c().upper()

    def lower(self):
        return self._c().lower()

    def title(self):
        return self._c().title()

    def format(self, *a, **k):
        return self._c().format(*a, **k)

    def isidentifier(self):
        return self._c().isidentifier()

    def isalpha(self):
        return self._c().isalpha()

    def isalnum(self):
        return self._c().isalnum()

    def casefold(self):
        return self._c().casefold()

    def splitlines(self):
        return self._c().splitlines()

    def zfill(self, n):
        return self._c().zfill(n)


def _part(s, sep, how):
    i = int(getattr(SymStr(parts_of(s)) if isinstance(s, str) else s, how)(sep))
    if i < 0:
        return (s, "", "") if how == "find" else ("", "", s)
    return s[:i], sep, s[i + len(sep):]


def i_lit(parts):
    return len(parts[0]) if parts and isinstance(parts[0], str) else 0


def _join_segs(segs):
    out = []
    for k, s in enumerate(segs):
        if k:
            out.append("/")
        out.extend(s)
    return make(out)


def join(sep, items):
    out = []
    for k, it in enumerate(items):
        if k:
            out.extend(parts_of(sep))
        out.extend(parts_of(it))
    return make(out)


def conc(s):
    return s.concrete() if isinstance(s, SymStr) else s


_PRINT_NOSLASH = None


def alphabet():
    global _PRINT_NOSLASH
    if _PRINT_NOSLASH is None:
        _PRINT_NOSLASH = z3.Union(z3.Range(" ", "."), z3.Range("0", "~"))
    return _PRINT_NOSLASH


def new_piece(name, minlen, maxlen):
    """A fresh slash-free printable-ASCII string variable of bounded length."""
    v = z3.String(name)
    c = core.ctx()
    c.add_pc(z3.InRe(v, z3.Loop(alphabet(), minlen, maxlen)))
    return Piece(v, maxlen)
