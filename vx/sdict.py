"""Dictionaries and sets whose keys may be symbolic strings."""
from __future__ import annotations

from .strs import SymStr


def _symkey(k):
    if isinstance(k, SymStr):
        return True
    if isinstance(k, tuple):
        return any(_symkey(x) for x in k)
    return False


class SDict(dict):
    """dict subclass; falls back to ordered linear search under symbolic keys.

    Entries live in the underlying dict under an identity token for symbolic
    keys, so C-level `len`, truth and order agree with the Python view.
    """
    __slots__ = ("_sym",)

    class Tok:
        __slots__ = ("k",)

        def __init__(self, k):
            self.k = k

    def __init__(self, *a, **k):
        dict.__init__(self)
        self._sym = 0
        self.update(*a, **k)

    def _find(self, key):
        """The stored key equal to `key`, or None (may fork)."""
        if not self._sym and not _symkey(key):
            return key if dict.__contains__(self, key) else None
        if not _symkey(key) and dict.__contains__(self, key):
            # distinct keys are pairwise distinct on this path
            return key
        for sk in list(dict.keys(self)):
            rk = sk.k if isinstance(sk, SDict.Tok) else sk
            if type(rk) is not type(key) and not (_symkey(rk) or _symkey(key)):
                continue
            if not _symkey(rk) and not _symkey(key):
                continue
            if bool(rk == key):
                return sk
        return None

    def __getitem__(self, key):
        f = self._find(key)
        if f is None:
            m = getattr(type(self), "__missing__", None)
            if m is not None:
                return m(self, key)
            raise KeyError(key)
        return dict.__getitem__(self, f)

    def __setitem__(self, key, v):
        f = self._find(key)
        if f is not None:
            dict.__setitem__(self, f, v)
        elif _symkey(key):
            self._sym += 1
            dict.__setitem__(self, SDict.Tok(key), v)
        else:
            dict.__setitem__(self, key, v)

    def __delitem__(self, key):
        f = self._find(key)
        if f is None:
            raise KeyError(key)
        if isinstance(f, SDict.Tok):
            self._sym -= 1
        dict.__delitem__(self, f)

    def __contains__(self, key):
        return self._find(key) is not None

    @staticmethod
    def _real(k):
        return k.k if isinstance(k, SDict.Tok) else k

    def __iter__(self):
        return iter([self._real(k) for k in dict.keys(self)])

    def __reversed__(self):
        return iter([self._real(k) for k in dict.keys(self)][::-1])

    def keys(self):
        return KeysView(self)

    def values(self):
        return list(dict.values(self)) if self._sym else dict.values(self)

    def items(self):
        if not self._sym:
            return dict.items(self)
        return [(self._real(k), v) for k, v in dict.items(self)]

    def get(self, key, default=None):
        f = self._find(key)
        return default if f is None else dict.__getitem__(self, f)

    def pop(self, key, *d):
        f = self._find(key)
        if f is None:
            if d:
                return d[0]
            raise KeyError(key)
        if isinstance(f, SDict.Tok):
            self._sym -= 1
        return dict.pop(self, f)

    def popitem(self):
        k, v = dict.popitem(self)
        if isinstance(k, SDict.Tok):
            self._sym -= 1
        return self._real(k), v

    def setdefault(self, key, default=None):
        f = self._find(key)
        if f is None:
            self[key] = default
            return default
        return dict.__getitem__(self, f)

    def update(self, *a, **k):
        if a:
            src = a[0]
            if hasattr(src, "keys"):
                for kk in src.keys():
                    self[kk] = src[kk]
            else:
                for kk, v in src:
                    self[kk] = v
        for kk, v in k.items():
            self[kk] = v

    def clear(self):
        self._sym = 0
        dict.clear(self)

    def copy(self):
        return SDict(self.items())

    __copy__ = copy

    def __deepcopy__(self, memo):
        import copy
        return SDict([(k, copy.deepcopy(v, memo)) for k, v in self.items()])

    @classmethod
    def fromkeys(cls, it, v=None):
        return cls([(k, v) for k in it])

    def __or__(self, o):
        r = self.copy()
        r.update(o)
        return r

    def __ror__(self, o):
        r = SDict(o)
        r.update(self)
        return r

    def __ior__(self, o):
        self.update(o)
        return self

    def __eq__(self, o):
        if not isinstance(o, dict):
            return NotImplemented
        if len(self) != len(o):
            return False
        if not self._sym and not getattr(o, "_sym", 0):
            return dict.__eq__(self, o)
        o = o if isinstance(o, SDict) else SDict(o)
        for k, v in self.items():
            f = o._find(k)
            if f is None or not bool(dict.__getitem__(o, f) == v):
                return False
        return True

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not r

    __hash__ = None

    def __repr__(self):
        return "{" + ", ".join(f"{k!r}: {v!r}" for k, v in self.items()) + "}"


class KeysView:
    def __init__(self, d):
        self.d = d

    def __iter__(self):
        return iter(self.d)

    def __len__(self):
        return len(self.d)

    def __contains__(self, k):
        return k in self.d

    def __reversed__(self):
        return reversed(self.d)

    def _set(self):
        return SSet(self.d)

    def __eq__(self, o):
        return self._set() == SSet(o)

    def __and__(self, o):
        return self._set() & SSet(o)

    def __or__(self, o):
        return self._set() | SSet(o)

    def __sub__(self, o):
        return self._set() - SSet(o)

    def __rsub__(self, o):
        return SSet(o) - self._set()

    __rand__ = __and__
    __ror__ = __or__

    def __xor__(self, o):
        return (self - o) | (SSet(o) - self._set())

    def isdisjoint(self, o):
        return not (self & o)

    def __le__(self, o):
        return self._set() <= SSet(o)

    def __ge__(self, o):
        return SSet(o) <= self._set()

    def __repr__(self):
        return f"dict_keys({list(self)!r})"

    __hash__ = None


class SSet(set):
    """set subclass with symbolic membership; elements kept in insertion order."""

    def __init__(self, it=()):
        set.__init__(self)
        self._d = SDict()
        for x in it:
            self.add(x)

    def add(self, x):
        if x not in self._d:
            self._d[x] = True
            if not _symkey(x):
                set.add(self, x)
            else:
                set.add(self, SDict.Tok(x))

    def _rebuild(self, items):
        return SSet(items)

    def __contains__(self, x):
        return x in self._d

    def __iter__(self):
        return iter(self._d)

    def __len__(self):
        return len(self._d)

    def __bool__(self):
        return len(self._d) > 0

    def remove(self, x):
        if x not in self._d:
            raise KeyError(x)
        self.discard(x)

    def discard(self, x):
        if x in self._d:
            f = self._d._find(x)
            self._d.pop(x)
            if not isinstance(f, SDict.Tok):
                set.discard(self, f)

    def update(self, *its):
        for it in its:
            for x in it:
                self.add(x)

    def __or__(self, o):
        return SSet(list(self) + list(o))

    union = __or__

    def __and__(self, o):
        o = o if isinstance(o, SSet) else SSet(o)
        return SSet([x for x in self if x in o])

    intersection = __and__

    def __sub__(self, o):
        o = o if isinstance(o, SSet) else SSet(o)
        return SSet([x for x in self if x not in o])

    difference = __sub__

    def __xor__(self, o):
        o = o if isinstance(o, SSet) else SSet(o)
        return (self - o) | (o - self)

    symmetric_difference = __xor__

    def __ior__(self, o):
        self.update(o)
        return self

    def __le__(self, o):
        o = o if isinstance(o, SSet) else SSet(o)
        return all(x in o for x in self)

    issubset = __le__

    def __ge__(self, o):
        return all(x in self for x in o)

    issuperset = __ge__

    def isdisjoint(self, o):
        return not (self & o)

    def copy(self):
        return SSet(self)

    def pop(self):
        x = next(iter(self))
        self.discard(x)
        return x

    def __eq__(self, o):
        if not isinstance(o, (set, frozenset, KeysView)):
            return NotImplemented
        return len(self) == len(o) and all(x in self for x in o)

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not r

    __hash__ = None

    def __repr__(self):
        return "{" + ", ".join(repr(x) for x in self) + "}"
