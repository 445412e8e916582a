"""Stand-ins that record calls (matplotlib objects under symbolic execution)."""
from __future__ import annotations


class Recorder:
    """Base class of recording stand-ins; `vx_types` are the classes it mimics."""
    vx_types = ()

    def vx_isinstance(self, t):
        if isinstance(t, tuple):
            return any(self.vx_isinstance(u) for u in t)
        if hasattr(t, "__args__") and not isinstance(t, type):
            return any(self.vx_isinstance(u) for u in t.__args__)
        return any(isinstance(t, type) and issubclass(v, t) for v in self.vx_types) or isinstance(self, t)


REG = {}          # callable -> handler(f, args, kwargs) or NotImplemented


def register_calls(f, args, kwargs):
    try:
        h = REG.get(f)
    except TypeError:
        return NotImplemented
    if h is None:
        return NotImplemented
    return h(f, args, kwargs)
