"""A scipy.optimize.minimize that records what it is given.

Symbolic runs use the contract stub (stubs.MIN); replays on the real code swap
the function for one that follows the same contract at the counterexample's
iterates.
"""
from __future__ import annotations

import inspect

import numpy as np


class Minimizer:
    def __init__(self, w, assume=None, iters=None):
        self.w = w
        self.iters = iters
        self.assume = assume or (lambda rec, x: None)
        self.calls = []

    def __enter__(self):
        if self.w.symbolic:
            from . import stubs
            stubs.MIN.calls.clear()
            stubs.MIN.iters = self.iters or (3 if self.w.tier == "thorough" else 2)
            self.calls = stubs.MIN.calls
            stubs.MIN.assume = lambda x: self.assume(self.calls[0], x)
            return self
        import scipy.optimize as so
        self.real = so.minimize
        self.patched = []
        for mod in (so, *(getattr(self.w.m, n) for n in ("solver", "layout", "constraints"))):
            for k, v in list(vars(mod).items()):
                if v is self.real:
                    setattr(mod, k, self.fake)
                    self.patched.append((mod, k))
        return self

    def __exit__(self, *a):
        if self.w.symbolic:
            from . import stubs
            stubs.MIN.assume = None
        for mod, k in getattr(self, "patched", []):
            setattr(mod, k, self.real)

    def fake(self, *args, **kwargs):
        import scipy.optimize as so
        from . import stubs
        ba = inspect.signature(self.real).bind(*args, **kwargs)
        ba.apply_defaults()
        a = ba.arguments
        x0 = np.asarray(a["x0"], dtype=float).ravel()
        jac = a["jac"]
        options = dict(a["options"] or {})

        def evalf(x):
            r = a["fun"](x, *a["args"])
            g = None
            if jac is True:
                r, g = r
            elif callable(jac):
                g = jac(x, *a["args"])
            return np.float64(r), None if g is None else np.asarray(g, dtype=float).ravel()
        rec = {"x0": x0, "method": a["method"], "options": options, "tol": a["tol"], "jac": jac, "evals": [],
               "iterates": [], "stopped": None, "bounds": a["bounds"], "constraints": a["constraints"]}
        self.calls.append(rec)
        x = x0
        v, g = evalf(x0)
        rec["evals"].append((x0, v, g))
        for it, xs in enumerate(self._iterates(len(x0))):
            x = np.array(xs, dtype=float)
            self.assume(rec, x)
            v, g = evalf(x)
            rec["evals"].append((x, v, g))
            rec["iterates"].append((x, v))
            cb = a["callback"]
            if cb is not None:
                try:
                    if set(inspect.signature(cb).parameters) == {"intermediate_result"}:
                        cb(intermediate_result=so.OptimizeResult(x=x, fun=v))
                    else:
                        cb(x)
                except StopIteration:
                    rec["stopped"] = it
                    break
        rec["result"] = so.OptimizeResult(x=x, fun=v, jac=g, nit=len(rec["iterates"]), nfev=len(rec["evals"]),
                                          **stubs.outcome(rec))
        return rec["result"]

    def _iterates(self, n):
        groups = {}
        for k, v in self.w.values.items():
            if k.startswith("xk!"):
                base, _, i = k.rpartition("_")
                groups.setdefault(base, {})[int(i)] = float(v)
        return [[g.get(i, 0.0) for i in range(n)] for _, g in sorted(groups.items(), key=lambda t: int(t[0][3:]))]
