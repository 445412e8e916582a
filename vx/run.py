"""Explore the cases of a property, replay counterexamples, write evidence."""
from __future__ import annotations

import gc
import hashlib
import importlib.util
import json
import os
import re
import signal
import sys
import time
import traceback
import warnings
from fractions import Fraction

from . import core, load, real, stubs
from .core import Ctx, PathAbort, PathLimit, Stats, Unsupported
from .world import Candidate, ConcW, Failed, SymW

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
warnings.filterwarnings("ignore")


class Case:
    """One symbolic exploration: a harness function and its parameters."""

    def __init__(self, name, fn, witness=None, timeout_ms=None, max_paths=None, **kw):
        self.name, self.fn, self.kw = name, fn, kw
        self.witness = witness
        self.timeout_ms = timeout_ms
        self.max_paths = max_paths


def enc(v):
    if isinstance(v, Fraction):
        return {"q": f"{v.numerator}/{v.denominator}"}
    return v


def dec(v):
    if isinstance(v, dict) and "q" in v:
        return Fraction(v["q"])
    return v


def harness_path(prop):
    return os.path.join(VERIF, "props", prop.lower() + ".py")


def get_cases(mod, tier):
    cs = mod.cases(tier)
    d = {c.name: c for c in cs}
    assert len(d) == len(cs), "case names must be unique"
    return d


class TimeUp(BaseException):
    pass


class limit:
    """Raise TimeUp in the enclosed code after some seconds."""

    def __init__(self, seconds):
        self.s = seconds

    def __enter__(self):
        def up(*_):
            raise TimeUp
        self.old = signal.signal(signal.SIGALRM, up)
        signal.setitimer(signal.ITIMER_REAL, max(self.s, 0.01))

    def __exit__(self, *e):
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, self.old)


class ReplayResult:
    def __init__(self, ok, label="", what="", kind="", checks=0):
        self.ok, self.label, self.what, self.kind, self.checks = ok, label, what, kind, checks


MISFIT = re.compile(r"(KeyError|IndexError): |ValueError: (not enough|too many) values to unpack|(TypeError|AttributeError): "
                    r"(.*NoneType|.*is not (iterable|subscriptable)|object of type .* has no len)")


def same_misfit(what, real):
    """The result does not have the form the harness takes apart, symbolically and on the real code alike."""
    at = real.rsplit(" at ", 1)
    return bool(MISFIT.match(real)) and what.split(":")[0] == real.split(":")[0] and f" at {at[-1]}" in what


def run_concrete(prop, case_name, tier, values, tol=1e-7):
    """Run a harness on the real, uninstrumented code."""
    core.set_ctx(None)
    import matplotlib.pyplot as plt
    m = load.load_package(False)
    hm = load.load_harness(harness_path(prop), False)
    case = get_cases(hm, tier)[case_name]
    w = ConcW(values, m, tier, tol)
    w.prop = prop
    try:
        with warnings.catch_warnings(), limit(30):
            warnings.simplefilter("ignore")
            case.fn(w, **case.kw)
    except TimeUp:
        return ReplayResult(False, "termination", "no result within 30 s", "assert", w.checks)
    except Failed as f:
        return ReplayResult(False, f.label, f.what, "assert", w.checks)
    except PathAbort:
        return ReplayResult(None, "", "assumption not met by the rounded values", "abort", w.checks)
    except Exception as e:  # noqa: BLE001
        tb = traceback.extract_tb(e.__traceback__)
        src = [f for f in tb if f.filename.startswith(load.SRC)]
        where = f"{os.path.basename(src[-1].filename)}:{src[-1].lineno}" if src else f"{os.path.basename(tb[-1].filename)}:{tb[-1].lineno}"
        return ReplayResult(False, "exception", f"{type(e).__name__}: {e} at {where}",
                            "exception" if src else "harness-exception", w.checks)
    finally:
        plt.close("all")
    return ReplayResult(True, checks=w.checks)


class Explorer:
    def __init__(self, prop, tier, seed, deadline):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.deadline = deadline
        self.stats = Stats()
        self.violations = []
        self.undischarged = []
        self.known = load_known()
        self.known_hits = []
        self.samples = []
        self.case_log = []
        self.witness_ok = 0
        self.witness_skipped = 0

    def explore(self, case):
        t0 = time.time()
        st = self.stats
        work = [[]]
        skip = set()
        spur, tries = {}, {}       # spurious candidates per path and assertion; count per label
        npaths = 0
        o0, d0 = st.obligations, st.discharged
        wit_budget = case.witness if case.witness is not None else (3 if self.tier == "quick" else 12)
        und = []
        while work:
            if time.time() > self.deadline:
                und.append("time budget exhausted with paths left")
                break
            if case.max_paths and npaths >= case.max_paths:
                und.append(f"path limit {case.max_paths} reached with paths left")
                break
            prefix = work.pop()
            npaths += 1
            out = self.one_path(case, prefix, skip, spur.get(repr(prefix), {}), wit_budget > 0)
            kind = out["kind"]
            if kind == "candidate":
                v = self.replay_candidate(case, out)
                if v is not None and any(matches(e, v) for e in self.known):
                    self.known_hits.append(v)
                elif v is not None:
                    self.violations.append(v)
                    break
                # spurious or known: re-run the same prefix, asking for other values or without that obligation
                at = spur.setdefault(repr(prefix), {}).setdefault(out["obl"], [])
                at.append(out["values"])
                tries[out["label"]] = tries.get(out["label"], 0) + 1
                if out["obl"] is None or tries[out["label"]] >= 9:
                    skip.add(out["label"])
                work.append(prefix)
                npaths -= 1
                continue
            work.extend(out["pending"])
            if kind == "abort":
                st.aborted += 1
                continue
            st.paths += 1
            und.extend(out["und"])
            if kind == "unsupported":
                und.append("unsupported: " + out["what"])
            if out["incomplete"]:
                und.append("partial: " + "; ".join(sorted(set(out["incomplete"]))))
            if wit_budget > 0 and out.get("values") is not None:
                wit_budget -= 1
                v = self.witness(case, out["values"])
                if v is not None and any(matches(e, v) for e in self.known):
                    self.known_hits.append(v)
                elif v is not None:
                    self.violations.append(v)
                    break
        self.case_log.append({"case": case.name, "paths": npaths, "obligations": st.obligations - o0,
                              "discharged": st.discharged - d0, "wall_s": round(time.time() - t0, 2),
                              **({"undischarged": sorted(set(und))} if und else {})})
        self.undischarged += [f"{case.name}: {u}" for u in sorted(set(und))]

    def one_path(self, case, prefix, skip, avoid, want=True):
        real.reset_atoms()
        stubs.LOG.clear()
        stubs.MIN.calls.clear()
        c = Ctx(prefix, self.stats, timeout_ms=case.timeout_ms or (8000 if self.tier == "quick" else 30000),
                seed=self.seed)
        core.set_ctx(c)
        out = {"pending": [], "und": [], "incomplete": [], "label": "", "what": "", "values": None, "obl": None}
        try:
            m = load.load_package(True)
            hm = load.load_harness(harness_path(self.prop), True)
            cs = get_cases(hm, self.tier)[case.name]
            w = SymW(c, m, skip, self.tier)
            w.avoid = avoid
            w.prop = self.prop
            per_path = 100 if self.tier == "quick" else 2400
            try:
                with limit(min(per_path, self.deadline + 60 - time.time())):
                    cs.fn(w, **cs.kw)
                out["kind"] = "done"
            except TimeUp:
                out.update(kind="timeout", label="termination", what="path takes too long")
            except Candidate as e:
                out.update(kind="candidate", label=e.label, values=e.values, what=e.what, obl=w.obl)
            except PathAbort:
                out["kind"] = "abort"
            except (Unsupported, PathLimit) as e:
                out.update(kind="unsupported", what=str(e))
            except RecursionError as e:
                out.update(kind="unsupported", what="recursion limit")
            except Exception as e:  # noqa: BLE001
                tb = traceback.extract_tb(e.__traceback__)
                where = " <- ".join(f"{os.path.basename(f.filename)}:{f.lineno}" for f in tb[-4:][::-1])
                out.update(kind="exception", what=f"{type(e).__name__}: {e} at {where}")
            out["pending"] = c.pending
            out["incomplete"] = list(c.incomplete)
            out["und"] = list(w.undischarged)
            if out["kind"] == "timeout":
                # either the solver is slow or the code does not come back: see what the real code does
                s, v = c.model() if len(c.pc) < 200 else ("unknown", None)
                out["values"] = v or {n: c.default(k, meta) for n, (k, _, meta) in c.inputs.items()}
                out["kind"] = "unsupported" if "termination" in skip else "candidate"
            if out["kind"] == "exception":
                if "exception" in skip:
                    out.update(kind="unsupported", what=out["what"] + " (real code does not raise)")
                else:
                    s, v = c.model()
                    if s == "sat":
                        out.update(kind="candidate", label="exception", values=v)
                    elif s == "unsat":
                        out["kind"] = "abort"
                    else:
                        out.update(kind="unsupported", what=out["what"])
            if out["kind"] == "unsupported" or out["kind"] == "done" and (want or out["und"]):
                s, v = c.model(quick=out["kind"] == "done")
                if s == "sat":
                    out["values"] = v
                elif s == "unsat":
                    out["kind"] = "abort"
            return out
        finally:
            core.set_ctx(None)

    def replay_candidate(self, case, out):
        st = self.stats
        st.replays += 1
        r = run_concrete(self.prop, case.name, self.tier, out["values"])
        if r.ok is False and (r.kind != "harness-exception" or same_misfit(out["what"], r.what)):
            return self.violation(case, out["values"], r, out["what"])
        if os.environ.get("VX_DEBUG"):
            print("  spurious candidate", case.name, out["label"], out["what"],
                  {k: (float(v) if isinstance(v, Fraction) else v) for k, v in out["values"].items()},
                  "->", r.ok, r.label, r.what, file=sys.stderr)
        return None

    def witness(self, case, values):
        r = run_concrete(self.prop, case.name, self.tier, values, tol=1e-6)
        if r.ok:
            self.witness_ok += 1
            if len(self.samples) < 4:
                self.samples.append({"case": case.name, "inputs": {
                    k: (float(v) if isinstance(v, Fraction) else v) for k, v in list(values.items())[:12]},
                    "real_code": f"{r.checks} assertions held"})
            return None
        if r.ok is None:
            self.witness_skipped += 1
            return None
        if r.kind == "harness-exception":
            self.undischarged.append(f"{case.name}: harness error in replay: {r.what}")
            return None
        return self.violation(case, values, r, "concrete replay of a path witness")

    def violation(self, case, values, r, what):
        d = os.path.join(VERIF, "evidence", "replays")
        os.makedirs(d, exist_ok=True)
        rec = {"property": self.prop, "case": case.name, "tier": self.tier, "label": r.label, "what": r.what,
               "solver": what, "inputs": {k: enc(v) for k, v in values.items()}}
        h = hashlib.sha1(json.dumps(rec, sort_keys=True, default=str).encode()).hexdigest()[:10]
        p = os.path.join(d, f"{self.prop}-{h}.json")
        with open(p, "w") as f:
            json.dump(rec, f, indent=1, default=str)
        rec["path"] = p
        return rec


def load_known():
    """Known findings: property, case, label (a violation matching one is not new)."""
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    return [e for e in json.load(open(p)) if e.get("status") == "known"]


def matches(e, v):
    return e["property"] == v["property"] and e["case"] == v["case"] and e["label"] == v["label"]
