"""Command line: decide one property on /repo's current source."""
from __future__ import annotations

import argparse
import json
import multiprocessing as mp
import os
import sys
import time
from fractions import Fraction

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def _paths():
    p = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
    if p not in sys.path:
        sys.path.append(p)


_E = {}


def _init(prop, tier, seed, deadline):
    _paths()
    sys.setrecursionlimit(6000)
    from . import run
    _E["x"] = run.Explorer(prop, tier, seed, deadline)
    run.load.load_package(False)
    hm = run.load.load_harness(run.harness_path(prop), False)
    _E["cases"] = run.get_cases(hm, tier)


def _work(name):
    from . import run
    x0 = _E["x"]
    x = run.Explorer(x0.prop, x0.tier, x0.seed, x0.deadline)
    x.explore(_E["cases"][name])
    s = x.stats
    return {"case": name, "stats": {k: v for k, v in s.__dict__.items() if not isinstance(v, set)},
            "functions": sorted(s.functions), "violations": x.violations, "known": x.known_hits,
            "und": x.undischarged, "samples": x.samples, "log": x.case_log,
            "wok": x.witness_ok, "wskip": x.witness_skipped}


def lost(name):
    """Stands for the result of a case whose worker gave none."""
    return {"case": name, "stats": {}, "functions": [], "violations": [], "known": [],
            "und": [f"{name}: not finished"], "samples": [], "log": [], "wok": 0, "wskip": 0}


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--setup", action="store_true", help="check that everything the checks need is present")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--case")
    ap.add_argument("--jobs", type=int, default=int(os.environ.get("VX_JOBS", "8")))
    ap.add_argument("--verbose", "-v", action="store_true")
    a = ap.parse_args()
    _paths()
    sys.setrecursionlimit(6000)
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    from . import run
    if a.setup:
        import z3
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        run.load.load_package(False)
        x = z3.Real("x")
        s = z3.Solver()
        s.add(x * x == 2, x > 0)
        assert s.check() == z3.sat
        print("z3", z3.get_version_string(), "package source", run.load.SRC)
        return 0
    if a.replay:
        rec = json.load(open(a.replay))
        r = run.run_concrete(rec["property"], rec["case"], rec["tier"],
                             {k: run.dec(v) for k, v in rec["inputs"].items()})
        print(f"replay {rec['case']}: " + ("property holds" if r.ok else f"{r.label}: {r.what}"))
        if r.ok is False:
            print(f"VIOLATION property={rec['property']} replay={a.replay}")
            return 1
        return 0
    budget = float(os.environ.get("VX_BUDGET", "420" if a.tier == "quick" else "5400"))
    deadline = time.time() + budget
    run.load.load_package(False)
    hm = run.load.load_harness(run.harness_path(a.prop), False)
    names = [n for n in run.get_cases(hm, a.tier) if a.case is None or a.case in n]
    results = []
    jobs = max(1, min(a.jobs, len(names)))
    if jobs == 1:
        _init(a.prop, a.tier, seed, deadline)
        for n in names:
            results.append(_work(n))
            if a.verbose:
                print(results[-1]["log"])
    else:
        with mp.get_context("spawn").Pool(jobs, _init, (a.prop, a.tier, seed, deadline)) as pool:
            it = pool.imap_unordered(_work, names, chunksize=1)
            stop = deadline + 200
            for _ in names:
                try:
                    r = it.next(timeout=max(0.1, stop - time.time()))
                except mp.TimeoutError:
                    done = {r["case"] for r in results}
                    for n in names:
                        if n not in done:
                            results.append(lost(n))
                    pool.terminate()
                    break
                results.append(r)
                if r["violations"] and a.tier == "quick":     # a verdict; do not go on for long
                    stop = min(stop, time.time() + float(os.environ.get("VX_LINGER", "60")))
                if a.verbose:
                    print(r["log"], flush=True)
    return report(a, seed, t0, hm, results, run)


def report(a, seed, t0, hm, results, run):
    order = {}
    tot = {}
    funcs, viol, und, samples, log, known = set(), [], [], [], [], []
    wok = wskip = 0
    for r in sorted(results, key=lambda r: r["case"]):
        for k, v in r["stats"].items():
            tot[k] = max(tot.get(k, 0), v) if k == "slowest" else tot.get(k, 0) + v
        funcs |= set(r["functions"])
        viol += r["violations"]
        known += r["known"]
        und += r["und"]
        samples += r["samples"][:1] if len(samples) < 8 else []
        log += r["log"]
        wok += r["wok"]
        wskip += r["wskip"]
    wall = time.time() - t0
    ev = {
        "property": a.prop, "tier": a.tier, "seed": seed, "level": "model_checking",
        "wall_s": round(wall, 2), "violations": len(viol),
        "coverage": {
            "states": tot.get("paths", 0),
            "transitions": tot.get("decisions", 0),
            "traces_validated_against_impl": wok,
            "samples": samples,
            "obligations": tot.get("obligations", 0),
            "discharged": tot.get("discharged", 0),
            "solver_queries": tot.get("queries", 0),
            "solver_queries_branch_feasibility": tot.get("feasibility", 0),
            "solver_unknown": tot.get("unknown", 0),
            "solver_s": round(tot.get("solver_s", 0), 2),
            "slowest_query_s": round(tot.get("slowest", 0), 3),
            "infeasible_paths": tot.get("aborted", 0),
            "candidate_replays": tot.get("replays", 0),
            "witnesses_outside_rounded_assumptions": wskip,
            "functions_encoded": sorted(funcs),
            "bounds": getattr(hm, "BOUNDS", ""),
            "cases": log,
            "undischarged": und,
            "explanation": "states = complete symbolic paths; transitions = two-sided branch decisions taken; "
                           "obligations = assertions sent to z3 over a path, discharged = answered unsat; "
                           "traces_validated_against_impl = path witnesses re-run on the uninstrumented code.",
        },
        "assumptions": ["real arithmetic instead of floating point"] + list(getattr(hm, "ASSUMPTIONS", [])),
    }
    if a.case is None:
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", a.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=_js)
            f.write("\n")
    print(f"{a.prop} [{a.tier}] cases={len(results)} paths={tot.get('paths', 0)} "
          f"obligations={tot.get('obligations', 0)} discharged={tot.get('discharged', 0)} "
          f"queries={tot.get('queries', 0)} solver={tot.get('solver_s', 0):.1f}s "
          f"witnesses={wok} wall={wall:.1f}s")
    for u in und[:40]:
        print("  not decided:", u)
    for e in run.load_known():
        if e["property"] == a.prop and any(run.matches(e, k) for k in known):
            print(f"KNOWN-FINDING: property={a.prop} {e['what']}")
    for v in viol:
        print(f"  {v['case']}: {v['label']}: {v['what']}")
        print(f"VIOLATION property={a.prop} replay={v['path']}")
    if viol:
        return 1
    if not tot.get("discharged", 0):
        print(f"{a.prop}: nothing could be decided")
        return 2
    return 0


def _js(o):
    if isinstance(o, Fraction):
        return float(o)
    if hasattr(o, "item"):
        return o.item()
    return str(o)


if __name__ == "__main__":
    sys.exit(main())
