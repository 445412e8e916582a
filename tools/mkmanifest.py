"""Write MANIFEST.json from properties.jsonl and the harnesses that exist."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(f"{here}/properties.jsonl")]
NOTE = ("All values within the stated bounds (see BOUNDS of props/{f}.py and the evidence file), over exact real "
        "arithmetic in place of floats; every counterexample is replayed on the plain package before it is reported. "
        "Trusted: z3, the executor in vx/ and its stand-ins (listed in DESIGN.md and in the evidence).")
EXTRA = {}
if os.path.exists(f"{here}/tools/notes.json"):
    EXTRA = json.load(open(f"{here}/tools/notes.json"))
checks, na = [], []
for p in props:
    i = p["id"]
    f = i.lower()
    if os.path.exists(f"{here}/props/{f}.py"):
        checks.append({
            "property": i,
            "quick_cmd": f"./check {i} --tier quick",
            "thorough_cmd": f"./check {i} --tier thorough",
            "evidence_file": f"evidence/{i}.json",
            "technique": "symbolic execution of the package's own source with z3 deciding every path and assertion",
            "level": "model_checking",
            "level_note": NOTE.format(f=f) + (" " + EXTRA[i] if i in EXTRA else ""),
        })
    else:
        na.append({"property": i, "reason": "No check yet."})
m = {"version": 1, "setup_cmd": "./check --setup", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: the checks load the current source of /repo/src/mpllayout through their own instrumenting loader."}
json.dump(m, open(f"{here}/MANIFEST.json", "w"), indent=1)
open(f"{here}/MANIFEST.json", "a").write("\n")
print(len(checks), "checks", len(na), "na")
