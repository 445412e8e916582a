"""Write DESIGN.md from tools/design_*.md, the seeded changes and tools/catches.json."""
import glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
c = json.load(open(f"{V}/tools/catches.json"))
f = json.load(open(f"{V}/known_findings.json"))
f = f if isinstance(f, list) else f.get("findings", f.get("entries", []))
out = open(f"{V}/tools/design_head.md").read() + "\n".join("* " + e["text"] for e in f) + "\n" + open(f"{V}/tools/design_tail.md").read()
out += "| change | property | needs | caught by |\n|---|---|---|---|\n"
n = k = 0
for d in sorted(glob.glob(f"{V}/seeded/*/meta.json")):
    i = d.split("/")[-2]
    m = json.load(open(d))
    e = c.get(i)
    n += 1
    k += bool(e and m["property"] in e["by"])
    out += f"| {i} | {m['property']} | {m['needs']} | {'not run' if e is None else ', '.join(e['by']) or 'missed'}{'' if e is None or e['all'] else ' (only its own check run)'} |\n"
out += f"\n{k} of {n} are caught by the check of their own property.\n"
open(f"{V}/DESIGN.md", "w").write(out)
print(k, n)
