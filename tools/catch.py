"""Run the property's check (or all with --all) against every seeded bug, in a scratch copy: catch.py [--all] [id...]

Records the outcome in tools/catches.json (read by mkdesign.py only)."""
import glob, json, os, shutil, subprocess, sys, tempfile, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [a for a in sys.argv[1:] if not a.startswith("-")]
rec = f"{V}/tools/catches.json"
tmp = tempfile.mkdtemp(prefix="catch-")
R = tmp + "/repo"
try:
    subprocess.check_call(["git", "clone", "-q", "/repo", R])
    for d in sorted(glob.glob(f"{V}/seeded/*/")):
        i = d.rstrip("/").split("/")[-1]
        if ids and i not in ids:
            continue
        p = json.load(open(d + "meta.json"))["property"]
        subprocess.check_call(["git", "-C", R, "checkout", "-q", "--", "."])
        if subprocess.call(["git", "-C", R, "apply", d + "patch.diff"]):
            print(i, "DOES NOT APPLY")
            continue
        props = sorted(f[:-3].upper() for f in os.listdir(V + "/props") if f[0] == "c" and f[1:3].isdigit()) if "--all" in sys.argv else [p]
        out, hits = [], []
        for q in props:
            t = time.time()
            r = subprocess.run([f"{V}/check", q], cwd=V, capture_output=True, text=True, env={**os.environ, "VERIF_REPO": R})
            hit = r.returncode == 1 and f"VIOLATION property={q}" in r.stdout
            hits += [q] * hit
            out.append(f"{q}:{'caught' if hit else 'rc%d' % r.returncode}({time.time() - t:.0f}s)")
        print(i, p, *out, flush=True)
        c = json.load(open(rec)) if os.path.exists(rec) else {}
        old = c.get(i, {})
        c[i] = {"by": hits if "--all" in sys.argv else sorted((set(old.get("by", [])) - {p}) | set(hits)),
                "all": "--all" in sys.argv or old.get("all", False)}
        json.dump(c, open(rec, "w"), indent=1, sort_keys=True)
finally:
    shutil.rmtree(tmp)
