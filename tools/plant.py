"""Make /verif/seeded/<id> from a spec file: plant.py SPEC.py [id...]

SPEC.py defines BUGS: list of dicts id, property, file, edits [(old, new)], needs, breaks, demo (python source).
A bug is kept only if it builds, passes the stable tests, and its demo passes without it and fails with it.
Works on /repo directly (apply, test, undo); never commits there."""
import json, os, runpy, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = "/repo"


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)


def clean():
    sh(f"git -C {R} checkout -- .")


def demo(d):
    return sh(f"bash {d}/demo.sh", cwd=R, timeout=300)


def plant(b):
    d = f"{V}/seeded/{b['id']}"
    os.makedirs(d, exist_ok=True)
    open(f"{d}/demo.py", "w").write(b["demo"].strip() + "\n")
    open(f"{d}/demo.sh", "w").write('#!/bin/bash\n. /opt/vp/env.sh\nexec python "$(dirname "$0")/demo.py"\n')
    json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]},
              open(f"{d}/meta.json", "w"), indent=1)
    clean()
    try:
        r = demo(d)
        if r.returncode:
            return "demo fails on the unchanged tree: " + r.stderr[-400:]
        for ed in b["edits"]:
            f = b["file"] if len(ed) == 2 else ed[0]
            old, new = ed[-2:]
            p = f"{R}/src/mpllayout/{f}"
            s = open(p).read()
            if s.count(old) != 1:
                return f"text occurs {s.count(old)} times: {old[:60]}"
            open(p, "w").write(s.replace(old, new))
        diff = sh(f"git -C {R} diff").stdout
        open(f"{d}/patch.diff", "w").write(diff)
        r = demo(d)
        if r.returncode == 0:
            return "demo passes with the bug"
        why = (r.stderr or r.stdout).strip().splitlines()[-1:]
        sh("bash /opt/vp/build.sh")
        r = sh("bash /opt/vp/test.sh /tmp/plant.json")
        if " 0 failed" not in r.stdout:
            return "tests catch it: " + r.stdout.strip().splitlines()[-1]
    finally:
        clean()
    return "ok " + str(why)[:150]


bugs = runpy.run_path(sys.argv[1])["BUGS"]
for b in bugs:
    if len(sys.argv) > 2 and b["id"] not in sys.argv[2:]:
        continue
    try:
        r = plant(b)
    except Exception as e:
        r = f"error {e!r}"
    if not r.startswith("ok"):
        sh(f"rm -rf {V}/seeded/{b['id']}")
    print(b["id"], r, flush=True)
