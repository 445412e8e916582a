"""Check that behaviour-preserving rewrites leave the checks quiet: refactor.py SPEC.py [C01 ...]

SPEC.py defines EDITS: {file: {qualified name: new source of that function (dedented)} , ...} and may define
HEAD: {file: text inserted after the imports}. Works in a scratch clone; runs the stable tests there first."""
import ast, os, runpy, shutil, subprocess, sys, tempfile, textwrap
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
spec = runpy.run_path(sys.argv[1])
tmp = tempfile.mkdtemp(prefix="refac-")
R = tmp + "/repo"


def find(tree, q):
    body = tree.body
    for part in q.split("."):
        n = [x for x in body if isinstance(x, (ast.FunctionDef, ast.ClassDef)) and x.name == part]
        assert n, q
        node, body = n[-1], n[-1].body
    return node


try:
    subprocess.check_call(["git", "clone", "-q", "/repo", R])
    for f, fs in spec["EDITS"].items():
        p = f"{R}/src/mpllayout/{f}"
        for q, new in fs.items():
            src = open(p).read()
            n = find(ast.parse(src), q)
            lines = src.splitlines(keepends=True)
            a = min([n.lineno] + [d.lineno for d in n.decorator_list]) - 1
            ind = " " * n.col_offset
            lines[a:n.end_lineno] = [textwrap.indent(textwrap.dedent(new).strip("\n") + "\n", ind)]
            open(p, "w").write("".join(lines))
        head = spec.get("HEAD", {}).get(f)
        if head:
            src = open(p).read()
            imps = [n for n in ast.parse(src).body if isinstance(n, (ast.Import, ast.ImportFrom))]
            lines = src.splitlines(keepends=True)
            lines.insert(imps[-1].end_lineno, "\n" + textwrap.dedent(head).strip("\n") + "\n")
            open(p, "w").write("".join(lines))
    r = subprocess.run(". /opt/vp/env.sh; python -m pytest -q -x tests 2>&1 | tail -4", shell=True, cwd=R, capture_output=True, text=True,
                       env={**os.environ, "PYTHONPATH": R + "/src"})
    print(r.stdout.strip()[-300:], flush=True)
    for c in sys.argv[2:] or sorted(f[:-3].upper() for f in os.listdir(V + "/props") if f[0] == "c" and f[1:3].isdigit()):
        r = subprocess.run([f"{V}/check", *c.split()], cwd=V, capture_output=True, text=True, env={**os.environ, "VERIF_REPO": R})
        out = r.stdout.splitlines()
        first = [l for l in out if l.startswith(c[:3] + " [")]
        o = first[0] if first else "?"
        n = dict(x.split("=") for x in o.split() if "=" in x)
        print(c, "rc", r.returncode, n.get("obligations"), n.get("discharged"), n.get("wall"), "" if n.get("obligations") == n.get("discharged") and r.returncode == 0 else "<<<<", flush=True)
        for l in out:
            if "VIOLATION" in l or "not decided" in l or r.returncode not in (0,):
                print("    ", l[:220], flush=True)
finally:
    if os.environ.get("KEEP"):
        print(R)
    else:
        shutil.rmtree(tmp)
