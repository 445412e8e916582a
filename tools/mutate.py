"""Mutation testing of the checks: mutate.py gen DIR [file...] | run DIR [--fast-only] | show DIR

gen: mutants of every function that survive the repository's tests, in DIR/survivors.json
run: the checks that encode the mutated function, most specific first, until one reports it; DIR/results.json"""
import ast, difflib, glob, json, multiprocessing as mp, os, random, shutil, subprocess, sys, tempfile, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SWAP = {"bottom": "top", "top": "bottom", "left": "right", "right": "left", "x": "y", "y": "x", "Line0": "Line2", "Line1": "Line3",
        "Line2": "Line0", "Line3": "Line1", "Point0": "Point1", "Point1": "Point0", "X": "Y", "Y": "X"}
CMP = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "==", ast.Is: "is not", ast.IsNot: "is",
       ast.In: "not in", ast.NotIn: "in"}
BIN = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*", ast.Pow: "*", ast.FloorDiv: "/"}


def mutants(src):
    """[(line, function, description, new source)]"""
    tree = ast.parse(src)
    lines = src.split("\n")
    off = [0]
    for l in lines:
        off.append(off[-1] + len(l.encode()) + 1)
    b = src.encode()
    out = []

    def pos(n, end=False):
        return off[(n.end_lineno if end else n.lineno) - 1] + (n.end_col_offset if end else n.col_offset)

    def seg(n):
        return b[pos(n):pos(n, True)].decode()

    def put(n, new, what, q):
        a, e = pos(n), pos(n, True)
        s = (b[:a] + new.encode() + b[e:]).decode()
        try:
            ast.parse(s)
        except SyntaxError:
            return
        if s != src:
            out.append((n.lineno, q, what, s))

    def exprs(n, q):
        if isinstance(n, ast.Raise):
            put(n, "pass", "raise removed", q)
            return
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            return
        if isinstance(n, ast.AnnAssign) or isinstance(n, ast.arg):
            for c in ast.iter_child_nodes(n):
                if c is not getattr(n, "annotation", None):
                    exprs(c, q)
            return
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            l, r = n.left, n.comparators[0]
            put(n, f"{seg(l)} {CMP[type(n.ops[0])]} {seg(r)}", "comparison", q)
        if isinstance(n, ast.BinOp) and type(n.op) in BIN:
            put(n, f"({seg(n.left)}) {BIN[type(n.op)]} ({seg(n.right)})", "operator", q)
            put(n, seg(n.left), "left operand only", q)
            put(n, seg(n.right), "right operand only", q)
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.USub, ast.Not)):
            put(n, seg(n.operand), "unary removed", q)
        if isinstance(n, ast.BoolOp):
            w = " or " if isinstance(n.op, ast.And) else " and "
            put(n, w.join(f"({seg(v)})" for v in n.values), "and/or", q)
        if isinstance(n, ast.Constant):
            v = n.value
            if isinstance(v, bool):
                put(n, str(not v), "flag", q)
            elif isinstance(v, (int, float)):
                put(n, repr(v + 1), "number +1", q)
                if v not in (0, 1):
                    put(n, repr(v - 1), "number -1", q)
                if v == 1:
                    put(n, "0", "number 0", q)
            elif isinstance(v, str):
                new = SWAP.get(v)
                if new is None:
                    parts = v.split("/")
                    new = "/".join(SWAP.get(x, x) for x in parts)
                    if new == v and v[:3] == "arg" and parts[0] in ("arg0", "arg1"):
                        new = "/".join([{"arg0": "arg1", "arg1": "arg0"}[parts[0]]] + parts[1:])
                if new != v and src[:1] is not None:
                    t = seg(n)
                    if t[:1] in "'\"":
                        put(n, repr(new), "string", q)
        if isinstance(n, ast.IfExp):
            put(n, seg(n.body), "if-expression: then", q)
            put(n, seg(n.orelse), "if-expression: else", q)
        if isinstance(n, (ast.If, ast.While)):
            put(n.test, "False", "condition False", q)
            if isinstance(n, ast.If):
                put(n.test, "True", "condition True", q)
        if isinstance(n, ast.comprehension):
            for c in n.ifs:
                put(c, "True", "filter removed", q)
        if isinstance(n, ast.Call):
            if len(n.args) >= 2 and not any(isinstance(a, ast.Starred) for a in n.args[:2]):
                a0, a1 = n.args[:2]
                s = f"{seg(a1)}, {seg(a0)}"
                new = b[pos(n):pos(a0)].decode() + s + b[pos(a1, True):pos(n, True)].decode()
                put(n, new, "arguments swapped", q)
            for k in n.keywords:
                if k.arg:
                    rest = [seg(a) for a in n.args] + [(f"{x.arg}={seg(x.value)}" if x.arg else f"**{seg(x.value)}")
                                                       for x in n.keywords if x is not k]
                    put(n, f"{seg(n.func)}({', '.join(rest)})", f"without {k.arg}", q)
            if len(n.args) == 1 and not n.keywords and not isinstance(n.args[0], (ast.Starred, ast.GeneratorExp)):
                put(n, f"({seg(n.args[0])})", "call removed", q)
        if isinstance(n, (ast.Tuple, ast.List)) and isinstance(n.ctx, ast.Load) and len(n.elts) >= 2:
            e = [seg(x) for x in n.elts]
            e2 = [e[1], e[0]] + e[2:]
            o, c = ("[", "]") if isinstance(n, ast.List) else ("(", ")")
            put(n, o + ", ".join(e2) + c, "elements swapped", q)
            put(n, o + ", ".join(e[:-1]) + ("," if o == "(" else "") + c, "last element dropped", q)
        if isinstance(n, ast.Slice):
            if n.lower is not None:
                put(n.lower, "", "slice from start", q)
            if n.upper is not None:
                put(n.upper, "", "slice to end", q)
        for c in ast.iter_child_nodes(n):
            if isinstance(n, ast.JoinedStr):
                if isinstance(c, ast.FormattedValue):
                    exprs(c, q)
            else:
                exprs(c, q)

    def body(stmts, q):
        for s in stmts:
            if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
                scope(s, q)
                continue
            if isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant):
                continue
            if q and isinstance(s, (ast.Expr, ast.Assign, ast.AugAssign)):
                if not isinstance(s, ast.Assign) or not isinstance(s.targets[0], (ast.Name, ast.Tuple)):
                    put(s, "pass", "statement removed", q)
            for f in ("body", "orelse", "finalbody"):
                if hasattr(s, f) and isinstance(getattr(s, f), list):
                    body(getattr(s, f), q)
            for h in getattr(s, "handlers", []):
                body(h.body, q)
            if isinstance(s, (ast.Import, ast.ImportFrom)):
                continue
            if not q:
                continue
            if isinstance(s, (ast.If, ast.While)):
                put(s.test, "False", "condition False", q)
                if isinstance(s, ast.If):
                    put(s.test, "True", "condition True", q)
                exprs(s.test, q)
            elif isinstance(s, ast.For):
                exprs(s.iter, q)
            elif isinstance(s, (ast.With, ast.Try)):
                pass
            else:
                exprs(s, q)

    def scope(n, q):
        name = f"{q}.{n.name}" if q else n.name
        if isinstance(n, ast.FunctionDef):
            for d in n.args.defaults + [x for x in n.args.kw_defaults if x]:
                exprs(d, name)
        body(n.body, name)
    body(tree.body, "")
    seen, res = set(), []
    for m in out:
        if m[3] not in seen:
            seen.add(m[3])
            res.append(m)
    return res


def test(job):
    i, f, src = job
    me = mp.current_process()._identity[0]
    R = f"{D}/w{me}"
    if not os.path.isdir(R):
        subprocess.check_call(["git", "clone", "-q", "/repo", R])
    p = f"{R}/src/mpllayout/{f}"
    old = open(p).read()
    open(p, "w").write(src)
    try:
        r = subprocess.run(". /opt/vp/env.sh; timeout 200 python -m pytest -q -x -p no:cacheprovider tests >/dev/null 2>&1", shell=True, cwd=R,
                           env={**os.environ, "PYTHONPATH": R + "/src", "OMP_NUM_THREADS": "1", "XLA_FLAGS": "--xla_cpu_multi_thread_eigen=false"})
    finally:
        open(p, "w").write(old)
    return i, r.returncode


def diff(f, src):
    old = open(f"/repo/src/mpllayout/{f}").read()
    return "\n".join(l for l in difflib.unified_diff(old.split("\n"), src.split("\n"), n=0, lineterm="") if l[:3] not in ("---", "+++"))


def judge(job):
    k, s, M, recent = job
    me = mp.current_process()._identity[0]
    R = f"{D}/r{me}"
    if not os.path.isdir(R):
        subprocess.check_call(["git", "clone", "-q", "/repo", R])
    mod = s["file"][:-3]
    full = f"{mod}.{s['function']}"
    cand = [p for p, (fs, _) in M.items() if any(x == full or x.replace(".<locals>", "") == full for x in fs)]
    cls = full
    while not cand and "." in cls:
        cls = cls.rsplit(".", 1)[0]
        cand = [p for p, (fs, _) in M.items() if any(x == cls or x.startswith(cls + ".") for x in fs)]
    last = recent.get(full, [])
    cand.sort(key=lambda p: (-last.count(p), len(M[p][0]) * M[p][1]))
    cand = cand[:int(os.environ.get("MAXC", "7"))]
    p = f"{R}/src/mpllayout/{s['file']}"
    open(p, "w").write(s["src"])
    hit, tried, t = None, [], time.time()
    for c in cand:
        r = subprocess.run([f"{V}/check", c, "--jobs", os.environ.get("JOBS", "2")], cwd=V, capture_output=True, text=True,
                           env={**os.environ, "VERIF_REPO": R, "VX_LINGER": "0", "VX_BUDGET": "150"})
        tried.append(c)
        if r.returncode == 1 and "VIOLATION" in r.stdout:
            hit = c
            recent[full] = recent.get(full, []) + [c]
            break
    subprocess.check_call(["git", "-C", R, "checkout", "-q", "--", "."])
    return k, s, {"hit": hit, "tried": tried, "function": s["function"], "s": round(time.time() - t, 1)}


if __name__ == "__main__":
    cmd, D = sys.argv[1], os.path.abspath(sys.argv[2])
    os.makedirs(D, exist_ok=True)
    if cmd == "gen":
        files = sys.argv[3:] or [os.path.basename(f) for f in sorted(glob.glob("/repo/src/mpllayout/*.py"))]
        ms = []
        for f in files:
            ms += [(f, *m) for m in mutants(open(f"/repo/src/mpllayout/{f}").read())]
        print(len(ms), "mutants", {f: sum(m[0] == f for m in ms) for f in files}, flush=True)
        keep = []
        free = [i for i, m in enumerate(ms) if m[0] in ("ui.py", "matplotlibutils.py")]
        with mp.Pool(int(os.environ.get("N", "8"))) as pool:
            for i, rc in pool.imap_unordered(test, [(i, m[0], m[4]) for i, m in enumerate(ms)]):
                if rc == 0:
                    keep.append(i)
        keep.sort()
        json.dump([dict(file=ms[i][0], line=ms[i][1], function=ms[i][2], what=ms[i][3], src=ms[i][4]) for i in keep],
                  open(f"{D}/survivors.json", "w"))
        print(len(keep), "survive the tests")
        for w in glob.glob(f"{D}/w*"):
            shutil.rmtree(w)
    elif cmd == "run":
        S = json.load(open(f"{D}/survivors.json"))
        mapf = f"{D}/map.json"
        if not os.path.exists(mapf):
            m = {}
            for e in sorted(glob.glob(f"{V}/evidence/C*.json")):
                d = json.load(open(e))
                m[d["property"]] = [d["coverage"]["functions_encoded"], d["wall_s"]]
            json.dump(m, open(mapf, "w"))
        M = json.load(open(mapf))
        resf = f"{D}/results.json"
        res = json.load(open(resf)) if os.path.exists(resf) else {}
        todo, own, recent = [], {}, mp.Manager().dict()
        for i, s in enumerate(S):
            k = f"{s['file']}:{s['line']}:{s['what']}:{i}"
            if k not in res and i % int(os.environ.get("EVERY", "1")) == int(os.environ.get("FROM", "0")):
                todo.append((k, s, M, recent))
        random.Random(1).shuffle(todo)
        with mp.Pool(int(os.environ.get("N", "4"))) as pool:
            for k, s, r in pool.imap_unordered(judge, todo):
                res[k] = r
                json.dump(res, open(resf, "w"), indent=1)
                if not r["hit"]:
                    print(k, s["function"], r["tried"], "\n" + diff(s["file"], s["src"]), flush=True)
        print("done", sum(1 for v in res.values() if v["hit"]), "of", len(res), flush=True)
