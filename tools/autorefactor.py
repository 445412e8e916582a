"""Rewrite every function of the package mechanically without changing behaviour, then run tests and checks.

autorefactor.py KIND [C01 ...]; KIND in: ret, comp, swap, rename, format, nest, flip, items, all"""
import ast, copy, glob, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
kind = sys.argv[1]
N = [0]


def fresh(p):
    N[0] += 1
    return f"_{p}{N[0]}"


def nm(n, st=False):
    return ast.Name(n, ast.Store() if st else ast.Load())


class Ret(ast.NodeTransformer):
    def visit_Return(self, n):
        if n.value is None:
            return n
        t = fresh("r")
        return [ast.Assign([nm(t, True)], n.value), ast.Return(nm(t))]


class Comp(ast.NodeTransformer):
    """x = [f(i) for i in it if c] as a loop; also tuple(...) of a generator."""

    def _loop(self, v):
        wrap = None
        if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id in ("tuple", "list") \
                and len(v.args) == 1 and isinstance(v.args[0], ast.GeneratorExp):
            wrap, v = v.func.id, v.args[0]
        elif not isinstance(v, (ast.ListComp, ast.DictComp)):
            return None
        if len(v.generators) != 1:
            return None
        g = v.generators[0]
        t = fresh("l")
        names = {x.id for x in ast.walk(g.target) if isinstance(x, ast.Name)}
        ren = {x: fresh(x) for x in names}

        class R(ast.NodeTransformer):
            def visit_Name(s, n):
                return ast.Name(ren.get(n.id, n.id), n.ctx)
        if any(isinstance(x, ast.Lambda) for x in ast.walk(v)):
            return None
        if isinstance(v, ast.DictComp):
            body = ast.Assign([ast.Subscript(nm(t), R().visit(v.key), ast.Store())], R().visit(v.value))
            init = ast.Dict([], [])
        else:
            body = ast.Expr(ast.Call(ast.Attribute(nm(t), "append", ast.Load()), [R().visit(v.elt)], []))
            init = ast.List([], ast.Load())
        body = [body]
        for c in g.ifs[::-1]:
            body = [ast.If(R().visit(c), body, [])]
        out = [ast.Assign([nm(t, True)], init), ast.For(R().visit(g.target), g.iter, body, [])]
        res = nm(t)
        if wrap == "tuple":
            res = ast.Call(nm("tuple"), [res], [])
        return out, res

    def visit_Assign(self, n):
        self.generic_visit(n)
        r = self._loop(n.value)
        if r and self.infn:
            return r[0] + [ast.Assign(n.targets, r[1])]
        return n

    def visit_Return(self, n):
        r = n.value is not None and self._loop(n.value)
        if r:
            return r[0] + [ast.Return(r[1])]
        return n

    infn = 0

    def visit_FunctionDef(self, n):
        self.infn += 1
        self.generic_visit(n)
        self.infn -= 1
        return n

    def visit_ClassDef(self, n):
        s, self.infn = self.infn, 0
        self.generic_visit(n)
        self.infn = s
        return n


class Swap(ast.NodeTransformer):
    def visit_If(self, n):
        self.generic_visit(n)
        if n.orelse and not (len(n.orelse) == 1 and isinstance(n.orelse[0], ast.If)):
            return ast.If(ast.UnaryOp(ast.Not(), n.test), n.orelse, n.body)
        return n

    def visit_IfExp(self, n):
        self.generic_visit(n)
        return ast.IfExp(ast.UnaryOp(ast.Not(), n.test), n.orelse, n.body)


class Flip(ast.NodeTransformer):
    M = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE, ast.Eq: ast.Eq, ast.NotEq: ast.NotEq}

    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1 and type(n.ops[0]) in self.M:
            return ast.Compare(n.comparators[0], [self.M[type(n.ops[0])]()], [n.left])
        return n

    def visit_AugAssign(self, n):
        if isinstance(n.target, ast.Name):
            return ast.Assign([n.target], ast.BinOp(nm(n.target.id), n.op, n.value))
        return n


class Format(ast.NodeTransformer):
    def visit_JoinedStr(self, n):
        if any(isinstance(x, ast.FormattedValue) and (x.conversion != -1 or x.format_spec) for x in n.values):
            return n
        s, a = "", []
        for x in n.values:
            if isinstance(x, ast.Constant):
                s += x.value.replace("{", "{{").replace("}", "}}")
            else:
                s += "{}"
                a.append(self.visit(x.value))
        return ast.Call(ast.Attribute(ast.Constant(s), "format", ast.Load()), a, [])


class Items(ast.NodeTransformer):
    def visit_For(self, n):
        self.generic_visit(n)
        if isinstance(n.iter, ast.Call) and isinstance(n.iter.func, ast.Attribute) and n.iter.func.attr == "items" \
                and isinstance(n.target, ast.Tuple) and len(n.target.elts) == 2 and isinstance(n.iter.func.value, ast.Name):
            k = fresh("k")
            d = n.iter.func.value
            return ast.For(nm(k, True), ast.Call(ast.Attribute(d, "keys", ast.Load()), [], []),
                           [ast.Assign([n.target], ast.Tuple([nm(k), ast.Subscript(d, nm(k), ast.Load())], ast.Load()))] + n.body, n.orelse)
        if isinstance(n.iter, ast.Call) and isinstance(n.iter.func, ast.Name) and n.iter.func.id == "zip":
            t = fresh("p")
            return ast.For(nm(t, True), n.iter, [ast.Assign([n.target], nm(t))] + n.body, n.orelse)
        return n


class Rename(ast.NodeTransformer):
    """Other names for the locals of functions without nested scopes."""

    def visit_FunctionDef(self, n):
        inner = [x for x in ast.walk(n) if x is not n and isinstance(x, (ast.FunctionDef, ast.Lambda, ast.ClassDef))]
        if inner:
            self.generic_visit(n)
            return n
        loc = {x.id for x in ast.walk(n) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
        loc -= {x for y in ast.walk(n) if isinstance(y, (ast.Global, ast.Nonlocal)) for x in y.names}
        args = {a.arg for a in n.args.args + n.args.kwonlyargs + n.args.posonlyargs}
        args |= {a.arg for a in (n.args.vararg, n.args.kwarg) if a}
        ren = {x: x + "_" for x in loc - args}
        for x in ast.walk(n):
            if isinstance(x, ast.Name) and x.id in ren:
                x.id = ren[x.id]
            if isinstance(x, ast.ExceptHandler) and x.name in ren:
                x.name = ren[x.name]
        return n


class Nest(ast.NodeTransformer):
    """Each body in a helper of its own."""

    def visit_FunctionDef(self, n):
        for x in ast.walk(n):
            if isinstance(x, (ast.Yield, ast.YieldFrom, ast.Nonlocal, ast.Global)) or isinstance(x, ast.Name) and x.id == "super":
                return n
        body = n.body
        doc = []
        if isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant):
            doc, body = body[:1], body[1:]
        if len(body) < 2:
            return n
        a = n.args
        names = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs] + [x.arg for x in (a.vararg, a.kwarg) if x]
        h = fresh("h")
        f = ast.FunctionDef(h, ast.arguments([], [ast.arg(x) for x in names], None, [], [], None, []), body, [], None)
        f.type_params = []
        n.body = doc + [f, ast.Return(ast.Call(nm(h), [nm(x) for x in names], []))]
        return n


K = {"ret": [Ret], "comp": [Comp], "swap": [Swap], "flip": [Flip], "format": [Format], "items": [Items], "rename": [Rename],
     "nest": [Nest], "all": [Comp, Items, Swap, Flip, Format, Ret, Rename, Nest]}
tmp = tempfile.mkdtemp(prefix="refac-")
R = tmp + "/repo"
try:
    subprocess.check_call(["git", "clone", "-q", "/repo", R])
    for f in glob.glob(R + "/src/mpllayout/*.py"):
        t = ast.parse(open(f).read())
        for k in K[kind]:
            t = k().visit(t)
            ast.fix_missing_locations(t)
            t = ast.parse(ast.unparse(t))
        open(f, "w").write(ast.unparse(t))
    print(kind, N[0], subprocess.check_output(["git", "-C", R, "diff", "--shortstat"], text=True).strip())
    r = subprocess.run(". /opt/vp/env.sh; python -m pytest -q tests 2>&1 | tail -8", shell=True, cwd=R, capture_output=True, text=True,
                       env={**os.environ, "PYTHONPATH": R + "/src"})
    print(r.stdout.strip()[-500:], flush=True)
    for c in sys.argv[2:] or sorted(f[:-3].upper() for f in os.listdir(V + "/props") if f[0] == "c" and f[1:3].isdigit()):
        r = subprocess.run([f"{V}/check", *c.split()], cwd=V, capture_output=True, text=True, env={**os.environ, "VERIF_REPO": R})
        out = r.stdout.splitlines()
        first = [l for l in out if l.startswith(c[:3] + " [")]
        n = dict(x.split("=") for x in (first[0] if first else "?").split() if "=" in x)
        odd = n.get("obligations") != n.get("discharged") or r.returncode != 0 or any("not decided" in l for l in out)
        print(c, "rc", r.returncode, n.get("obligations"), n.get("discharged"), n.get("wall"), "<<<<" if odd else "", flush=True)
        for l in out:
            if "VIOLATION" in l or "not decided" in l or r.returncode not in (0,):
                print("    ", l[:220], flush=True)
finally:
    if os.environ.get("KEEP"):
        print(R)
    else:
        shutil.rmtree(tmp)
