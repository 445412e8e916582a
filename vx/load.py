"""Load mpllayout (and harness modules) from source, optionally instrumented.

The instrumentation is a semantics-preserving AST rewrite: every call goes
through `__vx__.call`, f-strings, dict displays and `in` tests through helpers,
so that symbolic values can flow through code that Python implements in C.
Nothing is substituted in the logic of the program.
"""
from __future__ import annotations

import ast
import os
import sys
import types

REPO = os.environ.get("VERIF_REPO", "/repo")
SRC = os.path.join(REPO, "src", "mpllayout")


class Xform(ast.NodeTransformer):
    def __init__(self):
        self.in_ann = 0

    def _vx(self, name, args, node):
        return ast.copy_location(ast.Call(
            func=ast.Attribute(value=ast.Name("__vx__", ast.Load()), attr=name, ctx=ast.Load()),
            args=args, keywords=[]), node)

    def visit_Call(self, node):
        if isinstance(node.func, ast.Name) and node.func.id in ("super", "locals", "globals", "vars", "eval", "exec"):
            self.generic_visit(node)
            return node
        self.generic_visit(node)
        return ast.copy_location(ast.Call(
            func=ast.Attribute(value=ast.Name("__vx__", ast.Load()), attr="call", ctx=ast.Load()),
            args=[node.func] + node.args, keywords=node.keywords), node)

    def visit_JoinedStr(self, node):
        parts = []
        for v in node.values:
            if isinstance(v, ast.Constant):
                parts.append(v)
            else:
                val = self.visit(v.value)
                spec = v.format_spec
                spec = ast.Constant(None) if spec is None else self.visit(spec)
                parts.append(ast.Tuple([val, ast.Constant(v.conversion), spec], ast.Load()))
        return self._vx("fstr", parts, node)

    def visit_Dict(self, node):
        self.generic_visit(node)
        items = []
        for k, v in zip(node.keys, node.values):
            if k is None:
                items.append(ast.Tuple([v], ast.Load()))
            else:
                items.append(ast.Tuple([k, v], ast.Load()))
        return self._vx("dictlit", items, node)

    def visit_DictComp(self, node):
        self.generic_visit(node)
        gen = ast.GeneratorExp(ast.Tuple([node.key, node.value], ast.Load()), node.generators)
        return self._vx("dictcomp", [ast.copy_location(gen, node)], node)

    def visit_Set(self, node):
        self.generic_visit(node)
        return self._vx("setlit", [ast.List(node.elts, ast.Load())], node)

    def visit_SetComp(self, node):
        self.generic_visit(node)
        gen = ast.GeneratorExp(node.elt, node.generators)
        return self._vx("setlit", [ast.copy_location(gen, node)], node)

    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) == 1 and isinstance(node.ops[0], (ast.In, ast.NotIn)):
            name = "contains" if isinstance(node.ops[0], ast.In) else "notcontains"
            return self._vx(name, [node.comparators[0], node.left], node)
        return node

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod):
            return self._vx("mod", [node.left, node.right], node)
        if isinstance(node.op, ast.Add):
            return self._vx("add", [node.left, node.right], node)
        if isinstance(node.op, (ast.Div, ast.FloorDiv, ast.Sub, ast.Mult, ast.Pow, ast.MatMult)):
            name = {ast.Div: "truediv", ast.FloorDiv: "floordiv", ast.Sub: "sub",
                    ast.Mult: "mul", ast.Pow: "pow", ast.MatMult: "matmul"}[type(node.op)]
            return self._vx(name, [node.left, node.right], node)
        return node

    def visit_Subscript(self, node):
        self.generic_visit(node)

        def put(x):
            if isinstance(x, ast.Tuple):
                x.elts = [put(e) for e in x.elts]
                return x
            if isinstance(x, (ast.Constant, ast.Slice, ast.Starred, ast.JoinedStr)):
                return x
            return self._vx("index", [x], x)
        node.slice = put(node.slice)
        return node

    def visit_AugAssign(self, node):
        self.generic_visit(node)
        return node

    def _func(self, node):
        node.body = [self.visit(s) for s in node.body]
        node.body = [s for x in node.body for s in (x if isinstance(x, list) else [x])]
        a = node.args
        a.defaults = [self.visit(d) for d in a.defaults]
        a.kw_defaults = [None if d is None else self.visit(d) for d in a.kw_defaults]
        node.decorator_list = [self._vx("deco", [self.visit(d)], d) for d in node.decorator_list]
        # annotations are left untouched
        return node

    def visit_FunctionDef(self, node):
        return self._func(node)

    visit_AsyncFunctionDef = visit_FunctionDef

    def visit_AnnAssign(self, node):
        if node.value is not None:
            node.value = self.visit(node.value)
        return node

    def visit_ImportFrom(self, node):
        if node.level == 0 and node.module and node.module.split(".")[0] == "mpllayout":
            node.module = PKG.name + node.module[len("mpllayout"):]
        return node

    def visit_Import(self, node):
        out = []
        for al in node.names:
            if al.name.split(".")[0] == "mpllayout":
                real = PKG.name + al.name[len("mpllayout"):]
                if al.asname:
                    out.append(ast.copy_location(ast.Import([ast.alias(real, al.asname)]), node))
                else:
                    out.append(ast.copy_location(ast.Import([ast.alias(real, "mpllayout")]), node))
            else:
                out.append(ast.copy_location(ast.Import([al]), node))
        return out


class PKG:
    name = "mpllayout"


_codes: dict = {}


def code_for(path, instrument):
    st = os.stat(path)
    key = (path, instrument, st.st_mtime_ns, st.st_size)
    c = _codes.get(key)
    if c is None:
        with open(path, encoding="utf-8") as f:
            src = f.read()
        tree = ast.parse(src, path)
        if instrument:
            # docstrings and __future__ imports stay first
            tree = Xform().visit(tree)
            ast.fix_missing_locations(tree)
        c = compile(tree, path, "exec", dont_inherit=True)
        _codes[key] = c
    return c


class _Finder:
    """Meta-path finder serving `mpllayout` from REPO, instrumented or not."""

    def __init__(self):
        self.instrument = False

    def find_spec(self, fullname, path=None, target=None):
        import importlib.machinery
        if fullname.split(".")[0] != "mpllayout":
            return None
        parts = fullname.split(".")[1:]
        base = os.path.join(SRC, *parts)
        if os.path.isdir(base):
            file = os.path.join(base, "__init__.py")
            pkg = True
        else:
            file = base + ".py"
            pkg = False
        if not os.path.exists(file):
            return None
        spec = importlib.machinery.ModuleSpec(fullname, _Loader(file, self.instrument), origin=file, is_package=pkg)
        if pkg:
            spec.submodule_search_locations = [base]
        spec.has_location = True
        return spec


class _Loader:
    def __init__(self, file, instrument):
        self.file, self.instrument = file, instrument

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        if self.instrument:
            from . import hooks
            module.__dict__["__vx__"] = hooks
        exec(code_for(self.file, self.instrument), module.__dict__)


_FINDER = _Finder()


def install():
    if _FINDER not in sys.meta_path:
        sys.meta_path.insert(0, _FINDER)


MODS = ("containers", "primitives", "constructions", "constraints", "layout",
        "solver", "matplotlibutils", "ui")


def load_package(instrument: bool):
    """Freshly load the whole package; returns a namespace of its modules."""
    import importlib
    install()
    for k in [k for k in sys.modules if k == "mpllayout" or k.startswith("mpllayout.")]:
        del sys.modules[k]
    _FINDER.instrument = instrument
    ns = types.SimpleNamespace()
    for m in MODS:
        setattr(ns, m, importlib.import_module("mpllayout." + m))
    return ns


def load_harness(path, instrument: bool):
    """Execute a harness module with or without the same rewrite."""
    mod = types.ModuleType("harness_" + os.path.basename(path)[:-3])
    mod.__file__ = path
    if instrument:
        from . import hooks
        mod.__dict__["__vx__"] = hooks
    exec(code_for(path, instrument), mod.__dict__)
    return mod
