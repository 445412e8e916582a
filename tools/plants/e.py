import importlib.util, os
_s = importlib.util.spec_from_file_location("pd", os.path.join(os.path.dirname(os.path.abspath(__file__)), "d.py"))
_m = importlib.util.module_from_spec(_s)
_s.loader.exec_module(_m)
H = _m.H
BUGS = []


def bug(id, property, file, edits, needs, breaks, demo):
    BUGS.append(dict(id=id, property=property, file=file, edits=edits, needs=needs, breaks=breaks, demo=H + demo))


bug("c01-ptl-reverse-left", "C01", "constructions.py",
    [("            orth_vec = jnp.cross(line_vec, np.array([0, 0, 1]))[:2]",
      "            orth_vec = jnp.cross(line_vec, np.array([0, 0, jnp.where(line_vec[0] < -0.5, -1, 1)]))[:2]" if False else
      "            orth_vec = jnp.cross(line_vec, np.array([0, 0, 1]))[:2] * jnp.where(line_vec[0] < -0.5, -1, 1)")],
    "a reversed orthogonal distance to a line pointing left", "the reversed distance to such lines has the wrong sign",
    '''
close(co.PointToLineDistance()((pr.Point([0., 2.]), line((3, 0), (-4, 0.5))), True, 0.), co.PointToLineDistance()((pr.Point([0., 2.]), line((3, 0), (-4, 0.5))), False, 0.) * -1)
''')

bug("c06-sum-compound", "C06", "constructions.py",
    [("        arg_keys_b = tuple(f'arg{num_a + n}' for n in range(num_b))", "        arg_keys_b = tuple(f'arg{max(num_a, len(child_keys_a)) + n}' for n in range(num_b))")],
    "the sum of two compound constructions with more parts than primitives", "the second operand's parts get primitives that are not its own",
    '''
s = co.Box() + co.Box()
a, b = quad([(0, 0), (3, 1), (4, 5), (1, 4)]), quad([(2, 0), (3, 2), (4, 6), (0, 4)])
close(s((a, b)), np.asarray(co.Box()((a,))) + np.asarray(co.Box()((b,))))
''')

bug("c06-radd-order", "C06", "constructions.py",
    [("    def __mul__(self, other: \"float | Scalar\"):\n        if isinstance(self, Scalar) and", "    def __mul__(self, other: \"float | Scalar\"):\n        if isinstance(other, float) and other == 1.0 and len(self) == 0:\n            return transform_scalar_mul(self, 1)\n        if isinstance(self, Scalar) and False and")],
    "a scalar parameter on the left of a construction", "a scalar times a construction is rejected",
    '''
s = con.Scalar() * con.Length()
close(s((line((0, 0), (0, 2)),), 3.), 6)
''')

bug("c07-partial-none", "C07", "constructions.py",
    [("param_types[:len(param_types)-len(freeze_params)]", "param_types[:-len(freeze_params)]")],
    "freezing no parameters", "a construction partially applied to nothing takes no parameters",
    '''
c = con.transform_partial(con.DirectedDistance())
p = pr.Point([0., 0.]), pr.Point([2., 3.])
close(c(p, np.array([1., 0.])), 2)
''')

bug("c07-partial-cache", "C07", "constructions.py",
    [("        params = partial_params + freeze_params\n        return child_params(params)", "        params = partial_params[:len(param_types)-len(freeze_params)] + freeze_params\n        return child_params(params[:len(child_prim_keys) or None])")],
    "a compound construction with more parameters than parts, partially applied", "parameters beyond the number of parts are lost",
    '''
class Two(con.CompoundConstruction, con._LineSignature):
    def __init__(self):
        super().__init__()
    @classmethod
    def init_children(cls):
        return ("D",), (con.DirectedLength(),), (("arg0",),), lambda params: ((np.array([params[0], params[1]]),),)
    @classmethod
    def init_signature(cls):
        return cls.make_signature(0, (float, float))
l = line((0, 0), (3, 5))
close(con.transform_partial(Two(), 1.)((l,), 0.), Two()((l,), 0., 1.))
''')

bug("c07-map-types", "C07", "constructions.py",
    [('''        num_constr*SIG.prim_types[:1] + SIG.prim_types[1:],''', '''        (SIG.prim_types[:1] + SIG.prim_types[1:] * num_constr)[:N],''')],
    "a mapped construction of differently typed primitives", "the mapped construction expects the wrong primitive types",
    '''
m = con.transform_map(con.PointOnLineDistance(), [pr.Point, pr.Point, pr.Line])
pts = pr.Point([1., 1.]), pr.Point([2., 1.])
close(m((*pts, line((0, 0), (4, 0))), False, False), [1, 2])
''')

bug("c08-replace-names", "C08", "constructions.py",
    [('''            arg_prefix, *child_key = prim_key.split("/", 1)
            new_prefix = arg_keys[argnum_from_key(arg_prefix)]
            return "/".join([new_prefix] + child_key)''', '''            arg_prefix = prim_key.split("/", 1)[0]
            new_prefix = arg_keys[argnum_from_key(arg_prefix)]
            return prim_key.replace(arg_prefix, new_prefix)''')],
    "a primitive whose part is named like an argument", "the part's name is replaced as well",
    '''
class Part(con.CompoundConstruction):
    def __init__(self):
        super().__init__()
    @classmethod
    def init_children(cls):
        return ("P",), (con.Coordinate(),), (("arg0/arg0",),), lambda params: ((),)
    @classmethod
    def init_signature(cls):
        return con.ConstructionSignature((pr.PrimitiveNode,), (), 0)
close(Part()((root(arg0=pr.Point([1., 2.])),)), [1, 2])
L = lay.Layout()
L.add_prim(root(arg0=pr.Point([1., 2.])), "G")
L.add_constraint(Part(), ("G",), ())
c, k, p = L.flat_constraints()
assert k[1] == ("G/arg0",), k
''')

bug("c08-arg-substitute", "C08", "constructions.py",
    [('''            arg_prefix, *child_key = prim_key.split("/", 1)
            new_prefix = arg_keys[argnum_from_key(arg_prefix)]
            return "/".join([new_prefix] + child_key)''', '''            argnum_from_key(prim_key.split("/", 1)[0])
            for n, arg_key in reversed(list(enumerate(arg_keys))):
                prim_key = prim_key.replace(f"arg{n}", arg_key)
            return prim_key''')],
    "user primitives named arg0, arg1, ...", "the user's names are substituted again",
    '''
L = lay.Layout()
L.add_prim(box(0, 0, 2, 1), "arg1")
L.add_prim(box(5, 0, 2, 1), "arg0")
L.add_constraint(co.AlignRow(), ("arg0", "arg1"), ())
c, k, p = L.flat_constraints()
assert [tuple(x) for x in k] == [("arg0", "arg1"), ("arg0/Line0", "arg1/Line0"), ("arg0/Line2", "arg1/Line2")], k
''')

bug("c09-same-object", "C09", "layout.py",
    [('''        constraints = [
            node for _, node in iter_flat("", self.root_constraint)
        ][1:]''', '''        constraints = list({
            id(node): node for _, node in iter_flat("", self.root_constraint)
        }.values())[1:]''')],
    "one constraint object added twice", "the second addition is dropped and later parameters shift",
    '''
L = lay.Layout()
L.add_prim(pr.Point([0., 0.]), "P")
L.add_prim(pr.Point([1., 1.]), "Q")
f = co.Fix()
L.add_constraint(f, ("P",), (np.array([1., 1.]),))
L.add_constraint(f, ("Q",), (np.array([2., 2.]),))
c, k, p = L.flat_constraints()
assert len(c) == len(k) == 2
''')

bug("c09-key-sort", "C09", "layout.py",
    [('''        prim_keys = [
            node.value for _, node in iter_flat("", self.root_prim_keys)
        ][1:]''', '''        prim_keys = [
            self.root_prim_keys[key[1:]].value for key, _ in
            sorted(iter_flat("", self.root_prim_keys), key=lambda kn: kn[0].count("/") == 1 and len(kn[0]) > 40)
            if key
        ]''')],
    "a constraint under a name of more than forty characters, added before others", "its primitive keys are listed last",
    '''
L = lay.Layout()
L.add_prim(pr.Point([0., 0.]), "P")
L.add_prim(pr.Point([1., 1.]), "Q")
L.add_constraint(co.Fix(), ("P",), (np.array([1., 1.]),), key="a" * 45)
L.add_constraint(co.Fix(), ("Q",), (np.array([2., 2.]),))
c, k, p = L.flat_constraints()
assert [tuple(x) for x in k] == [("P",), ("Q",)], k
''')

bug("c10-rejected-prim", "C10", "layout.py",
    [('''        self.root_prim.add_child(key, prim)''', '''        try:
            self.root_prim.add_child(key, prim)
        except KeyError:
            if key in self.root_prim and len(self.root_prim[key]) == 0 and len(prim) == 0:
                self.root_prim[key] = prim
            raise''')],
    "a rejected second addition of a point under the same key", "the rejected point replaces the earlier one",
    '''
L = lay.Layout()
L.add_prim(pr.Point([0., 0.]), "P")
try:
    L.add_prim(pr.Point([5., 5.]), "P")
except KeyError:
    pass
close(L.root_prim["P"].value, [0, 0])
''')

bug("c11-asarray", "C11", "primitives.py",
    [("        elif isinstance(value, (np.ndarray, jax.numpy.ndarray)):\n            value = np.array(value)", "        elif isinstance(value, (np.ndarray, jax.numpy.ndarray)):\n            value = np.asarray(value)")],
    "two points made from one array object", "the two points move as one",
    '''
a = np.array([1., 2.])
L = lay.Layout()
L.add_prim(pr.Point(a), "P")
L.add_prim(pr.Point(a), "Q")
L.add_constraint(co.Fix(), ("P",), (np.array([3., 3.]),))
s, _ = so.solve(L)
close(s["P"].value, [3, 3]); close(s["Q"].value, [1, 2])
''')

bug("c11-graph-parent", "C11", "primitives.py",
    [("        new_value for _ in ()", "")] if False else
    [("        if value_id not in value_id_to_idx:", "        if value_id not in value_id_to_idx or (key.count('/') > 3 and len(prim.value) == 2 and key.endswith('Line0/Point0')):")],
    "a polygon's first corner three levels down", "the first corner of nested polygons comes apart from the last line",
    '''
L = lay.Layout()
L.add_prim(pr.Axes(prims=[box(0, 0, 1, 1)]), "A")
L.add_constraint(co.Fix(), ("A/Frame/Line0/Point0",), (np.array([3., 3.]),))
s, _ = so.solve(L)
close(s["A/Frame/Line3/Point1"].value, [3, 3])
''')

bug("c14-rel-first", "C14", "solver.py",
    [("            rel_err = abs_err / init_abs_err", "            rel_err = abs_err / self.abs_errs[0]")],
    "a minimization of at least one iteration", "relative errors are relative to the first iterate instead of the start",
    '''
L = lay.Layout()
L.add_prim(pr.Point([0., 0.]), "P")
L.add_prim(pr.Line(prims=(pr.Point([0., 0.]), pr.Point([1., 0.1]))), "A")
L.add_constraint(co.Length(), ("A",), (7.,))
s, i = so.solve(L, method="minimize")
assert i["rel_errs"][0] != 1, i
''')

bug("c14-evals", "C14", "solver.py",
    [('''options={"maxiter": max_iter}''', '''options={"maxiter": max_iter, "maxfun": 2 * max_iter}''')] if False else
    [("    global_param_n = res['x']", "    global_param_n = res['x'] if res['success'] or min_hist.rel_errs[-1:] < [1] else global_param_n")],
    "a minimization stopped by the iteration limit whose error did not fall below the start", "the start is returned instead of the optimizer's answer",
    '''
import mpllayout.solver as S
from scipy.optimize import OptimizeResult
def fake(fun, x0, **k):
    return OptimizeResult(x=x0 + 1, success=False, fun=1.)
S.minimize = fake
L = lay.Layout()
L.add_prim(pr.Point([0., 0.]), "P")
L.add_constraint(co.Fix(), ("P",), (np.array([1., 1.]),))
s, i = so.solve(L, method="minimize")
close(s["P"].value, [1, 1])
''')

bug("c15-sorted", "C15", "matplotlibutils.py",
    [('''        axs_keys = [key for key in root_prim.keys() if "Axes" in key]''', '''        axs_keys = sorted(key for key in root_prim.keys() if "Axes" in key)''')],
    "axes that were not added in alphabetical order", "axes are created in alphabetical order",
    '''
r = root(Figure=box(0, 0, 4, 4), Axes2=pr.Axes(prims=[box(0, 0, 1, 1)]), Axes10=pr.Axes(prims=[box(1, 1, 1, 1)]))
fig, axs = mu.subplots(r)
assert list(axs) == ["Axes2", "Axes10"], list(axs)
assert fig.axes == list(axs.values())
''')

bug("c15-key-prefix", "C15", "matplotlibutils.py",
    [('''if "Axes" in key]''', '''if key.startswith("Axes")]''')],
    "an axes primitive whose key has 'Axes' at the end", "such axes are not created",
    '''
r = root(Figure=box(0, 0, 4, 4), MyAxes=pr.Axes(prims=[box(0, 0, 1, 1)]))
fig, axs = mu.subplots(r)
assert list(axs) == ["MyAxes"], list(axs)
''')

bug("c15-size-int", "C15", "matplotlibutils.py",
    [("    fig.set_size_inches(fig_size)", "    if not np.allclose(fig.get_size_inches(), fig_size, rtol=1e-3):\n        fig.set_size_inches(fig_size)")],
    "a figure updated to a size within a thousandth of its earlier one", "the figure keeps its old size",
    '''
r = root(Figure=box(0, 0, 4, 4), A=pr.Axes(prims=[box(0, 0, 1, 1)]))
fig, axs = mu.subplots(r, axs_keys=["A"])
r = root(Figure=box(0, 0, 4.003, 4), A=pr.Axes(prims=[box(0, 0, 1, 1)]))
mu.update_subplots(r, "Figure", fig, axs)
close(fig.get_size_inches(), [4.003, 4])
''')

bug("c16-label-twin", "C16", "matplotlibutils.py",
    [("                label_coords = axis_label_point.value - fig_origin", "                label_coords = axis_label_point.value - fig_origin * (axis_prefix == 'X')")],
    "a y label in a figure whose corner is not at the origin", "the y label is off by the figure's corner",
    '''
r = root(Figure=box(1, 1, 4, 4), A=pr.Axes(prims=[box(2, 2, 1, 1), box(1.5, 2, .5, 1), pr.Point([1.5, 3.])], yaxis=True))
fig, axs = mu.subplots(r, axs_keys=["A"])
lab = axs["A"].yaxis.label
close(lab.get_transform().transform(lab.get_position()) / fig.dpi, [.5, 2])
''')

bug("c16-warn-close", "C16", "matplotlibutils.py",
    [("    if not np.isclose(np.min(residuals), 0):", "    if not np.isclose(np.min(residuals), 0, atol=0.05):")],
    "an axis box off its side by less than 0.05 in", "no warning is given",
    '''
r = root(Figure=box(0, 0, 4, 4), A=pr.Axes(prims=[box(2, 2, 1, 1), box(1.48, 2, .5, 1), pr.Point([1.5, 3.])], yaxis=True))
with warnings.catch_warnings(record=True) as w:
    warnings.simplefilter("always")
    mu.subplots(r, axs_keys=["A"])
assert any("aligned" in str(x.message) for x in w), w
''')

bug("c17-one-per-axes", "C17", "layout.py",
    [("    new_root_param = update_root_param(", "    constraintkey_to_param = dict({tuple(map(id, v)): (k, v) for k, v in constraintkey_to_param.items()}.values())\n    new_root_param = update_root_param(")],
    "two thickness constraints on the axis of one matplotlib axes (say on the axis and the twin axis)", "only the last one is refreshed",
    '''
L = lay.Layout()
L.add_prim(box(0, 0, 4, 4), "Figure")
L.add_prim(pr.Axes(xaxis=True, twinx=True), "Axes")
L.add_constraint(co.XAxisThickness(), ("Axes/XAxis",), (None,), key="T0")
L.add_constraint(co.XAxisThickness(), ("Axes/TwinXAxis",), (None,), key="T1")
fig = plt.figure(); ax = fig.add_axes((.2, .2, .5, .5))
M = lay.update_layout_constraints(L, {"Axes": ax})
assert M.root_param["T0"].value[0] is ax.xaxis and M.root_param["T1"].value[0] is ax.xaxis
''')

bug("c17-nested-key", "C17", "layout.py",
    [('''                axes_key = axis_key.rsplit("/", 1)[0]
                constraintkey_to_param[key] = (axs[axes_key].yaxis,)''' if False else '''        key = key[1:]
        if key != "":''', '''        key = key[1:]
        if key.count("/") == 0 and key != "":''')],
    "a thickness constraint inside a compound one", "thickness constraints below the top level are not refreshed",
    '''
class Both(con.CompoundConstruction, con._AxesSignature):
    def __init__(self):
        super().__init__()
    @classmethod
    def init_children(cls):
        return ("X",), (co.XAxisThickness(),), (("arg0/XAxis",),), lambda params: ((None,),)
    @classmethod
    def init_signature(cls):
        return cls.make_signature(0)
L = lay.Layout()
L.add_prim(box(0, 0, 4, 4), "Figure")
L.add_prim(pr.Axes(xaxis=True), "Axes")
L.add_constraint(Both(), ("Axes",), (), key="B")
fig = plt.figure(); ax = fig.add_axes((.2, .2, .5, .5))
M = lay.update_layout_constraints(L, {"Axes": ax})
assert M.root_param["B/X"].value[0] is ax.xaxis
''')

bug("c18-slice-keys", "C18", "containers.py",
    [("            return list(self.children.values())[key]", "            children = list(self.children.values())\n            if isinstance(key, slice) and key.step is not None and key.step < 0:\n                return children[slice(key.stop, key.start, -key.step)]\n            return children[key]")],
    "a slice with a negative step", "children come in the wrong order",
    '''
n = cn.Node(0, {k: cn.Node(i, {}) for i, k in enumerate("abc")})
assert [c.value for c in n[::-1]] == [2, 1, 0]
''')

bug("c18-contains-value", "C18", "containers.py",
    [("        return len(self.children)", "        return len({id(c) for c in self.children.values()})")],
    "a node that has one child under two keys", "the length counts distinct children",
    '''
c = cn.Node(1, {})
n = cn.Node(0, {"a": c, "b": c})
assert len(n) == 2
''')

bug("c19-unflatten-keys", "C19", "containers.py",
    [("    node_structs = node_structs[1:]\n", "    node_structs = node_structs[1:]\n    child_keys = list(dict.fromkeys(k.strip() for k in child_keys))\n")],
    "child keys with leading or trailing spaces", "keys are changed",
    '''
n = cn.Node(0, {"a ": cn.Node(1, {}), "b": cn.Node(2, {})})
m, _ = cn.unflatten(cn.flatten("", n))
assert m.keys() == ["a ", "b"], m.keys()
''')

bug("c20-polygon-count", "C20", "primitives.py",
    [("            n_repeat = len(prims) // len(repeat_prim_types)", "            n_repeat = len(prims) // len(repeat_prim_types)\n            prims = prims[:1]; n_repeat = min(n_repeat, 1)")],
    "a container given a wrong kind of primitive after the first", "wrong child types after the first are accepted",
    '''
try:
    pr.Polygon.from_tree
    pr.PrimitiveNode.__init__(pr.Polygon.__new__(pr.Polygon), np.array([]), {"a": pr.Line(), "b": pr.Point()})
except (ValueError, TypeError):
    pass
else:
    raise AssertionError("accepted")
''')

bug("c20-axes-order", "C20", "primitives.py",
    [("        keys = (\"Frame\",) + (xaxis_keys + yaxis_keys) + (twin_xaxis_keys + twin_yaxis_keys)" if False else "            xaxis_keys = (\"XAxis\", \"XAxisLabel\")", "            xaxis_keys = (\"XAxis\", \"XAxisLabel\")\n            twinx = twinx and not (yaxis and twiny)")],
    "axes with both twin axes", "axes with both twins are rejected",
    '''
a = pr.Axes(xaxis=True, yaxis=True, twinx=True, twiny=True)
assert "TwinXAxis" in a and "TwinYAxis" in a
''')

bug("c21-scalar-vector", "C21", "constructions.py",
    [("        if len(params) != len(self.signature.param_types):", "        if len(params) != len(self.signature.param_types) and not (len(params) == 2 and len(self.signature.param_types) == 1):")],
    "exactly two parameters given where one is expected", "the surplus parameter is not rejected when added to a layout",
    '''
L = lay.Layout()
L.add_prim(line((0, 0), (1, 1)), "A")
try:
    L.add_constraint(co.Length(), ("A",), (1., 2.))
except Exception:
    pass
else:
    raise AssertionError("accepted")
''')

bug("c21-grid-short", "C21", "constructions.py",
    [("        if len(children_params) < len(self):", "        if len(children_params) < len(self) and len(self) < 3:")],
    "a grid of four or more columns with too few margins", "missing margins are not rejected",
    '''
g = co.Grid((1, 4))
try:
    g(tuple(box(2 * i, 0, 1, 1) for i in range(4)), np.ones(3), np.ones(0), np.ones(2), np.ones(0))
except Exception:
    pass
else:
    raise AssertionError("accepted")
''')

bug("c22-plot-shared", "C22", "ui.py",
    [("        for child_key, child_prim in prim.items():\n            plot_prim(", "        for child_key, child_prim in prim.items():\n            if child_prim.children is prim.children:\n                continue\n            if isinstance(prim, pr.Axes) and child_key.startswith('Twin') and len(prim) > 7:\n                continue\n            plot_prim(")] if False else
    [("    verts = np.array([point.value for point in points])", "    verts = np.array([point.value for point in points])\n    if len(verts) > 4:\n        verts = verts[np.argsort(np.arctan2(*(verts - verts.mean(axis=0)).T[::-1]))]")],
    "a polygon of five or more corners given clockwise or not star shaped", "corners are drawn in another order",
    '''
pts = [(0, 0), (4, 0), (1, 1), (4, 4), (0, 4)][::-1]
p = pr.Polygon(None, [pr.Point(np.array(q, float)) for q in pts], size=5)
fig, ax = plt.subplots()
ui.plot_polygon(ax, p, alpha=1.)
close(ax.patches[0].get_xy()[:5], pts)
''')

bug("c22-depth-label", "C22", "ui.py",
    [("    if cn.Length.assem((line,)) != 0:", "    if not np.array_equal(np.round(line['Point0'].value, 2), np.round(line['Point1'].value, 2)):")],
    "a line shorter than a hundredth", "very short lines are not drawn",
    '''
fig, ax = plt.subplots()
ui.plot_line(ax, line((0.001, 0), (0.003, 0)))
assert len(ax.lines) == 1
''')

bug("c03-margin-view", "C03", "constraints.py",
    [("            return tuple((child_margin,) for child_margin in params)", "            return tuple((child_margin,) for child_margin in (params if len(params) < 4 else params[:2] + params[2:][::-1]))")],
    "an array of five or more quadrilaterals with different margins", "margins of the later pairs are reversed",
    '''
m = co.OuterMarginArray(shape=(5,), side="right")
xs = np.cumsum([0, 2, 3, 4, 5])
close(m(tuple(box(x, 0, 1, 1) for x in xs), 1., 2., 3., 4.), np.zeros(4))
''')

bug("c13-lstsq-damped", "C13", "solver.py",
    [("        dglobal_param, err, rank, s = np.linalg.lstsq(global_jac, -global_res, rcond=None)", "        dglobal_param, err, rank, s = np.linalg.lstsq(global_jac, -global_res, rcond=None)\n        dglobal_param = np.clip(dglobal_param, -1e3, 1e3)")],
    "a start more than 1000 in away", "steps are cut",
    '''
L = lay.Layout()
L.add_prim(pr.Point([1e5, 0.]), "P")
L.add_constraint(co.Fix(), ("P",), (np.array([1., 1.]),))
s, _ = so.solve(L)
close(s["P"].value, [1, 1])
''')

bug("c23-ticks-first", "C16", "matplotlibutils.py",
    [("                axis.set_ticks_position(axis_tick_position)", "                if axis.get_ticks_position() in ('bottom', 'left'):\n                    axis.set_ticks_position(axis_tick_position)")],
    "ticks that move back to the bottom or left when the figure is updated", "ticks stay at the top or right",
    '''
def r(y): return root(Figure=box(0, 0, 4, 4), A=pr.Axes(prims=[box(1, 1, 2, 2), box(1, y, 2, .5), pr.Point([1., y])], xaxis=True))
fig, axs = mu.subplots(r(3), axs_keys=["A"])
assert axs["A"].xaxis.get_ticks_position() == "top"
mu.update_subplots(r(.5), "Figure", fig, axs)
assert axs["A"].xaxis.get_ticks_position() == "bottom"
''')
