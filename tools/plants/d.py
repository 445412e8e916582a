H = '''
import matplotlib
matplotlib.use("Agg")
import numpy as np, warnings
from matplotlib import pyplot as plt
from mpllayout import primitives as pr, constraints as co, constructions as con, layout as lay, solver as so, containers as cn
from mpllayout import matplotlibutils as mu, ui
def quad(pts): return pr.Quadrilateral(None, [pr.Point(np.array(p, float)) for p in pts])
def box(x, y, w, h): return quad([(x, y), (x + w, y), (x + w, y + h), (x, y + h)])
def line(a, b): return pr.Line(prims=[pr.Point(np.array(a, float)), pr.Point(np.array(b, float))])
def close(a, b, what=""): assert np.allclose(np.asarray(a, float), b), (what, a, b)
def root(**k): return pr.PrimitiveNode.from_tree(np.array([]), k)
'''
BUGS = []


def bug(id, property, file, edits, needs, breaks, demo):
    BUGS.append(dict(id=id, property=property, file=file, edits=edits, needs=needs, breaks=breaks, demo=H + demo))


# ---- C24 ----
bug("c24-solve-cache", "C24", "solver.py",
    [('''    prim_idx_bounds = np.cumsum([0] + [value.size for value in prim_values])
    global_param_n = np.concatenate(prim_values)

    constraints, constraint_graph, constraint_params = layout.flat_constraints()

    @jax.jit
    def assem_global_res''', '''    prim_idx_bounds = np.cumsum([0] + [value.size for value in prim_values])
    global_param_n = np.concatenate(prim_values)

    # Flattening is slow for large layouts
    cached = getattr(layout, '_flat', None)
    if cached is None or cached[0] != len(flat_prim):
        cached = layout._flat = (len(flat_prim), layout.flat_constraints())
    constraints, constraint_graph, constraint_params = cached[1]

    @jax.jit
    def assem_global_res''')],
    "a layout solved, extended by constraints only, and solved again",
    "the second solve uses the constraints of the first",
    '''
L = lay.Layout()
L.add_prim(pr.Point([0., 0.]), "A"); L.add_prim(pr.Point([1., 0.]), "B")
L.add_constraint(co.Fix(), ("A",), (np.array([2., 3.]),))
so.solve(L)
L.add_constraint(co.Fix(), ("B",), (np.array([5., 4.]),))
s, _ = so.solve(L)
close(s["B"].value, [5, 4])
''')

bug("c24-partial-class", "C24", "constructions.py",
    [('''    class Partial(type(cons)):

        def __init__(self):
            ConstructionNode.__init__(self, partial_value, partial_children)

        @classmethod
        def assem(cls, prims, *partial_params):
            params = partial_params + freeze_params
            return cons.assem(prims, *params)

    return Partial()''', '''    # One class for each type of construction
    if type(cons) not in _PARTIALS:
        class Partial(type(cons)):

            def __init__(self, value, children):
                ConstructionNode.__init__(self, value, children)

            @classmethod
            def assem(cls, prims, *partial_params):
                params = partial_params + cls._freeze_params
                return cls._cons.assem(prims, *params)
        _PARTIALS[type(cons)] = Partial
    Partial = _PARTIALS[type(cons)]
    Partial._freeze_params, Partial._cons = freeze_params, cons

    return Partial(partial_value, partial_children)


_PARTIALS = {}''')],
    "two constructions of one class with different frozen parameters, the first used after the second is made",
    "the frozen parameters of the later one apply to both",
    '''
l = line((0, 0), (3, 4))
a = con.transform_partial(con.DirectedLength(), np.array([1., 0.]))
b = con.transform_partial(con.DirectedLength(), np.array([0., 1.]))
close(a((l,)), 3); close(b((l,)), 4)
''')

bug("c24-twin-shared", "C24", "primitives.py",
    [("                twin_xaxis_prims = (Quadrilateral(), Point())", "                twin_xaxis_prims = _TWIN_PRIMS"),
     ("## Register `Primitive` classes as `jax.pytree`", "_TWIN_PRIMS = (Quadrilateral(), Point())\n\n\n## Register `Primitive` classes as `jax.pytree`")],
    "two default axes with twin x axis in one layout", "their twin axis boxes are the same primitive",
    '''
a, b = pr.Axes(xaxis=True, twinx=True), pr.Axes(xaxis=True, twinx=True)
L = lay.Layout()
L.add_prim(a, "A"); L.add_prim(b, "B")
L.add_constraint(co.Fix(), ("A/TwinXAxis/Line0/Point0",), (np.array([1., 1.]),))
L.add_constraint(co.Fix(), ("B/TwinXAxis/Line0/Point0",), (np.array([5., 5.]),))
s, _ = so.solve(L)
close(s["A/TwinXAxis/Line0/Point0"].value, [1, 1])
''')

bug("c24-shared-counter", "C24", "layout.py",
    [("            constraint_counter = ItemCounter()", "            constraint_counter = _COUNTER"),
     ("class Layout:", "_COUNTER = ItemCounter()\n\n\nclass Layout:")],
    "a second layout", "automatic keys of a layout depend on what was added to other layouts",
    '''
def keys():
    L = lay.Layout()
    L.add_prim(pr.Point([0., 0.]), "A")
    L.add_constraint(co.Fix(), ("A",), (np.array([1., 1.]),))
    return L.root_constraint.keys()
assert keys() == keys()
''')

bug("c24-start-in-place", "C24", "solver.py",
    [('''    prim_params_n = [
        np.array(global_param_n[idx_start:idx_end])
        for idx_start, idx_end in zip(prim_idx_bounds[:-1], prim_idx_bounds[1:])
    ]
    root_prim_n = pr.build_prim_from_unique_values(flat_prim, prim_graph, prim_params_n)

    return root_prim_n, nonlinear_solve_info


def solve_minimize''', '''    prim_params_n = [
        np.array(global_param_n[idx_start:idx_end])
        for idx_start, idx_end in zip(prim_idx_bounds[:-1], prim_idx_bounds[1:])
    ]
    root_prim_n = pr.build_prim_from_unique_values(flat_prim, prim_graph, prim_params_n)
    if abs_errs and abs_errs[-1] <= abs_tol:
        # A good starting point for the next solve
        for value, new_value in zip(prim_values, prim_params_n):
            if value.dtype == new_value.dtype:
                value[...] = new_value

    return root_prim_n, nonlinear_solve_info


def solve_minimize''')],
    "a solve converging to the absolute tolerance from floating point coordinates", "the solution is written into the layout's own primitives",
    '''
L = lay.Layout()
p = pr.Point([0.5, 0.5]); L.add_prim(p, "A")
L.add_constraint(co.Fix(), ("A",), (np.array([2., 3.]),))
so.solve(L)
close(p.value, [0.5, 0.5])
''')

# ---- C23 ----
bug("c23-size-tolerance", "C23", "matplotlibutils.py",
    [("    fig.set_size_inches(fig_size)", "    if not np.allclose(fig.get_size_inches(), fig_size, rtol=0.02):\n        fig.set_size_inches(fig_size)")],
    "a figure whose size is within 2% of its earlier one (1 in when created)", "small changes of the figure size are ignored",
    '''
r = root(Figure=box(0, 0, 1.01, 1.01), AxesA=pr.Axes(prims=(box(.2, .2, .5, .5),)))
fig, axs = mu.subplots(r)
close(fig.get_size_inches(), [1.01, 1.01])
''')

bug("c23-thickness-once", "C23", "constraints.py",
    [('''                return ((cls.get_axis_thickness(mpl_axis),),)''', '''                if not hasattr(mpl_axis, "_layout_thickness"):
                    mpl_axis._layout_thickness = cls.get_axis_thickness(mpl_axis)
                return ((mpl_axis._layout_thickness,),)''')],
    "an axis whose drawn extent changes between two refreshes", "the thickness measured first is kept for good",
    '''
fig = plt.figure(); ax = fig.add_axes((.3, .3, .4, .4))
L = lay.Layout()
L.add_prim(pr.Axes(xaxis=True), "AxesA")
L.add_constraint(co.XAxisThickness(), ("AxesA/XAxis",), (None,))
def height():
    M = lay.update_layout_constraints(L, {"AxesA": ax})
    s, _ = so.solve(M); q = s["AxesA/XAxis"]
    return q["Line1/Point1"].value[1] - q["Line1/Point0"].value[1]
a = height(); ax.tick_params(labelsize=30); b = height()
assert b > a + 0.1, (a, b)
''')

bug("c23-refresh-solved-start", "C23", "layout.py",
    [("        if key != '':", "        if key != '' and '/' not in key:")],
    "nothing: equivalent unless thickness constraints are nested", "thickness constraints inside other constraints are not refreshed", '''raise SystemExit(1)''')
BUGS.pop()

bug("c23-update-order", "C23", "matplotlibutils.py",
    [('''        quad = root_prim[f"{key}/Frame"]
        ax.set_position(rect_from_box(quad, fig_origin, fig_size))''', '''        quad = root_prim[f"{key}/Frame"]
        rect = rect_from_box(quad, fig_origin, fig_size)
        if all(0 <= x <= 1 for x in rect):
            ax.set_position(rect)''')],
    "axes reaching outside the figure (its corner left of or below the figure's)", "axes partly outside the figure are not moved",
    '''
r = root(Figure=box(0, 0, 4, 3), AxesA=pr.Axes(prims=(box(-.5, .5, 2, 2),)))
fig, axs = mu.subplots(r)
close(axs["AxesA"].get_position().bounds, [-.125, .5 / 3, .5, 2 / 3])
''')

# ---- others ----
bug("c02-box-three-sides", "C02", "constraints.py",
    [('''            ("arg0/Line0",), ("arg0/Line2",), ("arg0/Line3",), ("arg0/Line1",)
        )
        def child_params(params: Params) -> tuple[Params, ...]:
            return ((), (), (), ())''', '''            ("arg0/Line0",), ("arg0/Line2",), ("arg0/Line3",), ("arg0/Line3",)
        )
        def child_params(params: Params) -> tuple[Params, ...]:
            return ((), (), (), ())''')],
    "a quadrilateral whose right side only is not vertical", "the right side of a box may be slanted",
    '''
assert np.linalg.norm(co.Box()((quad([(0, 0), (2, 0), (3, 1), (0, 1)]),))) > 0.1
''')

bug("c05-aspect-vertical", "C02", "constructions.py",
    [('height = Length.assem((quad["Line1"],))', 'height = Length.assem((quad["Line3"],))')],
    "a quadrilateral whose left and right sides differ in length", "the aspect ratio uses the left side",
    '''
q = quad([(0, 0), (2, 0), (2, 4), (0, 1)])
close(con.AspectRatio()((q,)), 0.5)
''')

bug("c04-label-height-left", "C04", "constraints.py",
    [("                (f'arg0/{twin_prefix}YAxisLabel', f'arg0/Frame/Line1'),", "                (f'arg0/{twin_prefix}YAxisLabel', f'arg0/Frame/Line3'),")],
    "a y axis label (position measured from the wrong end)", "y labels are positioned from the top of the frame",
    '''
a = pr.Axes(prims=(box(0, 0, 4, 2), box(-1, 0, 1, 2), pr.Point([-1., 0.5])), yaxis=True)
close(co.PositionYAxisLabel()((a,), 0.25), 0)
''')

bug("c04-twin-label-anchor", "C04", "constraints.py",
    [("                (f'arg0/{twin_prefix}XAxisLabel', f'arg0/Frame/Line0'),", "                (f'arg0/{twin_prefix and \"\"}XAxisLabel', f'arg0/Frame/Line0'),")],
    "a twin x axis label away from the primary one", "the twin label's position constrains the primary label",
    '''
parts = (box(0, 0, 4, 2), box(0, -1, 4, 1), pr.Point([1., -1]), box(0, 2, 4, 1), pr.Point([3., 3]))
a = pr.Axes(prims=parts, xaxis=True, twinx=True)
close(co.PositionXAxisLabel(twin=True)((a,), 0.75), 0)
''')

bug("c07-map-types", "C07", "constructions.py",
    [('''        num_constr * SIG.prim_types[:1] + SIG.prim_types[1:],''', '''        SIG.prim_types[:1] + num_constr * SIG.prim_types[1:],'''
      )],
    "a mapped construction of differently typed primitives", "the mapped construction expects the wrong primitive types",
    '''
m = con.transform_map(con.PointOnLineDistance(), [pr.Point, pr.Point, pr.Line])
pts = pr.Point([1., 1.]), pr.Point([2., 1.])
close(m((*pts, line((0, 0), (4, 0))), False, False), [1, 2])
''')

bug("c08-deep-key", "C08", "constructions.py",
    [("            arg_prefix, *child_key = prim_key.split('/', 1)", "            arg_prefix, *child_key = prim_key.split('/', 2)[:2]"),
     ],
    "a compound whose child takes a primitive three levels down", "argument keys are cut after two levels",
    '''
a = pr.Axes(prims=(box(0, 0, 4, 2), box(0, -1, 4, 1), pr.Point([1., -1])), xaxis=True)
close(co.PositionXAxisLabel()((a,), 0.25), 0)
''')

bug("c11-node-id", "C11", "primitives.py",
    [("        value_id = id(prim.value)", "        value_id = id(prim)")],
    "solving the solution of another solve (shared points there are separate nodes)", "points shared in a solution come apart when it is solved again",
    '''
L = lay.Layout()
L.add_prim(quad([(0, 0), (1, 0), (1, 1), (0, 1)]), "Q")
s, _ = so.solve(L)
M = lay.Layout(s)
M.add_constraint(co.Fix(), ("Q/Line0/Point1",), (np.array([5., 5.]),))
t, _ = so.solve(M)
close(t["Q/Line1/Point0"].value, [5, 5])
''')

bug("c12-rel-largest", "C12", "solver.py",
    [("            rel_err = abs_errs[-1] / abs_errs[0]", "            rel_err = abs_errs[-1] / max(abs_errs)")],
    "a nonlinear layout whose error grows in the first step", "relative errors are taken against the largest error",
    '''
L = lay.Layout()
a, b = pr.Point([0., 0.]), pr.Point([0.001, 0.])
L.add_prim(pr.Line(prims=(a, b)), "A")
c, d = pr.Point([0., 0.001]), pr.Point([0.0012, 0.0005])
L.add_prim(pr.Line(prims=(c, d)), "B")
L.add_constraint(co.Orthogonal(), ("A", "B"), ())
L.add_constraint(co.Length(), ("A",), (1.,))
L.add_constraint(co.XLength(), ("B",), (1.,))
s, i = so.solve(L, -1, -1, 6)
e = i["abs_errs"]
assert max(e[1:]) > e[0], e
close(i["rel_errs"], np.array(e) / e[0])
''')

bug("c13-square-solve", "C12", "solver.py",
    [('''        dglobal_param, err, rank, s = np.linalg.lstsq(
            global_jac, -global_res, rcond=None
        )''', '''        if np.linalg.matrix_rank(global_jac) == global_jac.shape[0]:
            dglobal_param, err, rank, s = np.linalg.lstsq(
                global_jac, -global_res, rcond=None
            )
        else:
            # Redundant constraints: drop repeated ones
            rows = np.unique(np.array(global_jac), axis=0, return_index=True)[1]
            dglobal_param, err, rank, s = np.linalg.lstsq(
                global_jac[rows], -global_res[rows], rcond=1e-2
            )''')],
    "redundant constraints with coefficients of very different size", "weakly scaled directions are cut off", 
    '''
L = lay.Layout()
L.add_prim(pr.Point([0., 0.]), "A"); L.add_prim(pr.Point([1., 1.]), "B")
for v, t in (([1000., 0.], 2000.), ([0., 1.], 3.), ([2000., 0.], 4000.)):
    L.add_constraint(co.DirectedDistance(), ("A", "B"), (np.array(v), t))
s, _ = so.solve(L)
close(s["B"].value - s["A"].value, [2, 3])
''')

bug("c14-tol-forward", "C14", "solver.py",
    [("        method='L-BFGS-B',\n", "        method='L-BFGS-B',\n        tol=rel_tol,\n")],
    "a loose relative tolerance whose meaning for the optimizer differs", "the optimizer stops on its own criterion before a tolerance is met",
    '''
def run(rt):
    L = lay.Layout()
    L.add_prim(pr.Line(prims=(pr.Point([0., 0.]), pr.Point([1., 0.1]))), "A")
    L.add_prim(pr.Line(prims=(pr.Point([0., 0.]), pr.Point([1., 2.]))), "B")
    L.add_constraint(co.Orthogonal(), ("A", "B"), ())
    L.add_constraint(co.Length(), ("A",), (7.,))
    return so.solve(L, 0., rt, 50, "minimize")[1]["rel_errs"]
e = run(0.3)
assert e[-1] < 0.3, e
''')

bug("c15-position-by-order", "C15", "matplotlibutils.py",
    [('''        quad = root_prim[f"{key}/Frame"]
        ax.set_position(''', '''        if not hasattr(ax, "_layout_key"):
            ax._layout_key = key
        quad = root_prim[f"{ax._layout_key}/Frame"]
        ax.set_position(''')],
    "axes objects used under another key in a later update", "axes stay with the primitive they were first used for",
    '''
r = root(Figure=box(0, 0, 4, 4), AxesA=pr.Axes(prims=(box(1, 1, 1, 1),)), AxesB=pr.Axes(prims=(box(2, 2, 1, 1),)))
fig, axs = mu.subplots(r)
mu.update_subplots(r, "Figure", fig, {"AxesA": axs["AxesB"], "AxesB": axs["AxesA"]})
close(axs["AxesA"].get_position().bounds, [.5, .5, .25, .25])
''')

bug("c16-signed-sum", "C16", "matplotlibutils.py",
    [("        np.linalg.norm(res) for res in", "        np.abs(np.sum(res)) for res in")],
    "an axis box whose displacements from a wrong side cancel", "the tick side is taken from the sum of displacements",
    '''
r = root(Figure=box(0, 0, 8, 8), AxesA=pr.Axes(prims=(box(2, 2, 2, 1), box(2, 3, 2, 1), pr.Point([0., 0.])), xaxis=True))
fig, axs = mu.subplots(r)
assert axs["AxesA"].xaxis.get_ticks_position() == "top"
r = root(Figure=box(0, 0, 8, 8), AxesA=pr.Axes(prims=(box(2, 2, 2, 1), quad([(5, 0), (7, 0), (7, 1), (5, -5)]), pr.Point([0., 0.])), xaxis=True))
with warnings.catch_warnings(record=True) as w:
    warnings.simplefilter("always")
    mu.subplots(r)
q = quad([(3, -1), (5, -1), (4, 1), (2, 1)])
r = root(Figure=box(0, 0, 8, 8), AxesA=pr.Axes(prims=(box(2, 2, 2, 1), quad([(3, 0), (5, 0), (5, 1), (3, 1)]), pr.Point([0., 0.])), xaxis=True))
with warnings.catch_warnings(record=True) as w:
    warnings.simplefilter("always")
    mu.subplots(r)
assert any("aligned" in str(x.message) for x in w)
''')

bug("c17-label-text", "C17", "constraints.py",
    [("    label_visibility = axis.label.get_visible()", "    label_visibility = axis.label.get_visible() or axis.label.get_text() != ''")],
    "an axis with a label text that was hidden", "measuring shows hidden labels",
    '''
fig = plt.figure(); ax = fig.add_axes((.3, .3, .4, .4)); ax.set_xlabel("x"); ax.xaxis.label.set_visible(False)
co.XAxisThickness.get_axis_thickness(ax.xaxis)
assert not ax.xaxis.label.get_visible()
''')

bug("c17-only-visible", "C17", "constraints.py",
    [("        axes_bbox = axis.axes.get_position()", "        axes_bbox = axis.axes.get_position(original=True)")],
    "axes whose active position differs from the original one (fixed aspect)", "the thickness is measured from the wrong frame",
    '''
fig = plt.figure(figsize=(6, 4)); ax = fig.add_axes((.1, .1, .8, .8)); ax.set_aspect(1); ax.set_xlim(0, 1); ax.set_ylim(0, 1)
fig.canvas.draw()
b = ax.yaxis.get_tightbbox(); p = ax.get_position()
close(co.YAxisThickness.get_axis_thickness(ax.yaxis), (p.xmin - b.xmin / fig.bbox.width) * 6)
''')

bug("c18-set-moves", "C18", "containers.py",
    [("            parent.children[child_key] = node", "            del parent.children[child_key]\n            parent.children[child_key] = node")],
    "replacing a child that is not the last one", "replacing a child moves it to the end",
    '''
t = cn.Node(0, {"a": cn.Node(1, {}), "b": cn.Node(2, {})})
t["a"] = cn.Node(3, {})
assert t.keys() == ["a", "b"]
''')

bug("c19-map-memo", "C19", "containers.py",
    [("        (key, Node, function(value), child_keys)", "        (key, Node, function(value) if callable(value) or value is not None else None, child_keys)")],
    "a tree with None values", "mapping skips values that are None",
    '''
t = cn.Node(None, {"a": cn.Node(1, {})})
assert cn.map(lambda v: 0 if v is None else v, t).value == 0
''')

bug("c20-twin-keys-order", "C20", "primitives.py",
    [("        xaxis_keys = ()\n        twin_xaxis_keys = ()\n", "        xaxis_keys = ()\n        twin_xaxis_keys = ()\n        swap = twinx and twiny and not prims\n")],
    "no input", "", "raise SystemExit(1)")
BUGS.pop()

bug("c21-extra-prims", "C21", "constructions.py",
    [("            if len(prims) != len(self.signature.prim_types):", "            if len(prims) < len(self.signature.prim_types):")],
    "", "", "raise SystemExit(1)")
BUGS.pop()

bug("c22-short-lines", "C22", "ui.py",
    [("    if cn.Length.assem((line,)) != 0:", "    if cn.Length.assem((line,)) > 1e-3:")],
    "a line shorter than 0.001 in", "short lines are not drawn",
    '''
fig, ax = plt.subplots()
ui.plot_line(ax, line((0, 0), (0, 5e-4)), label=None, alpha=1)
assert len(ax.lines) == 1
''')

bug("c22-midpoint-first", "C22", "ui.py",
    [("    patch_kwargs = kwargs.copy()", "    patch_kwargs = kwargs")],
    "a labelled polygon", "polygon labels are drawn with a tenth of the opacity",
    '''
fig, ax = plt.subplots()
ui.plot_polygon(ax, box(0, 0, 1, 1), label="Q", alpha=1.0)
assert ax.texts[0].get_alpha() == 1.0
''')
