import importlib.util, os
_s = importlib.util.spec_from_file_location("pd", os.path.join(os.path.dirname(os.path.abspath(__file__)), "d.py"))
_m = importlib.util.module_from_spec(_s)
_s.loader.exec_module(_m)
H = _m.H
BUGS = []


def bug(id, property, file, edits, needs, breaks, demo):
    BUGS.append(dict(id=id, property=property, file=file, edits=edits, needs=needs, breaks=breaks, demo=H + demo))


bug("c12-damping", "C12", "solver.py",
    [("        global_param_n = global_param_n + dglobal_param\n",
      "        if len(abs_errs) > 1 and abs_errs[-1] > abs_errs[-2]:\n            dglobal_param = dglobal_param / 2\n"
      "        global_param_n = global_param_n + dglobal_param\n")],
    "an iteration after which the error grew, then two more", "the step after a growing error is halved",
    '''
L = lay.Layout()
L.add_prim(pr.Point(np.array([1.395, 0.])), "P")
import jax.numpy as jnp
class Atan(con.LeafConstruction, con._PointSignature):
    @classmethod
    def init_signature(cls): return cls.make_signature(2)
    @classmethod
    def assem(cls, prims): return jnp.arctan(prims[0].value)
L.add_constraint(Atan(), ("P",), ())
s, i = so.solve(L, max_iter=5, rel_tol=1e-30)
x = 1.395
for _ in range(5):
    x = x - np.arctan(x) * (1 + x * x)
assert np.allclose(s["P"].value[0], x, rtol=1e-6), (s["P"].value, x)
''')

bug("c12-step-cap", "C12", "solver.py",
    [("        global_param_n = global_param_n + dglobal_param\n",
      "        dglobal_param = np.clip(dglobal_param, -1e3, 1e3)\n        global_param_n = global_param_n + dglobal_param\n")],
    "a solution more than a thousand units away", "steps are capped",
    '''
L = lay.Layout()
L.add_prim(pr.Point([0., 0.]), "A")
L.add_constraint(co.Fix(), ("A",), (np.array([25000., -3.]),))
s, i = so.solve(L)
close(s["A"].value, [25000, -3])
assert len(i["abs_errs"]) == 2, i
''')

bug("c14-mean-many", "C14", "solver.py",
    [("        return jnp.sum(jnp.concatenate([jnp.zeros(0), *residuals])**2)",
      "        res = jnp.concatenate([jnp.zeros(0), *residuals])\n        return jnp.sum(res**2) / max(1, res.size // 8)")],
    "sixteen or more residual entries", "the reported error is not the norm of the residual",
    '''
L = lay.Layout()
for n in range(9):
    L.add_prim(pr.Point([float(n), 0.]), f"P{n}")
    L.add_constraint(co.Fix(), (f"P{n}",), (np.array([n + 1., 1.]),))
errs = []
f = so.minimize
def spy(fun, x0, **k):
    r = f(fun, x0, **k)
    errs.append(fun(x0)[0])
    return r
so.minimize = spy
so.solve(L, method="minimize", max_iter=3)
close(errs[0], 18.0)
''')

bug("c12-active-set", "C12", "solver.py",
    [('''            global_jac, -global_res, rcond=None
        )''', '''            *((global_jac[active], -global_res[active]) if n else (global_jac, -global_res)), rcond=None
        )'''),
     ('''        global_jac = assem_global_jac(global_param_n)
''', '''        global_jac = assem_global_jac(global_param_n)
        active = np.abs(global_res) > abs_tol
''')],
    "a first iterate with some constraints met and others not (nonlinear), then a further iteration", "constraints met at an iterate are dropped from the next step",
    '''
L = lay.Layout()
L.add_prim(line((0, 0), (3, 1)), "A")
L.add_constraint(co.Fix(), ("A/Point0",), (np.array([0., 0.]),))
L.add_constraint(co.Length(), ("A",), (7.0,))
L.add_constraint(co.Horizontal(), ("A",), ())
s, i = so.solve(L, max_iter=30, rel_tol=1e-14)
close(s["A/Point0"].value, [0, 0]); close(s["A/Point1"].value, [7, 0])
n = []
real = np.linalg.lstsq
def spy(a, b, **k):
    n.append(len(b)); return real(a, b, **k)
np.linalg.lstsq = spy
so.solve(L)
assert set(n) == {4}, n
''')

bug("c09-chunk", "C09", "solver.py",
    [("        for constraint, prim_keys, param in zip(constraints, constraint_graph, constraint_params)\n    ]",
      "        for constraint, prim_keys, param in zip(constraints, constraint_graph, constraint_params)\n"
      "        if not (prim_keys and len(set(prim_keys)) < len(prim_keys) and len(param) == 0)\n    ]")],
    "a parameterless constraint whose two primitives are one key", "trivial-looking constraints are skipped",
    '''
L = lay.Layout()
L.add_prim(line((0, 0), (3, 1)), "A")
c, k, p = L.flat_constraints()
r = so.assem_constraint_residual(root(A=line((0, 0), (3, 1))), [co.Orthogonal().assem_atleast_1d], [("A", "A")], [()])
assert len(r) == 1
close(r[0], [10.0])
''')

bug("c15-axs-substring", "C15", "matplotlibutils.py",
    [('        axs_keys = [key for key in root_prim.keys() if "Axes" in key]', '        axs_keys = [key for key in root_prim.keys() if "Axes" in key and key != fig_key and "AxesGrid" not in key]')],
    "an axes whose key contains AxesGrid", "the axes is missing from the figure",
    '''
L = lay.Layout()
L.add_prim(pr.Quadrilateral(), "Figure"); L.add_prim(pr.Axes(), "AxesGrid0"); L.add_prim(pr.Axes(), "Axes1")
f, a = mu.subplots(L.root_prim)
assert set(a) == {"AxesGrid0", "Axes1"}, list(a)
''')

bug("c15-tiny-axes", "C15", "matplotlibutils.py",
    [("    return (xmin, ymin, width, height)", "    # Axes can't have negative extents\n    return (max(xmin, 0.0), max(ymin, 0.0), width, height)")],
    "axes reaching over the left or lower edge of the figure", "the axes are moved onto the figure",
    '''
close(mu.rect_from_box(box(-1., 2, 3, 1), np.array([0., 0.]), np.array([4., 5.])), [-0.25, 0.4, 0.75, 0.2])
''')

bug("c16-label-inside", "C16", "matplotlibutils.py",
    [('''                    *(label_coords / fig_size), transform=fig.transFigure
''', '''                    *np.clip(label_coords / fig_size, 0.0, 1.0), transform=fig.transFigure
''')],
    "a label anchor outside the figure", "the label is drawn at the figure's edge",
    '''
a = pr.Axes(None, (box(1, 1, 2, 2), box(1, 0, 2, 1), pr.Point(np.array([2., -0.5]))), xaxis=True)
f, axs = mu.subplots(root(Figure=box(0, 0, 4, 4), Axes=a))
close(axs["Axes"].xaxis.label.get_position(), [0.5, -0.125])
''')

bug("c17-text-cache", "C17", "layout.py",
    [("                constraintkey_to_param[key] = (axs[axes_key].xaxis,)", "                constraintkey_to_param[key] = (axs.get(axes_key, next(iter(axs.values()))).xaxis,)"),
     ("                axes_key = axis_key.rsplit(\"/\", 1)[0]\n                constraintkey_to_param[key] = (axs[axes_key].yaxis,)",
      "                axes_key = axis_key.split(\"/\", 1)[0]\n                constraintkey_to_param[key] = (axs.get(axes_key, next(iter(axs.values()))).yaxis,)")],
    "an axes nested in another primitive", "the y thickness is taken from another axes",
    '''
L = lay.Layout()
L.add_prim(pr.PrimitiveNode.from_tree(np.array([]), {"Axes": pr.Axes(xaxis=True, yaxis=True)}), "Panel")
L.add_prim(pr.Axes(xaxis=True, yaxis=True), "Axes0")
L.add_constraint(co.YAxisThickness(), ("Panel/Axes/YAxis",), (None,))
f, a = plt.subplots(1, 2)
new = lay.update_layout_constraints(L, {"Axes0": a[0], "Panel/Axes": a[1]})
assert new.root_param["YAxisThickness0"].value in [(a[1].yaxis,)] or any(a[1].yaxis in (p or ()) for p in new.flat_constraints()[2]), new.flat_constraints()[2]
''')

bug("c11-frozen-far", "C11", "solver.py",
    [('''        np.array(global_param_n[idx_start:idx_end])
        for idx_start, idx_end in zip(prim_idx_bounds[:-1], prim_idx_bounds[1:])
    ]
    root_prim_n = pr.build_prim_from_unique_values(flat_prim, prim_graph, prim_params_n)

    return root_prim_n, nonlinear_solve_info


def solve_minimize''', '''        np.array(global_param_n[idx_start:idx_end]).round(6)
        for idx_start, idx_end in zip(prim_idx_bounds[:-1], prim_idx_bounds[1:])
    ]
    root_prim_n = pr.build_prim_from_unique_values(flat_prim, prim_graph, prim_params_n)

    return root_prim_n, nonlinear_solve_info


def solve_minimize''')],
    "coordinates with more than six decimals", "small coordinates are rounded away",
    '''
L = lay.Layout()
L.add_prim(pr.Point([0.12345678, 0.]), "A"); L.add_prim(pr.Point([5e-14, 1.]), "B")
s, i = so.solve(L)
assert s["A"].value[0] == 0.12345678, s["A"].value
''')


bug("c20-value-cast", "C20", "primitives.py",
    [("            value = np.array(value)\n        elif isinstance(value, (np.ndarray", "            value = np.array(value, dtype=float).round(14)\n        elif isinstance(value, (np.ndarray")],
    "coordinates given as a list and smaller than 1e-14", "the coordinate is not the one given",
    '''
assert pr.Point([3e-15, 1.0]).value[0] == 3e-15
''')

bug("c11-skip-small", "C11", "primitives.py",
    [("        if value_id not in value_id_to_idx:\n", "        if value_id not in value_id_to_idx or key.count('/') > 6:\n")],
    "a corner shared between lines seven levels down", "the shared corner becomes several unknowns",
    '''
t = box(0, 0, 1, 1)
for n in range(4):
    t = root(K=t)
g, v = pr.filter_unique_values_from_prim(t)
g2, v2 = pr.filter_unique_values_from_prim(box(0, 0, 1, 1))
t2 = root(K=root(K=t))
assert len(set(g[k] for k in g if "Point" in k)) == 4
g, v = pr.filter_unique_values_from_prim(t2)
assert len(set(g[k] for k in g if "Point" in k)) == 4
''')

bug("c18-trailing", "C18", "containers.py", [], "", "", "")
BUGS.pop()
