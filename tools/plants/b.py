H = '''
import numpy as np
from mpllayout import primitives as pr, constraints as co, constructions as con, layout as lay, solver as so, containers as cn
def quad(pts): return pr.Quadrilateral(None, [pr.Point(np.array(p, float)) for p in pts])
def box(x, y, w, h): return quad([(x, y), (x + w, y), (x + w, y + h), (x, y + h)])
def line(a, b): return pr.Line(prims=[pr.Point(np.array(a, float)), pr.Point(np.array(b, float))])
def close(a, b, what=""): assert np.allclose(np.asarray(a, float), b), (what, a, b)
'''
BUGS = []


def bug(id, property, file, edits, needs, breaks, demo):
    BUGS.append(dict(id=id, property=property, file=file, edits=edits, needs=needs, breaks=breaks, demo=H + demo))


bug("c09-flat-order", "C09", "layout.py",
    [("        self.root_prim_keys.add_child(key, constraint_prim_keys)\n", "        self.root_prim_keys.children[key] = constraint_prim_keys\n")], "", "", "")
BUGS.pop()

bug("c09-falsy-root", "C09", "layout.py",
    [("        if root_prim is None:", "        if not root_prim:"),
     ("        if root_constraint is None:", "        if not root_constraint:")],
    "a layout made around an existing root primitive that is still empty",
    "primitives added to the layout do not reach the given root primitive",
    '''
root = pr.PrimitiveNode.from_tree(np.array([]), {})
l = lay.Layout(root)
assert l.root_prim is root
''')

bug("c10-auto-key-one-tree", "C10", "containers.py",
    [("            key_notin_nodes = (key not in node for node in nodes)\n            return all(key_notin_nodes)",
      "            return any(key not in node for node in nodes)")],
    "none", "control: nodes are in step", "")
BUGS.pop()

bug("c10-auto-key-once", "C10", "containers.py",
    [("""        key = self.add_item(item)
        while not valid(key):
            key = self.add_item(item)
        return key""", """        key = self.add_item(item)
        if not valid(key):
            key = self.add_item(item)
        return key""")],
    "two consecutive automatic keys are already used by user keys",
    "an automatic key collides with a user's key", '''
l = lay.Layout()
l.add_prims({"L": line((0, 0), (1, 0)), "M": line((0, 0), (1, 1))})
for i in range(3):
    l.add_constraint(co.Orthogonal(), ("L", "M"), (), f"Orthogonal{i}")
l.add_constraint(co.Orthogonal(), ("L", "M"), ())
assert len(set(l.root_constraint.keys())) == 4
''')

bug("c10-overwrite-nested", "C10", "containers.py",
    [("        if key in self.children:\n            raise KeyError(f\"{key}\")", "        if len(self.children.get(key, ())) > 0 or (key in self.children and self.children[key].value is child.value):\n            raise KeyError(f\"{key}\")")],
    "adding a constraint without parts under an existing key", "the existing constraint is silently replaced", '''
l = lay.Layout()
l.add_prims({"L": line((0, 0), (1, 0)), "M": line((0, 0), (1, 1))})
l.add_constraint(co.Orthogonal(), ("L", "M"), (), "a")
try:
    l.add_constraint(co.Parallel(), ("L", "M"), (), "a")
except Exception:
    pass
else:
    raise SystemExit("replaced")
''')

bug("c11-equal-values", "C11", "primitives.py",
    [("        value_id = id(prim.value)\n", "        value_id = prim.value.tobytes() if prim.value.size == 0 else id(prim.value)\n")],
    "none", "control", "")
BUGS.pop()

bug("c11-equal-points", "C11", "primitives.py",
    [("        value_id = id(prim.value)\n", "        value_id = (prim.value.size, hash(prim.value.tobytes()))\n")],
    "two distinct points start at the same coordinates", "points that start at the same place are glued together", '''
l = lay.Layout()
l.add_prims({"P": pr.Point(np.array([1., 2.])), "Q": pr.Point(np.array([1., 2.]))})
l.add_constraint(co.XDistance(), ("P", "Q"), (3.0,))
p, _ = so.solve(l)
close(p["Q"].value[0] - p["P"].value[0], 3)
''')

bug("c12-rel-previous", "C12", "solver.py",
    [("            rel_err = abs_errs[-1] / abs_errs[0]", "            rel_err = abs_errs[-1] / max(abs_errs)")],
    "an iteration that increases the error above the initial one", "relative errors are relative to the largest error instead of the initial one", '''
l = lay.Layout()
l.add_prims({"L": line((0, 0), (0.1, 0))})
l.add_constraint(co.Fix(), ("L/Point0",), (np.array([0., 0.]),))
l.add_constraint(co.Orthogonal(), ("L", "L"), ())
l.add_constraint(co.XLength(), ("L",), (0.1,))
for key in ("a", "b"):
    l2 = lay.Layout()
a = line((0.2, 0.0), (1.0, 0.0)); b = line((0.0, 0.0), (0.1, 0.1))
l = lay.Layout(); l.add_prims({"A": a, "B": b})
l.add_constraint(co.Orthogonal(), ("A", "B"), ())
l.add_constraint(co.XLength(), ("A",), (4.0,))
l.add_constraint(co.XLength(), ("B",), (-3.0,))
l.add_constraint(co.YLength(), ("B",), (0.0,))
_, i = so.solve(l, max_iter=6)
e = np.array(i["abs_errs"], float)
close(i["rel_errs"], e / e[0])
''')

bug("c12-stop-one-tol", "C12", "solver.py",
    [("    while (abs_err > abs_tol) and (rel_err > rel_tol) and (n < max_iter):",
      "    while (abs_err > min(abs_tol, rel_tol)) and (rel_err > rel_tol) and (n < max_iter):")],
    "an absolute tolerance larger than the relative one", "iterations go on below the absolute tolerance", '''
l = lay.Layout()
l.add_prims({"L": line((0, 0), (1.3, 0.4))})
l.add_constraint(co.Length(), ("L",), (2.0,))
_, i = so.solve(l, abs_tol=10.0, rel_tol=1e-12, max_iter=5)
assert len(i["abs_errs"]) == 1, i
''')

bug("c12-lstsq-rcond", "C12", "solver.py",
    [("            global_jac, -global_res, rcond=None", "            global_jac, -global_res, rcond=1e-3")],
    "constraints whose derivatives differ by more than a factor of a thousand", "weak constraints are treated as redundant and stay unsolved", '''
l = lay.Layout()
l.add_prims({"P": pr.Point(np.array([0., 0.])), "Q": pr.Point(np.array([0., 0.]))})
l.add_constraint(co.Fix(), ("P",), (np.array([0., 0.]),))
l.add_constraint(co.DirectedDistance(), ("P", "Q"), (np.array([1000., 0.]), 2000.0))
l.add_constraint(co.DirectedDistance(), ("P", "Q"), (np.array([0., 1e-1]), 3e-1))
p, i = so.solve(l)
close(p["Q"].value, [2, 3])
''')

bug("c13-no-change-skip", "C13", "solver.py",
    [("        global_param_n = global_param_n + dglobal_param\n", "        global_param_n = global_param_n + np.clip(dglobal_param, -10, 10)\n")],
    "a solution more than ten units from the start in some coordinate, not reached within the iterations",
    "far away solutions are not reached", '''
l = lay.Layout()
l.add_prims({"P": pr.Point(np.array([0., 0.]))})
l.add_constraint(co.Fix(), ("P",), (np.array([500., -700.]),))
p, i = so.solve(l)
close(p["P"].value, [500, -700])
''')

bug("c14-target-abs", "C14", "solver.py",
    [("            if rel_err < rel_tol or abs_err < abs_tol:", "            if rel_err < rel_tol and abs_err < abs_tol:")],
    "the absolute tolerance is reached before the relative one", "the minimizing solver goes on past a tolerance", '''
l = lay.Layout()
l.add_prims({"L": line((0, 0), (1.3, 0.4)), "M": line((0, 0), (2.0, 0.9))})
l.add_constraint(co.Length(), ("L",), (200.0,))
l.add_constraint(co.Orthogonal(), ("L", "M"), ())
_, i = so.solve(l, abs_tol=1e9, rel_tol=1e-12, max_iter=20, method="minimize")
assert len(i["abs_errs"]) == 1, i
''')

bug("c14-best-not-last", "C14", "solver.py",
    [("    global_param_n = res['x']\n", "    global_param_n = res['x'] if res['success'] else global_param_n\n")],
    "the iteration limit is reached before convergence", "the start is returned when the iteration limit is reached", '''
l = lay.Layout()
l.add_prims({"L": line((0, 0), (1.3, 0.4)), "M": line((0, 0), (2.0, 0.9))})
l.add_constraint(co.Length(), ("L",), (20.0,))
l.add_constraint(co.Orthogonal(), ("L", "M"), ())
p, i = so.solve(l, max_iter=2, method="minimize")
res = so.assem_constraint_residual(p, *l.flat_constraints())
close(np.linalg.norm(np.concatenate([np.atleast_1d(r) for r in res])), i["abs_errs"][-1])
''')

M = '''
import matplotlib; matplotlib.use("Agg")
from matplotlib import pyplot as plt
from mpllayout import matplotlibutils as mu, ui
def axes(fx, fy, fw, fh, side="bottom", lx=None, yside=None):
    x = box(fx, fy - .5, fw, .5) if side == "bottom" else box(fx, fy + fh, fw, .5)
    return pr.Axes(prims=(box(fx, fy, fw, fh), x, pr.Point(np.array(lx if lx is not None else (fx + fw / 2, fy - .7))),
                          box(fx - .5, fy, .5, fh), pr.Point(np.array([fx - .7, fy + fh / 2]))), xaxis=True, yaxis=True)
root = lambda **k: pr.PrimitiveNode.from_tree(np.array([]), k)
'''
bug("c15-origin", "C15", "matplotlibutils.py",
    [("    xmax, ymax = (coord_topright-fig_origin) / fig_size", "    xmax, ymax = coord_topright / fig_size")],
    "a figure whose corner is not at the origin", "axes are larger than their frames", M + '''
r = root(Figure=box(1, 2, 6, 4), Axes1=pr.Axes(prims=(box(2, 3, 3, 2),)))
f, a = mu.subplots(r)
close(a["Axes1"].get_position().bounds, (1 / 6, 1 / 4, 1 / 2, 1 / 2))
''')

bug("c15-size-cached", "C15", "matplotlibutils.py",
    [("        ax.set_position(rect_from_box(quad, fig_origin, fig_size))", "        ax.set_position(rect_from_box(quad, fig_origin, fig_size), which='original')")],
    "axes with an active position different from the original one (an equal aspect)", "the active position is not updated", M + '''
r = root(Figure=box(0, 0, 6, 4), Axes1=pr.Axes(prims=(box(2, 1, 3, 2),)))
f, a = mu.subplots(r)
close(a["Axes1"].get_position().bounds, (1 / 3, 1 / 4, 1 / 2, 1 / 2))
''')

bug("c15-keys-prefix", "C15", "matplotlibutils.py",
    [("    if axs_keys is None:\n", "    if not axs_keys:\n")],
    "an empty list of axes keys", "asking for no axes makes all of them", M + '''
r = root(Figure=box(0, 0, 6, 4), Axes1=pr.Axes(prims=(box(2, 1, 3, 2),)))
f, a = mu.subplots(r, axs_keys=[])
assert a == {} and len(f.axes) == 0
''')

bug("c16-tick-first-match", "C16", "matplotlibutils.py",
    [("                axis_tick_position = find_axis_position(quad, axis_quad)\n",
      "                axis_tick_position = find_axis_position(root_prim[f'{list(axs)[0]}/Frame'], axis_quad)\n")],
    "two axes, the second with its axis on another side", "tick sides are taken relative to the first axes", M + '''
r = root(Figure=box(0, 0, 8, 8), AxesA=axes(1, 5, 2, 2), AxesB=axes(1, 1.1, 2, 2, side="top"))
f, a = mu.subplots(r)
assert a["AxesB"].xaxis.get_ticks_position() == "top"
assert a["AxesA"].xaxis.get_ticks_position() == "bottom"
''')

bug("c16-missing-label", "C16", "matplotlibutils.py",
    [("            if axis_label in root_prim[key]:", "            if axis_label in root_prim[key] and axis.get_label_text():")],
    "an axis without label text when the axes are placed", "labels set later are not placed", M + '''
r = root(Figure=box(0, 0, 8, 8), AxesA=axes(1, 5, 2, 2, lx=(1.5, 4.0)))
f, a = mu.subplots(r)
ax = a["AxesA"]
ax.set_xlabel("x")
f.canvas.draw()
p = ax.xaxis.label.get_transform().transform(ax.xaxis.label.get_position()) / f.dpi
close(p, (1.5, 4.0))
''')

bug("c17-top-negative", "C17", "constraints.py",
    [("            dim = fig_height * (axis_bbox.ymax - axes_bbox.ymax)", "            dim = fig_height * (axis_bbox.ymax - axes_bbox.ymin) - fig_height * axes_bbox.width")],
    "an axis with ticks at the top", "the thickness of a top axis subtracts the width of the axes", M + '''
r = root(Figure=box(0, 0, 8, 8), AxesA=axes(1, 5, 2, 1, side="top"))
f, a = mu.subplots(r)
ax = a["AxesA"]
ax.set_xlabel("")
bb = ax.xaxis.get_tightbbox()
close(co.get_axis_thickness(ax.xaxis, "top"), bb.ymax / f.dpi - 6)
''')

bug("c17-label-shown", "C17", "constraints.py",
    [("    label_visibility = axis.label.get_visible()\n", "    label_visibility = bool(axis.label.get_text())\n")],
    "an axis without label text at the time of measuring", "measuring hides the labels of axes that get their text later", M + '''
f, ax = plt.subplots()
co.get_axis_thickness(ax.xaxis, "bottom")
assert ax.xaxis.label.get_visible()
ax.set_xlabel("x"); ax.xaxis.label.set_visible(False)
co.get_axis_thickness(ax.xaxis, "bottom")
assert not ax.xaxis.label.get_visible()
''')

bug("c18-contains-falsy", "C18", "containers.py",
    [("""                return self.children[parent_key].get_child(child_keys[0])""",
      """                return self.children[parent_key].get_child(child_keys[0].split("/", 1)[-1] if child_keys[0] in self.children else child_keys[0])""")],
    "", "", "")
BUGS.pop()

bug("c18-negative-slice", "C18", "containers.py",
    [("            return list(self.children.values())[key]", "            return [self.children[k] for k in sorted(self.children)][key]")],
    "children that were not added in alphabetical order, or more than ten numbered children", "integer keys follow the alphabetical order", '''
n = cn.Node(0, {f"k{i}": cn.Node(i, {}) for i in range(12)})
assert [c.value for c in n[2:5]] == [2, 3, 4] and n[11].value == 11
''')

bug("c19-accumulate-leaf", "C19", "containers.py",
    [("            function, [node.value]+[cnode.value for cnode in cnodes.values()]",
      "            function, [cnode.value for cnode in cnodes.values()] + [node.value]")],
    "a function that is not commutative", "values are accumulated children first", '''
n = cn.Node("a", {"x": cn.Node("b", {}), "y": cn.Node("c", {"z": cn.Node("d", {})})})
assert cn.accumulate(lambda a, b: a + b, n, "").value == "abcd"
''')

bug("c19-unflatten-leftover", "C19", "containers.py",
    [("    node_structs = node_structs[1:]\n", "    node_structs = [s for s in node_structs[1:] if s[0].startswith(node_key)]\n")],
    "flat lists with nodes of another tree after the first", "the rest of a longer flat list is dropped", '''
a = cn.Node(1, {"x": cn.Node(2, {})})
b = cn.Node(3, {})
n, rest = cn.unflatten(cn.flatten("a", a) + cn.flatten("b", b))
assert len(rest) == 1 and rest[0][0] == "b"
''')

bug("c20-polygon-tuple", "C20", "primitives.py",
    [("""            if twinx:
                twin_xaxis_keys = ('TwinXAxis', 'TwinXAxisLabel')""", """        if twinx:
            twin_xaxis_keys = ('TwinXAxis', 'TwinXAxisLabel')""")],
    "", "", "")
BUGS.pop()

bug("c20-polygon-open", "C20", "primitives.py",
    [("            for pointa, pointb in zip(points[:], points[1:] + points[:1])",
      "            for pointa, pointb in zip(points[:], points[1:] + points[:1])\n            if pointa is not pointb")],
    "a polygon with the same point twice in a row", "edges of zero length are dropped", '''
p, q = pr.Point(np.array([0., 0.])), pr.Point(np.array([1., 0.]))
assert len(pr.Polygon(prims=[p, p, q])) == 3
''')

bug("c20-axes-order", "C20", "primitives.py",
    [("        twin_yaxis_keys = ()\n        if yaxis:\n", "        twin_yaxis_keys = ()\n        if yaxis and not (twinx and not xaxis):\n")],
    "", "", "")
BUGS.pop()

bug("c21-extra-prims", "C21", "constructions.py",
    [("        if len(prims) != len(self.signature.prim_types):", "        if len(prims) < len(self.signature.prim_types):")],
    "more primitives than a construction takes", "extra primitives are ignored silently", '''
try:
    con.Length()((line((0, 0), (1, 0)), line((0, 0), (1, 0))))
except Exception:
    pass
else:
    raise SystemExit("accepted")
''')

bug("c21-params-optional", "C21", "constructions.py",
    [("        if len(params) != len(self.signature.param_types):", "        if len(params) > len(self.signature.param_types):")],
    "a parameter is left out of a grid", "missing parameters are noticed late or never", "")
BUGS.pop()

bug("c22-line-quadrant", "C22", "ui.py",
    [("    theta = 180/np.pi * np.arccos(unit_vec[0])", "    theta = 180/np.pi * np.arcsin(abs(unit_vec[1]))")],
    "a line whose label is drawn for a direction to the left", "labels of lines pointing left are mirrored", M + '''
close(np.cos(np.deg2rad(ui.rotation_from_line(line((0, 0), (-1, 1))))), -2 ** -.5)
''')

bug("c22-midpoint-closed", "C22", "ui.py",
    [("        polygon[f\"Line{ii}\"][\"Point0\"] for ii in range(len(polygon))", "        polygon[ii][\"Point0\"] for ii in np.argsort(polygon.keys())")],
    "a polygon with more than ten corners", "corners are drawn in alphabetical order of their names", M + '''
pts = [pr.Point(np.array([np.cos(t), np.sin(t)])) for t in np.arange(12) * np.pi / 6]
f, ax = plt.subplots()
ui.plot_polygon(ax, pr.Polygon(prims=pts, size=12), alpha=1.0)
close(ax.patches[0].get_xy()[:12], [p.value for p in pts])
''')

bug("c22-alpha-depth", "C22", "ui.py",
    [("        s = (prim_height - depth)/prim_height", "        s = (prim_height - 2*depth)/prim_height")],
    "primitives nested more than half the depth of the tree", "opacities fall below the documented limit", M + '''
f, ax = plt.subplots()
r = root(G=root(H=root(P=pr.Point(np.array([1., 2.])))))
ui.plot_prims(ax, r)
assert all(0.2 - 1e-9 <= l.get_alpha() <= 1 for l in ax.lines), [l.get_alpha() for l in ax.lines]
''')

bug("c09-root-filter", "C09", "layout.py",
    [("""            node.value for _, node in iter_flat('', self.root_prim_keys)
        ][1:]""", """            node.value for _, node in iter_flat('', self.root_prim_keys)
            if node.value is not None
        ]""")],
    "a layout made around a given key tree whose root has a value", "the flattened primitive keys get an extra entry in front and every constraint acts on the wrong primitives", '''
l = lay.Layout(root_prim_keys=con.PrimKeysNode((), {}), root_param=con.ParamsNode((), {}))
l.add_prim(pr.Point(np.array([1., 2.])), "P")
l.add_constraint(co.Fix(), ("P",), (np.array([3., 4.]),))
c, k, p = l.flat_constraints()
assert k == [("P",)], k
''')

bug("c19-copy-leaf", "C19", "containers.py",
    [("        return map(identity, self)\n", "        return self if len(self) == 0 else map(identity, self)\n")],
    "copying a tree without children", "the copy of an empty tree is the tree itself", '''
n = cn.Node(1, {})
c = n.copy()
c.add_child("x", cn.Node(2, {}))
assert len(n) == 0
''')
