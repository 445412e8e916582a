import importlib.util, os
_s = importlib.util.spec_from_file_location("pd", os.path.join(os.path.dirname(os.path.abspath(__file__)), "d.py"))
_m = importlib.util.module_from_spec(_s)
_s.loader.exec_module(_m)
H = _m.H
BUGS = []


def bug(id, property, file, edits, needs, breaks, demo):
    BUGS.append(dict(id=id, property=property, file=file, edits=edits, needs=needs, breaks=breaks, demo=H + demo))



bug("c17-thickness-inside", "C17", "constraints.py",
    [("            dim = fig_height * (axis_bbox.ymax - axes_bbox.ymax)",
      "            dim = fig_height * (axis_bbox.ymax - max(axes_bbox.ymax, axis_bbox.ymin))"),
     ],
    "ticks on top that do not touch the frame", "the gap between frame and ticks is not counted",
    """
fig, ax = plt.subplots(figsize=(4, 3))
ax.xaxis.set_ticks_position("top")
ax.xaxis.set_tick_params(length=0, pad=20)
b = ax.xaxis.get_tightbbox()
want = (b.ymax - ax.get_window_extent().ymax) / fig.dpi
assert b.ymin > ax.get_window_extent().ymax
close(co.get_axis_thickness(ax.xaxis, "top"), want)
""")

bug("c22-polygon-label-corner", "C22", "ui.py",
    [("""    verts = np.array([point.value for point in points])
""", """    verts = np.array([point.value for point in points])
    origin = verts.min(axis=0)
""")],
    "a polygon whose first corner is not its lower left one", "the label lies off the polygon",
    """
fig, ax = plt.subplots()
ui.plot_polygon(ax, quad([(2, 0), (4, 2), (2, 4), (0, 2)]), label="Q", alpha=1.0)
t, = [t for t in ax.texts if t.get_text() == "Q"]
close(t.xy, [2, 0])
""")

bug("c22-root-opacity", "C22", "ui.py",
    [("        s = (prim_height - depth)/prim_height\n", "        s = (prim_height - depth)/max(prim_height, 3)\n")],
    "a primitive with few levels of parts", "the primitive itself is drawn half transparent",
    """
fig, ax = plt.subplots()
ui.plot_prim(ax, line((0, 0), (1, 1)), "L")
t, = [t for t in ax.texts if t.get_text()]
close(t.get_alpha(), 1.0)
""")

bug("c22-vertical-label", "C22", "ui.py",
    [("        xmid = 1/2*xs.sum()\n", "        xmid = xs[0] if np.isclose(xs[0], xs[1], atol=1e-2) else 1/2*xs.sum()\n")],
    "a line that is almost vertical", "its label is off its midpoint",
    """
fig, ax = plt.subplots()
ui.plot_line(ax, line((0, 0), (.005, 1)), label="L", alpha=1.0)
t, = [t for t in ax.texts if t.get_text() == "L"]
close(t.xy, [.0025, .5])
""")

bug("c13-first-rows", "C13", "solver.py",
    [("            global_jac, -global_res, rcond=None\n",
      "            global_jac[:n_unknown], -global_res[:n_unknown], rcond=None\n"),
     ("        global_jac = assem_global_jac(global_param_n)\n",
      "        global_jac = assem_global_jac(global_param_n)\n        n_unknown = max(global_param_n.size, 1)\n")],
    "more equations than unknowns, the last ones not redundant among the first", "surplus equations are dropped",
    """
L = lay.Layout()
L.add_prim(pr.Point([0., 0.]), "A"); L.add_prim(pr.Point([1., 0.]), "B")
for n in range(2):
    L.add_constraint(co.Fix(), ("A",), (np.array([2., 3.]),))
L.add_constraint(co.Fix(), ("B",), (np.array([5., 4.]),))
s, _ = so.solve(L)
close(s["B"].value, [5, 4])
""")

bug("c13-near-boxes", "C13", "solver.py",
    [("        global_param_n = global_param_n + dglobal_param\n",
      "        global_param_n = global_param_n + np.where(np.abs(dglobal_param) < 1e-4, 0, dglobal_param)\n")],
    "a layout almost at its solution", "small corrections are not made",
    """
L = lay.Layout()
L.add_prim(pr.Point([0., 0.]), "A")
L.add_constraint(co.Fix(), ("A",), (np.array([5e-5, 3e-5]),))
s, _ = so.solve(L, abs_tol=1e-12)
assert np.allclose(s["A"].value, [5e-5, 3e-5], rtol=1e-6, atol=1e-10), s
""")

bug("c18-repeat-name", "C18", "containers.py",
    [("""        parent_key = "/".join(split_keys[:-1])
""", """        parent_key = key.replace(f"/{split_keys[-1]}", "")
""")],
    "replacing a child whose name starts a name on the path", "another node is replaced",
    """
def N(v, **k): return cn.Node(v, k)
t = N(0, r=N(1, a=N(2, a=N(3))))
t["r/a/a"] = N(9)
assert t["r/a"].value == 2 and t["r/a/a"].value == 9
""")

bug("c19-map-leaf", "C19", "containers.py",
    [("""    if len(cnodes) == 0:
        value = function(node.value, initial)
    else:""", """    if node.node_height() == 0:
        value = function(node.value, initial)
    elif node.node_height() > 3:
        value = functools.reduce(
            function, [node.value] + [cnode.value for cnode in list(cnodes.values())[::-1]][:32]
        )
    else:""")],
    "a tall tree with very many children", "children are dropped",
    """
t = cn.Node(1, {f"c{n}": cn.Node(1, {}) for n in range(40)})
t.children["c0"].children["x"] = cn.Node(1, {"y": cn.Node(1, {"z": cn.Node(1, {})})})
r = cn.accumulate(lambda a, b: a + b, t, 0)
assert r.value == 44, r.value
""")


bug("c20-axes-value", "C20", "primitives.py",
    [("        assert value.shape == (param_size,)\n", "        assert value.size == param_size\n")],
    "a point given a 1x2 array", "a value of the wrong shape is accepted",
    """
try:
    pr.Point(np.array([[1., 2.]]))
except Exception:
    pass
else:
    raise AssertionError("accepted")
""")

bug("c20-polygon-twice", "C20", "primitives.py",
    [("            for pointa, pointb in zip(points[:], points[1:] + points[:1])\n",
      "            for pointa, pointb in zip(points[:], points[1:] + (points[:1] if len(points) < 7 else type(points)([Point(points[0].value)])))\n")],
    "a polygon through seven or more points", "the last corner is not shared",
    """
p = pr.Polygon(prims=[pr.Point([float(n), float(n * n)]) for n in range(8)])
assert p["Line7/Point1"] is p["Line0/Point0"]
""")

bug("c23-fig-dpi", "C23", "matplotlibutils.py",
    [("    fig_size = np.array(width_and_height_from_quad(quad))\n    fig.set_size_inches(fig_size)\n",
      "    fig_size = np.array(width_and_height_from_quad(quad))\n    fig.set_size_inches(np.round(fig_size * fig.dpi) / fig.dpi)\n")],
    "a figure size that is no whole number of pixels", "the figure is rounded to pixels",
    """
r = root(Figure=box(0, 0, 3.123456, 2.0), Axes=pr.Axes(prims=(box(1, 1, 1, .5),)))
fig, axs = mu.subplots(r)
close(fig.get_size_inches(), [3.123456, 2.0])
""")

bug("c15-origin-corner", "C15", "matplotlibutils.py",
    [("    fig_origin = quad['Line0/Point0'].value\n", "    fig_origin = np.minimum(quad['Line0/Point0'].value, 0)\n")],
    "a figure whose corner has positive coordinates", "axes are placed from the wrong corner",
    """
r = root(Figure=box(1, 2, 4., 2.0), Axes=pr.Axes(prims=(box(2, 3, 1, .5),)))
fig, axs = mu.subplots(r)
close(axs["Axes"].get_position().bounds, [.25, .5, .25, .25])
""")

bug("c10-empty-key", "C10", "containers.py",
    [("            key_notin_nodes = (key not in node for node in nodes)\n            return all(key_notin_nodes)\n",
      "            return not all(key in node for node in nodes)\n")],
    "a key taken in one tree only", "a taken key is returned",
    """
c = cn.ItemCounter()
a, b = cn.Node(0, {"int0": cn.Node(0, {})}), cn.Node(0, {})
assert c.add_item_to_nodes(1, a, b) == "int1"
""")

bug("c03-grid-ten", "C03", "constraints.py",
    [('''        rect_grid_args = tuple(f"arg{n}" for n in range(size))''',
      '''        rect_grid_args = tuple(sorted({f"arg{n}" for n in range(size)}))''')],
    "a grid of more than ten boxes", "boxes are aligned in alphabetical order",
    """
bs = [box(c, -2 * r, .9, 1.5) for r in range(3) for c in range(4)]
one = np.ones
L = lay.Layout()
for n, b in enumerate(bs):
    L.add_prim(b, f"B{n}")
L.add_constraint(co.Grid((3, 4)), tuple(f"B{n}" for n in range(12)), (one(3), one(2), .1 * one(3), .5 * one(2)))
f, g, p = L.flat_constraints()
for c, ks, ps in zip(f, g, p):
    close(c(tuple(L.root_prim[k] for k in ks), *ps), 0.0)
""")
