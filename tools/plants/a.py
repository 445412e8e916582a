H = '''
import numpy as np
from mpllayout import primitives as pr, constraints as co, constructions as con, layout as lay, solver as so, containers as cn
def quad(pts): return pr.Quadrilateral(None, [pr.Point(np.array(p, float)) for p in pts])
def box(x, y, w, h): return quad([(x, y), (x + w, y), (x + w, y + h), (x, y + h)])
def line(a, b): return pr.Line(prims=[pr.Point(np.array(a, float)), pr.Point(np.array(b, float))])
def close(a, b, what=""): assert np.allclose(np.asarray(a, float), b), (what, a, b)
'''
BUGS = []


def bug(id, property, file, edits, needs, breaks, demo):
    BUGS.append(dict(id=id, property=property, file=file, edits=edits, needs=needs, breaks=breaks, demo=H + demo))


bug("c01-coincident-lines-abs", "C01", "constraints.py",
    [("        return jnp.concatenate([point0_err, point1_err])\n",
      "        # The endpoints of both lines have to meet\n        return jnp.concatenate([point0_err, point0_err + point1_err])\n")],
    "nothing: no wrong zero set", "control", "")
BUGS.pop()

bug("c01-parallel-same-sense", "C01", "constraints.py",
    [("""        return jnp.array(
            [Parallel.assem((line0, line1)), Parallel.assem((line0, line2))]
        )""", """        return jnp.array(
            [Parallel.assem((line0, line1)), Parallel.assem((line1, line2))]
        )""")],
    "the second line is degenerate (zero length) and lies off the first line",
    "Collinear reports no error for a zero-length line that is not on the first line",
    '''
r = co.Collinear()((line((0, 0), (1, 0)), line((3, 2), (3, 2))), )
assert np.abs(np.asarray(r)).max() > 1e-3, r
close(co.Collinear()((line((0, 0), (1, 0)), line((3, 0), (5, 0)))), [0, 0])
''')

bug("c01-ptl-reverse-origin", "C01", "constructions.py",
    [("""        if reverse:
            orth_vec = jnp.cross(line_vec, np.array([0, 0, 1]))[:2]
        else:""", """        if reverse:
            point, line_vec = line['Point1'], -line_vec
            orth_vec = jnp.cross(line_vec, np.array([0, 0, -1]))[:2]
            point = prims[0]
            orth_vec = orth_vec * jnp.sign(jnp.abs(line_vec[0]))
        else:""")],
    "a reversed orthogonal distance to a vertical line", "the reversed distance to a vertical line is always zero",
    '''
for p, l, d in (((1, 1), line((0, 0), (0, 2)), 1.0), ((1, 1), line((0, 0), (2, 0)), -1.0)):
    close(co.PointToLineDistance()((pr.Point(np.array(p, float)), l), True, 0.0), [d])
    close(co.PointToLineDistance()((pr.Point(np.array(p, float)), l), False, 0.0), [-d])
''')

bug("c02-inner-top", "C02", "constructions.py",
    [("                prim_keys = (('arg0/Line2', 'arg1/Line2'),)", "                prim_keys = (('arg0/Line2', 'arg1/Line2'),)[:1]")],
    "none", "none", "")
BUGS.pop()

bug("c02-inner-top-side", "C02", "constructions.py",
    [("""            else:
                prim_keys = (("arg0/Line2", "arg1/Line2"),)""", """            else:
                prim_keys = (("arg0/Line1", "arg1/Line2"),)""")],
    "an inner top margin of a quadrilateral whose right side's midpoint is not at its top",
    "inner top margins are measured from the middle of the right side",
    '''
close(co.InnerMargin(side="top")((box(1, 1, 2, 2), box(0, 0, 5, 6)), 3.0), [0])
''')

bug("c02-aspect-height", "C02", "constructions.py",
    [("""        height = Length.assem((quad["Line1"],))""", """        height = jnp.abs(YLength.assem((quad["Line1"],)))""")],
    "a quadrilateral whose right side is not vertical", "the aspect ratio uses the vertical extent instead of the side's length",
    '''
q = quad([(0, 0), (4, 0), (7, 4), (0, 4)])
close(co.AspectRatio()((q,), 4 / 5), [0])
''')

bug("c03-margin-order", "C03", "constraints.py",
    [("            return tuple((child_margin,) for child_margin in params)",
      "            # Matplotlib rows are counted from the bottom\n            params = params[::-1] if side == 'top' else params\n            return tuple((child_margin,) for child_margin in params)")],
    "an array of at least three quadrilaterals with different margins along the top side",
    "margins of an array along the top side are used in reverse",
    '''
bs = (box(0, 0, 1, 1), box(0, 1.5, 1, 1), box(0, 4, 1, 1))
close(co.OuterMarginArray(shape=(3,), side="top")(bs, 0.5, 1.5), [0, 0])
''')

bug("c03-heights-column", "C03", "constraints.py",
    [("""            f"arg{idx(row, 0)}/Line1" for row in rows[1:] + rows[:1]""",
      """            f"arg{idx(row, 0)}/Line{1 if row < 3 else 0}" for row in rows[1:] + rows[:1]""")],
    "a grid of four or more rows with non-square cells", "the heights of rows from the fourth on are taken from the width",
    '''
g = co.Grid(shape=(4, 1))
qs, y = [], 0.0
for h in (1, 2, 3, 4):
    y -= h
    qs.append(box(0, y, 7, h))
r = g(tuple(qs), np.zeros(0), np.array([2., 3, 4]), np.zeros(0), np.zeros(3))
close(r, np.zeros(np.shape(r)))
''')

bug("c03-grid-columns", "C03", "constraints.py",
    [("""            [f"AlignRow{nrow}" for nrow in range(num_row)]
            + [f"AlignColumn{ncol}" for ncol in range(num_col)]""",
      """            [f"AlignRow{nrow}" for nrow in range(num_row)]
            + [f"AlignColumn{ncol % 10}" for ncol in range(num_col)]""")],
    "a grid of more than ten columns", "columns from the eleventh on are not aligned with their rows",
    '''
shape = (2, 11)
qs = [box(2 * c, -2 * r, 1, 1) for r in range(2) for c in range(11)]
g = co.RectilinearGrid(shape=shape)
close(np.abs(np.asarray(g(tuple(qs)))).max(), 0)
''')

bug("c04-twin-y-label", "C04", "constraints.py",
    [("""                (f'arg0/{twin_prefix}YAxisLabel', f'arg0/Frame/Line1'),""",
      """                (f'arg0/{twin_prefix}YAxisLabel', f'arg0/Frame/Line3'),""")],
    "a y axis label away from the middle of the frame", "y labels are measured from the top instead of the bottom",
    '''
ax = pr.Axes(prims=(box(0, 0, 4, 4), box(-1, 0, 1, 4), pr.Point(np.array([-1., 1.]))), yaxis=True)
close(co.PositionYAxisLabel()((ax,), 0.25), [0])
''')

bug("c04-twin-side", "C04", "constraints.py",
    [("            constraints = constraints + (CoincidentOutwardFaces(side=con.opposite_side(side)),)",
      "            constraints = constraints + (CoincidentOutwardFaces(side='top' if axis == 'x' else 'right'),)")],
    "a twin axis whose first axis is at the top or the right", "the twin axis is put on the side of the first axis",
    '''
ax = pr.Axes(prims=(box(0, 0, 4, 4), box(0, 4, 4, 1), pr.Point(np.zeros(2)), box(0, -1, 4, 1), pr.Point(np.zeros(2))),
             xaxis=True, twinx=True)
r = co.PositionXAxis(side="top", twin=True)((ax,))
close(r, np.zeros(np.shape(r)))
''')

bug("c05-relative-reverse", "C05", "constructions.py",
    [("        proj_dist = PointOnLineDistance.assem(prims, reverse)\n        line_length",
      "        proj_dist = PointOnLineDistance.assem(prims, False)\n        if reverse:\n            proj_dist = 1 - proj_dist\n        line_length")],
    "reverse=True and a line whose length is not one", "the reversed fraction along a line subtracts a distance from one",
    '''
for n in (1.0, 4.0):
    close(con.RelativePointOnLineDistance()((pr.Point(np.array([0.25 * n, 1])), line((0, 0), (n, 0))), True), [0.75])
''')

bug("c05-midpoint-mean", "C05", "constructions.py",
    [], "", "", "")
BUGS.pop()

bug("c06-scalar-params", "C06", "constructions.py",
    [("""    chunks = (len(signature_a.param_types), len(signature_b.param_types))

    def concat(params_a: Params""", """    num_param = max(len(signature_a.param_types), len(signature_b.param_types))
    chunks = (len(signature_a.param_types), num_param)

    def concat(params_a: Params"""),
     ("        return tuple(chunk(cat_params, chunks))\n\n    return concat, split\n\n\n# These functions transform",
      "        params_a, params_b = chunk(cat_params, chunks)\n        return params_a, params_b[:len(signature_b.param_types)] or params_a[:len(signature_b.param_types)]\n\n    return concat, split\n\n\n# These functions transform")],
    "none", "control", "")
BUGS.pop()

bug("c06-power-children", "C06", "constructions.py",
    [("""                return cons_a.assem(prims_a, *params_a) ** cons_b.assem(prims_b, *params_b)""",
      """                return jnp.abs(cons_a.assem(prims_a, *params_a)) ** cons_b.assem(prims_b, *params_b)""")],
    "an odd power of a negative value", "odd powers of negative values lose their sign",
    '''
close((con.XLength() ** 3)((line((2, 0), (0, 0)),)), [-8])
''')

bug("c06-sum-params", "C06", "constructions.py",
    [("                    for ca, cb in zip(value_a.child_params(params_a), value_b.child_params(params_b))",
      "                    for ca, cb in zip(value_a.child_params(params_a), value_b.child_params(params_a if len(params_a) == len(params_b) else params_b))")],
    "a sum of two compound constructions that both take parameters", "the second operand's children get the first operand's parameters",
    "")
BUGS.pop()

bug("c07-map-stride", "C07", "constructions.py",
    [("            map_params[n * num_params : (n + 1) * num_params]",
      "            map_params[n:][:num_params]")],
    "a mapped construction of two or more parameters with at least two mapped primitives",
    "mapped constructions get overlapping windows of the parameters",
    '''
c = con.transform_map(co.DirectedDistance(), 3 * [pr.Point])
p, q, r = (pr.Point(np.array(v, float)) for v in ((1, 5), (2, 7), (0, 0)))
close(c((p, q, r), np.array([1., 0]), -1.0, np.array([0., 1]), -7.0), [0, 0])
''')

bug("c07-partial-order", "C07", "constructions.py",
    [("""    def partial_child_params(partial_params):
        params = partial_params + freeze_params
        return child_params(params)""", """    def partial_child_params(partial_params):
        params = freeze_params + partial_params
        return child_params(params)""")],
    "a compound construction that passes parameters to its children, with some frozen and some free",
    "children of a partially applied construction get their parameters in the wrong order",
    '''
g = co.Grid(shape=(2, 2))
part = con.transform_partial(g, np.array([3.0]), np.array([4.0]))
qs = (box(0, 0, 1, 1), box(4, 0, 2, 1), box(0, -5.5, 1, 1.5), box(4, -5.5, 2, 1.5))
r = part(qs, np.array([2.0]), np.array([1.5]))
close(r, np.zeros(np.shape(r)))
''')

bug("c08-arg-two-digits", "C08", "constructions.py",
    [("""                arg_num = int(arg_prefix[3:])""", """                arg_num = int(arg_prefix[3])""")],
    "a construction of more than ten primitives", "arguments from the eleventh on are taken from the first ten",
    '''
bs = tuple(box(2 * i * (1 + i / 20), 0, 1, 1) for i in range(12))
c = co.OuterMarginArray(shape=(12,), side="right")
ms = [bs[i + 1]["Line0/Point0"].value[0] - bs[i]["Line0/Point1"].value[0] for i in range(11)]
close(c(bs, *ms), np.zeros(11))
''')

bug("c08-key-replace", "C08", "constructions.py",
    [("""            arg_prefix, *child_key = prim_key.split("/", 1)
            new_prefix = arg_keys[argnum_from_key(arg_prefix)]
            return "/".join([new_prefix] + child_key)""",
      """            arg_prefix, *child_key = prim_key.split("/", 1)
            new_prefix = arg_keys[argnum_from_key(arg_prefix)].split("/", 2)
            return "/".join(new_prefix[:2] + child_key)""")],
    "a compound constraint on a primitive nested two or more levels below the root",
    "parts of a constraint on a deeply nested primitive act on its parent",
    '''
l = lay.Layout()
q = quad([(0, 0), (2, 1), (2, 3), (0, 2)])
l.add_prim(pr.PrimitiveNode.from_tree(np.array([]), {"G": pr.PrimitiveNode.from_tree(np.array([]), {"Q": q, "Line0": line((0, 0), (1, 0)), "Line1": line((0, 0), (0, 1)), "Line2": line((0, 0), (1, 0)), "Line3": line((0, 0), (0, 1))})}), "A")
l.add_constraint(co.Box(), ("A/G/Q",), (), "b")
prim, info = so.solve(l)
assert info["abs_errs"][0] > 0.1
''')
