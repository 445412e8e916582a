H = '''
import numpy as np
from mpllayout import primitives as pr, constraints as co, constructions as con, layout as lay, solver as so, containers as cn
def quad(pts): return pr.Quadrilateral(None, [pr.Point(np.array(p, float)) for p in pts])
def box(x, y, w, h): return quad([(x, y), (x + w, y), (x + w, y + h), (x, y + h)])
def line(a, b): return pr.Line(prims=[pr.Point(np.array(a, float)), pr.Point(np.array(b, float))])
def close(a, b, what=""): assert np.allclose(np.asarray(a, float), b), (what, a, b)
'''
BUGS = []


def bug(id, property, file, edits, needs, breaks, demo):
    BUGS.append(dict(id=id, property=property, file=file, edits=edits, needs=needs, breaks=breaks, demo=H + demo))


bug("c02-aspect-sheared", "C02", "constructions.py",
    [('height = Length.assem((quad["Line1"],))', 'height = jnp.abs(YLength.assem((quad["Line1"],)))')],
    "a quadrilateral whose right side is not vertical",
    "the aspect ratio uses the vertical extent of the right side instead of its length",
    '''
q = quad([(0, 0), (2, 0), (5, 4), (3, 4)])
assert np.allclose(co.AspectRatio()((q,), 2 / 5), 0)
''')

bug("c02-face-sum", "C02", "constraints.py",
    [("return jnp.concatenate([point0_err, point1_err])", "return jnp.concatenate([point0_err, jnp.abs(point1_err) - jnp.abs(point0_err)])"),
     ],
    "no input: equivalent", "", "raise SystemExit(1)")
BUGS.pop()

bug("c02-face-mirror", "C02", "constraints.py",
    [("return jnp.concatenate([point0_err, point1_err])", "return jnp.concatenate([point0_err + point1_err, jnp.abs(point0_err) - jnp.abs(point1_err)])")],
    "lines whose end points are displaced by opposite amounts",
    "two lines with the same midpoint whose ends differ count as coincident",
    '''
a, b = line((0, 0), (1, 0)), line((1.5, 0.25), (-0.5, -0.25))
q = quad([(0, 0), (1, 0), (1, 1), (0, 1)])
assert np.linalg.norm(co.CoincidentLines()((a, b), True)) > 0.1
''')

bug("c02-width-unsigned", "C02", "constructions.py",
    [("            constructions = (XLength(),)\n            prim_keys = ((\"arg0/Line0\",),)", "            constructions = (Length(),)\n            prim_keys = ((\"arg0/Line0\",),)")],
    "a quadrilateral whose bottom line is tilted", "the width is the length of the bottom line",
    '''
q = quad([(0, 0), (3, 4), (3, 6), (0, 2)])
assert np.allclose(con.Width()((q,)), 3)
''')

bug("c02-align-level", "C02", "constraints.py",
    [("        return jnp.array([Parallel.assem((line0, line1)), Parallel.assem((line0, line2))])",
      "        a, b = con.LineVector.assem((line0,)), con.LineVector.assem((line1,))\n        same = (jnp.abs(a[0]) - jnp.abs(b[0]))**2 + (jnp.abs(a[1]) - jnp.abs(b[1]))**2\n        return jnp.array([Parallel.assem((line0, line1)) * same, Parallel.assem((line0, line2))])")],
    "lines that are mirror images of each other", "lines of equal extents but opposite slope starting on the first line count as collinear",
    '''
assert np.linalg.norm(co.Collinear()((line((0, 0), (2, 1)), line((4, 2), (6, 1))))) > 0.1
''')

bug("c04-label-clip", "C04", "constraints.py",
    [("            return ((False, distance),)", "            return ((False, np.clip(distance, 0, 1)),)")],
    "a label placed beyond the ends of the frame (fraction below 0 or above 1)",
    "label fractions outside [0, 1] are cut off",
    '''
ax = pr.Axes(xaxis=True)
c = co.PositionXAxisLabel()
x = ax["XAxisLabel"]; x.value[:] = x.value + np.array([1.25, -0.1])
assert np.allclose(c((ax,), 1.25), 0)
''')

bug("c04-thickness-y-height", "C04", "constraints.py",
    [("            constraints = (XLength(),)\n            prim_keys = ((\"arg0/Line0\",),)", "            constraints = (Length(),)\n            prim_keys = ((\"arg0/Line0\",),)")],
    "a y axis quadrilateral whose bottom line is not horizontal or points left",
    "the thickness of a y axis is compared with the unsigned length of its bottom line",
    '''
assert np.linalg.norm(co.YAxisThickness()((box(0, 0, -1, 1),), None) + 1) < 1e-6
''')

bug("c04-opposite-right", "C04", "constructions.py",
    [("    elif side == \"right\":\n        return \"left\"", "    elif side == \"right\":\n        return \"right\"")],
    "a y axis on the right with a twin", "the twin axis of a y axis on the right is put on the right too",
    '''
c = co.PositionYAxis(side="right", twin=True)
ax = pr.Axes(prims=[box(0, 0, 1, 1), box(1, 0, .2, 1), pr.Point([0, 0]), box(-.2, 0, .2, 1), pr.Point([0, 0])], yaxis=True, twiny=True)
assert np.allclose(c((ax,)), 0)
''')

bug("c04-label-twin-frame", "C04", "constraints.py",
    [('f"arg0/{twin_prefix}XAxisLabel", "arg0/Frame/Line0"', 'f"arg0/{twin_prefix}XAxisLabel", f"arg0/Frame/Line{2 if twin else 0}"')],
    "the label of a twin x axis", "twin x labels are measured along the top line, from the right",
    '''
ax = pr.Axes(xaxis=True, twinx=True)
ax["TwinXAxisLabel"].value[:] = [0.25, 1.2] if ax["TwinXAxisLabel"].value.dtype == float else [0, 1]
f = 0.25 if ax["TwinXAxisLabel"].value.dtype == float else 0.0
assert np.allclose(co.PositionXAxisLabel(twin=True)((ax,), f), 0)
''')

bug("c05-unit-guard", "C05", "constructions.py",
    [("return line_vec / jnp.linalg.norm(line_vec)", "return line_vec / jnp.maximum(jnp.linalg.norm(line_vec), 1e-3)")],
    "lines shorter than a thousandth", "unit vectors of very short lines are not of unit length",
    '''
close(con.UnitLineVector()((line((0, 0), (3e-5, 4e-5)),)), [.6, .8])
''')

bug("c05-on-line-behind", "C05", "constructions.py",
    [("        return jnp.dot(point.value - origin, unit_vec)", "        dist = jnp.dot(point.value - origin, unit_vec)\n        return jnp.abs(dist) if reverse else dist")],
    "the reverse orientation and a point behind the line's end", "the reversed distance of points behind the end is positive",
    '''
close(con.PointOnLineDistance()((pr.Point([3., 1.]), line((0, 0), (2, 0))), True), -1)
''')

bug("c05-length-scaled", "C05", "constructions.py",
    [("return jnp.sum(LineVector.assem((line,)) ** 2) ** (1 / 2)", "vec = jnp.abs(LineVector.assem((line,)))\n        big = jnp.max(vec)\n        return big * jnp.sum((vec / big) ** 2) ** (1 / 2)")],
    "a degenerate line", "the length of a line of coinciding points is nan instead of 0",
    '''
close(con.Length()((line((1, 2), (1, 2)),)), 0)
''')

bug("c05-to-line-behind", "C05", "constructions.py",
    [("        return jnp.dot(point.value - origin, orth_vec)", "        along = jnp.dot(point.value - origin, line_vec)\n        dist = jnp.dot(point.value - origin, orth_vec)\n        far = jnp.linalg.norm(point.value - origin + 1e-300)\n        return jnp.where(along < 0, jnp.sign(dist) * far, dist)")],
    "a point behind the start of the line", "the distance to the line becomes the distance to its start point",
    '''
close(con.PointToLineDistance()((pr.Point([-3., 4.]), line((0, 0), (2, 0))), False), 4)
''')

bug("c05-relative-signed", "C05", "constructions.py",
    [("        return jnp.array([proj_dist / line_length])", "        return jnp.array([jnp.minimum(proj_dist / line_length, 1e3)])")],
    "a fraction above a thousand", "fractional distances are capped",
    '''
close(con.RelativePointOnLineDistance()((pr.Point([1., 0.]), line((0, 0), (1e-4, 0))), False), 1e4)
''')

bug("c06-pow-abs", "C06", "constructions.py",
    [("cons_a.assem(prims_a, *params_a) ** cons_b.assem(prims_b, *params_b)", "jnp.abs(cons_a.assem(prims_a, *params_a)) ** cons_b.assem(prims_b, *params_b)")],
    "a negative value raised to an odd power", "the sign of the base is lost",
    '''
close((con.XDistance() ** 3)((pr.Point([2., 0]), pr.Point([0., 0]))), -8)
''')

bug("c06-div-zero-power", "C06", "constructions.py",
    [("        if isinstance(scalar, (float, int)):\n        scalar", "")], "", "", "")
BUGS.pop()

bug("c06-split-short", "C06", "constructions.py",
    [("    chunks = (len(signature_a.param_types), len(signature_b.param_types))\n\n    def concat(params_a", "    chunks = (len(signature_a.param_types), max(1, min(2, len(signature_b.param_types))))\n\n    def concat(params_a")],
    "a second operand with three or more parameters", "parameters of the second operand beyond the second are dropped",
    '''
p3 = lambda: con.transform_map(con.DirectedDistance(), [pr.Point] * 4)
s = con.XDistance() + con.DirectedDistance()
m = con.transform_map(con.DirectedDistance(), 4 * [pr.Point])
t = m + m
pts = tuple(pr.Point(np.array([float(i), i * i])) for i in range(8))
close(t(pts, *[np.array([1., 0.])] * 6), m(pts[:4], *[np.array([1., 0.])] * 3) + m(pts[4:], *[np.array([1., 0.])] * 3))
''')

bug("c06-mul-child-params", "C06", "constructions.py",
    [("return cons.assem(prims, *params)", "return cons.assem(prims, *params[:max(len(params), 1)])")], "equivalent", "", "raise SystemExit(1)")
BUGS.pop()

bug("c07-map-one", "C07", "constructions.py",
    [("map_params[n*num_params : (n+1)*num_params]", "map_params[n*num_params : (n+1)*num_params or None]")], "", "", "")
BUGS.pop()

bug("c10-check-after", "C10", "layout.py",
    [("        self.root_constraint.add_child(key, constraint)\n", ""),
     ("        constraint_prim_keys = constraint.root_prim_keys(prim_keys)\n", "        self.root_constraint.add_child(key, constraint)\n        constraint_prim_keys = constraint.root_prim_keys(prim_keys)\n")],
    "", "", "")
BUGS.pop()

bug("c10-node-then-keys", "C10", "layout.py",
    [("        self.root_constraint.add_child(key, constraint)\n", ""),
     ("        # Notify the user if the input primitives or parameters to the constraint\n        # are incorrect\n", "        self.root_constraint.add_child(key, constraint)\n\n        # Notify the user if the input primitives or parameters to the constraint\n        # are incorrect\n")],
    "an addition rejected because of its primitives or parameters", "a rejected constraint stays in the tree of constraints",
    '''
l = lay.Layout()
l.add_prim(pr.Point([0., 0.]), "P")
try:
    l.add_constraint(co.Length(), ("P",), (1.0,), "L")
except Exception:
    pass
assert l.root_constraint.keys() == []
''')

bug("c10-key-until-valid", "C10", "containers.py",
    [("            key_notin_nodes = (key not in node for node in nodes)\n", "            key_notin_nodes = (key != last for node in nodes for last in node.keys()[-1:])\n")],
    "a user key equal to a future automatic key that is not the latest addition", "automatic keys collide with user keys",
    '''
l = lay.Layout()
l.add_prim(pr.Point([0., 0.]), "P")
l.add_constraint(co.Fix(), ("P",), (np.zeros(2),), "SumConstruction0")
l.add_constraint(co.Fix(), ("P",), (np.zeros(2),), "x")
l.add_constraint(co.Fix(), ("P",), (np.zeros(2),))
assert len(l.root_constraint) == 3
''')

bug("c10-add-nested-over", "C10", "containers.py",
    [("                self.children[parent_key].add_child(child_keys[0], child)\n", "                parent = self.children[parent_key]\n                if child_keys[0] in parent.children:\n                    parent.children[child_keys[0]] = child\n                else:\n                    parent.add_child(child_keys[0], child)\n")],
    "adding under a nested key that exists", "an existing nested child is replaced instead of the addition being rejected",
    '''
l = lay.Layout()
g = pr.PrimitiveNode.from_tree(np.array([]), {})
l.add_prim(g, "G"); l.add_prim(pr.Point([0., 0.]), "G/P")
try:
    l.add_prim(pr.Point([1., 1.]), "G/P")
    assert False
except KeyError:
    pass
close(l.root_prim["G/P"].value, [0, 0])
''')

bug("c21-prim-kind", "C21", "constructions.py",
    [("            not issubclass(in_type, exp_type)\n", "            not issubclass(in_type, exp_type.__mro__[1])\n")],
    "a primitive of a sibling type", "a primitive of another type that derives from the same base is accepted",
    '''
try:
    con.Coordinate()((pr.Line(),))
    assert False
except TypeError:
    pass
try:
    con.Width()((pr.Polygon(size=5),))
except TypeError:
    pass
else:
    assert False
''')

bug("c21-params-fewer", "C21", "constructions.py",
    [("        if len(params) != len(self.signature.param_types):", "        if len(params) < len(self.signature.param_types):")],
    "surplus parameters to a compound construction", "extra parameters are dropped silently",
    '''
m = con.transform_map(con.DirectedDistance(), 3 * [pr.Point])
p = tuple(pr.Point([0., i]) for i in range(3))
n = np.array([1., 0.])
try:
    m(p, n, n, n)
except Exception:
    pass
else:
    assert False
''')

bug("c21-last-type", "C21", "constructions.py",
    [("            for in_type, exp_type in zip(prim_types, self.signature.prim_types)", "            for in_type, exp_type in zip(prim_types[:2], self.signature.prim_types)")],
    "a wrong primitive type at the third or a later position", "later primitives are not checked",
    '''
m = con.transform_map(con.Coordinate(), 3 * [pr.Point])
c = co.OuterMarginArray(shape=(3,), side="left")
try:
    con.transform_sum(con.transform_sum(con.XDistance(), con.XDistance()), con.XDistance()).validate_prims(tuple(3 * [pr.Point()] + [pr.Line()] + 2 * [pr.Point()]))
except TypeError:
    pass
else:
    assert False
''')
