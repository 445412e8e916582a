import importlib.util, os
_s = importlib.util.spec_from_file_location("pd", os.path.join(os.path.dirname(os.path.abspath(__file__)), "d.py"))
_m = importlib.util.module_from_spec(_s)
_s.loader.exec_module(_m)
H = _m.H
BUGS = []


def bug(id, property, file, edits, needs, breaks, demo):
    BUGS.append(dict(id=id, property=property, file=file, edits=edits, needs=needs, breaks=breaks, demo=H + demo))


bug("c06-sum-compound", "C06", "constructions.py",
    [('        arg_keys_b = tuple(f"arg{num_a + n}" for n in range(num_b))', '        arg_keys_b = tuple(f"arg{max(num_a, len(child_keys_a)//4) + n}" for n in range(num_b))'),
     ], "the sum of two compound constructions with eight or more parts", "the second operand's parts get primitives that are not its own",
    '''
g = co.RectilinearGrid((4, 4))
class Many(con.CompoundConstruction, con._LineSignature):
    def __init__(self):
        super().__init__()
    @classmethod
    def init_children(cls):
        n = 8
        return tuple(f"L{i}" for i in range(n)), n * (con.Length(),), n * (("arg0",),), lambda params: n * ((),)
    @classmethod
    def init_signature(cls):
        return cls.make_signature(0)
close((Many() + Many())((line((0, 0), (1, 0)), line((0, 0), (2, 0)))), [3] * 8)
''')

bug("c08-arg-substitute", "C08", "constructions.py",
    [('''            arg_prefix, *child_key = prim_key.split("/", 1)
            new_prefix = arg_keys[argnum_from_key(arg_prefix)]
            return "/".join([new_prefix] + child_key)''', '''            argnum_from_key(prim_key.split("/", 1)[0])
            for n, arg_key in reversed(list(enumerate(arg_keys))):
                prim_key = prim_key.replace(f"arg{n}", arg_key)
            return prim_key''')],
    "user primitives named arg0, arg1, ...", "the user's names are substituted again",
    '''
L = lay.Layout()
L.add_prim(box(0, 0, 2, 1), "arg1")
L.add_prim(box(5, 0, 2, 1), "arg0")
L.add_constraint(co.AlignRow(), ("arg1", "arg0"), ())
c, k, p = L.flat_constraints()
assert [tuple(x) for x in k] == [("arg1", "arg0"), ("arg1/Line0", "arg0/Line0"), ("arg1/Line2", "arg0/Line2")], k
''')

bug("c09-same-object", "C09", "layout.py",
    [('''        constraints = [
            node for _, node in iter_flat('', self.root_constraint)
        ][1:]''', '''        constraints = list({
            id(node): node for _, node in iter_flat('', self.root_constraint)
        }.values())[1:]''')],
    "one constraint object added twice", "the second addition is dropped and later parameters shift",
    '''
L = lay.Layout()
L.add_prim(pr.Point([0., 0.]), "P")
L.add_prim(pr.Point([1., 1.]), "Q")
f = co.Fix()
L.add_constraint(f, ("P",), (np.array([1., 1.]),))
L.add_constraint(f, ("Q",), (np.array([2., 2.]),))
c, k, p = L.flat_constraints()
assert len(c) == len(k) == 2
''')

bug("c09-long-key", "C09", "layout.py",
    [('''            node for _, node in iter_flat('', self.root_constraint)
''', '''            node for _, node in sorted(iter_flat('', self.root_constraint), key=lambda kn: "Last" in kn[0])
''')],
    "a constraint whose name contains 'Last', added before others", "its residual is listed last, with another's primitives",
    '''
L = lay.Layout()
L.add_prim(pr.Point([0., 0.]), "P")
L.add_prim(line((0, 0), (1, 1)), "Q")
L.add_constraint(co.Fix(), ("P",), (np.array([1., 1.]),), key="Last")
L.add_constraint(co.Vertical(), ("Q",), ())
c, k, p = L.flat_constraints()
r = so.assem_constraint_residual(L.root_prim, c, k, p)
close(np.concatenate([np.ravel(x) for x in r]), [-1, -1, 1])
''')

bug("c11-deep-corner", "C11", "primitives.py",
    [("        if value_id not in value_id_to_idx:", "        if value_id not in value_id_to_idx or (key.count('/') > 4 and key.endswith('Line3/Point1')):")],
    "a quadrilateral in an axes in a group", "the first corner of nested quadrilaterals comes apart from the last line",
    '''
L = lay.Layout()
L.add_prim(root(A=pr.Axes(prims=[box(0, 0, 1, 1)])), "G")
L.add_constraint(co.Fix(), ("G/A/Frame/Line0/Point0",), (np.array([3., 3.]),))
s, _ = so.solve(L)
close(s["G/A/Frame/Line3/Point1"].value, [3, 3])
''')

bug("c11-value-equal-zero", "C11", "primitives.py",
    [("        value_id = id(prim.value)", "        value_id = id(prim.value) if prim.value.any() else 'origin'")],
    "several points at the origin", "points that start at the origin move as one",
    '''
L = lay.Layout()
L.add_prim(pr.Point([0., 0.]), "P")
L.add_prim(pr.Point([0., 0.]), "Q")
L.add_constraint(co.Fix(), ("P",), (np.array([3., 3.]),))
s, _ = so.solve(L)
close(s["P"].value, [3, 3]); close(s["Q"].value, [0, 0])
''')

bug("c14-worse-start", "C14", "solver.py",
    [("    global_param_n = res['x']", "    global_param_n = res['x'] if not min_hist.rel_errs or min(min_hist.rel_errs) <= 1 else global_param_n")],
    "an optimizer whose iterates are worse than the start", "the start is returned instead of the optimizer's answer",
    '''
import mpllayout.solver as S
from scipy.optimize import OptimizeResult
def fake(fun, x0, callback=None, **k):
    callback(intermediate_result=OptimizeResult(fun=9., x=x0))
    return OptimizeResult(x=x0 + 1, success=False, fun=1.)
S.minimize = fake
L = lay.Layout()
L.add_prim(pr.Point([0., 0.]), "P")
L.add_constraint(co.Fix(), ("P",), (np.array([1., 1.]),))
s, i = so.solve(L, method="minimize")
close(s["P"].value, [1, 1])
''')

bug("c10-prefix", "C10", "containers.py",
    [("            key_notin_nodes = (key not in node for node in nodes)", "            key_notin_nodes = (key not in node.keys()[-8:] for node in nodes)")],
    "a user key equal to a future automatic key, followed by eight other additions", "the automatic key collides and the addition fails",
    '''
L = lay.Layout()
L.add_prim(pr.Point([0., 0.]), "P")
f = co.Fix()
L.add_constraint(f, ("P",), (np.array([1., 1.]),), key=type(f).__name__ + "0")
for i in range(9):
    L.add_constraint(f, ("P",), (np.array([1., 1.]),), key=f"k{i}")
L.add_constraint(f, ("P",), (np.array([1., 1.]),))
assert len(L.root_constraint) == 11
''')

bug("c18-iter-cache", "C18", "containers.py",
    [("        return list(self.children.keys())", "        if not hasattr(self, '_keys') or len(self._keys) != len(self.children):\n            self._keys = list(self.children.keys())\n        return self._keys")],
    "a caller that changes the list of keys it was given", "the node's own keys change",
    '''
n = cn.Node(0, {"a": cn.Node(1, {}), "b": cn.Node(2, {})})
n.keys().reverse()
assert n.keys() == ["a", "b"]
''')

bug("c18-height-cache", "C18", "containers.py",
    [("            return 1 + max((child.node_height() for _, child in self.items()))", "            first = next(iter(self.values()))\n            return 1 + max(child.node_height() if child is first or len(child) else 0 for child in self.values()) if len(self) < 9 else 1 + first.node_height()")],
    "a node with nine or more children whose first child is not the tallest", "the height is that of the first child",
    '''
n = cn.Node(0, {f"k{i}": cn.Node(i, {"c": cn.Node(0, {})} if i == 5 else {}) for i in range(10)})
assert n.node_height() == 2
''')

bug("c19-accumulate-zero", "C19", "containers.py",
    [("        value = functools.reduce(function, [node.value] + [cnode.value for cnode in cnodes.values()])", "        value = functools.reduce(function, [node.value] + [cnode.value for cnode in list(cnodes.values())[:16]])")],
    "a node with more than sixteen children", "later children are left out",
    '''
n = cn.Node(0, {f"k{i}": cn.Node(1, {}) for i in range(20)})
assert cn.accumulate(lambda a, b: a + b, n, 0).value == 20
''')
