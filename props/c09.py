"""C09: a layout assembles exactly the constraints that were added."""
import numpy as np
from props.c08 import evaluate
from props.shapes import operand
from vx.run import Case

BOUNDS = ("histories of up to 5 additions, each chosen among 8 kinds of constraints (leaves, compounds, maps, grids), with "
          "automatic or arbitrary user keys (1 to 16 characters) and primitives added in between, from the empty layout or "
          "one built from given trees; 12 kinds between any two primitives, the same one included; 34 constraints of one type; all real coordinates and parameters")

KINDS = ("Fix", "Length", "Box", "Deep", "BigMap", "Grid", "Margin", "XThick")


def _con(w, kind, tag):
    cr, C, P = w.m.constraints, w.m.constructions, w.m.primitives
    if kind == "Fix":
        return cr.Fix(), (w.point(tag + "p"),), (w.vec(tag + "t"),)
    if kind == "Length":
        return cr.Length(), (w.line(tag + "l"),), (w.real(tag + "t"),)
    if kind == "Box":
        return cr.Box(), (w.quad(tag + "q"),), ()
    if kind == "Margin":
        return cr.OuterMargin(side="bottom"), (w.quad(tag + "q"), w.quad(tag + "r")), (w.real(tag + "t"),)
    if kind == "Grid":
        return (cr.Grid(shape=(1, 2)), (w.quad(tag + "q"), w.quad(tag + "r")),
                ([w.real(tag + "cw")], [], [w.real(tag + "cm")], []))
    if kind == "XThick":
        return cr.XAxisThickness(), (w.quad(tag + "q"),), (None,)
    if kind == "BigMap":
        return (C.transform_map(C.DirectedDistance(), 3 * [P.Point]),
                (w.point(tag + "p"), w.point(tag + "q"), w.point(tag + "r")), (w.vec(tag + "n"), w.vec(tag + "m")))
    return operand(w, kind, tag)


def _size(w, kind):
    return {"Fix": 1, "Length": 1, "Box": 4, "Deep": 7, "BigMap": 2, "Grid": 7, "Margin": 2, "XThick": 2}[kind]


def _flatten(c, keys, params):
    """Expected flat lists of one added constraint, from the documented tree structure."""
    ks, ps = [keys], [params]
    for (_, child), kk, pp in zip(c.items(), c.value.child_prim_keys, c.value.child_params(params)):
        sub = []
        for k in kk:
            head, _, rest = k.partition("/")
            base = keys[int(head[3:])]
            sub.append(base + "/" + rest if rest else base)
        a, b = _flatten(child, tuple(sub), tuple(pp))
        ks += a
        ps += b
    return ks, ps


def _same(w, label, got, want):
    """Parameters are handed on as they are (numbers, arrays, lists, None)."""
    w.eq(label + " count", len(got), len(want))
    for g, x in zip(got, want):
        if isinstance(x, (list, np.ndarray)):
            w.eq(label, list(g), list(x))
        else:
            w.eq(label, g, x)


def _verify(w, layout, added):
    """added: (key or None, constraint, prim keys, prims, params) in order."""
    keys = layout.root_constraint.keys()
    w.eq("one entry each", [len(keys), len(layout.root_prim_keys.keys()), len(layout.root_param.keys())],
         [len(added)] * 3)
    w.distinct_holds("keys", keys)
    want_k, want_p, want_r = [], [], []
    for i, (key, c, pk, prims, params) in enumerate(added):
        if key is not None:
            w.eq("under its key", keys[i], key)
        w.eq("prim keys tree", layout.root_prim_keys.keys()[i], keys[i])
        w.eq("params tree", layout.root_param.keys()[i], keys[i])
        w.true("the added constraint", layout.root_constraint[keys[i]] is c)
        a, b = _flatten(c, pk, params)
        want_k += a
        want_p += b
        want_r += evaluate(c, prims, params)
    cs, ks, ps = layout.flat_constraints()
    w.eq("constraints once each", len(cs), len(want_k))
    w.eq("keys once each", len(ks), len(want_k))
    w.eq("params once each", len(ps), len(want_p))
    for g, x in zip(ks, want_k):
        w.eq("primitive keys", list(g), list(x))
    for g, x in zip(ps, want_p):
        _same(w, "parameters", tuple(g), tuple(x))
    res = w.m.solver.assem_constraint_residual(layout.root_prim, cs, ks, ps)
    w.eq("residual", [x for r in res for x in r], want_r)


def history(w, kinds, auto, via):
    """Add the given kinds in order, interleaving primitives."""
    m = w.m
    layout = m.layout.Layout()
    added = []
    user = []
    for i, kind in enumerate(kinds):
        c, p, a = _con(w, kind, f"c{i}")
        names = tuple(f"P{i}_{j}" for j in range(len(p)))
        if via == "dict":
            layout.add_prims(dict(zip(names, p)))
        else:
            for n, q in zip(names, p):
                layout.add_prim(q, n)
        if auto[i % len(auto)]:
            key = None
            layout.add_constraint(c, names, a)
        else:
            key = w.string(f"k{i}", 1, 16)
            w.distinct(key, *user)
            w.distinct(key, *layout.root_constraint.keys())
            user.append(key)
            layout.add_constraint(c, names, a, key)
        added.append((key, c, names, p, a))
    _verify(w, layout, added)


def chosen(w, n):
    """Every choice of n constraints over shared primitives, keys automatic or given."""
    m = w.m
    cr = m.constraints
    layout = m.layout.Layout()
    quads = [w.quad(f"q{i}") for i in (0, 1)]
    point = w.point("p")
    layout.add_prims({"A": quads[0], "B": quads[1], "C": point})
    prim = {"A": quads[0], "B": quads[1], "C": point, "A/Line1": quads[0]["Line1"],
            "B/Line2/Point0": quads[1]["Line2/Point0"]}
    added = []
    shared = cr.Box()
    for i in range(n):
        kind = w.choice(f"kind{i}", ["fix", "box", "length", "margin"])
        if kind == "fix":
            c, pk, a = cr.Fix(), (w.choice(f"at{i}", ["C", "B/Line2/Point0"]),), (w.vec(f"t{i}"),)
        elif kind == "box":
            c, pk, a = shared, (w.choice(f"at{i}", ["A", "B"]),), ()
        elif kind == "length":
            c, pk, a = cr.XLength(), ("A/Line1",), (w.real(f"t{i}"),)
        else:
            c, pk, a = cr.InnerMargin(side="left"), w.choice(f"at{i}", [("A", "B"), ("B", "A")]), (w.real(f"t{i}"),)
        key = None
        if w.bool(f"given{i}"):
            key = f"user{i}"
            layout.add_constraint(c, pk, a, key)
        else:
            layout.add_constraint(c, pk, a)
        added.append((key, c, pk, tuple(prim[k] for k in pk), a))
    _verify(w, layout, added)


def addressed(w, group, n):
    """Constraints between any two of the primitives, the same one or one known by two names included."""
    cr = w.m.constraints
    layout = w.m.layout.Layout()
    if group == "quads":
        a, b = w.quad("a"), w.quad("b")
    elif group == "lines":
        a, b = w.line("a"), w.line("b")
    else:
        a, b = w.point("a"), w.point("b")
    layout.add_prims({"A": a, "B": b, "Again": a})
    at = {"A": a, "B": b, "Again": a}
    if group == "lines":
        w.assume(_len2(a) > 0)
        w.assume(_len2(b) > 0)
    added = []
    for i in range(n):
        t = w.real(f"t{i}")
        kinds = {"quads": [(cr.InnerMargin(side="left"), (t,)), (cr.OuterMargin(side="top"), (t,)), (cr.AlignRow(), ()),
                           (cr.AlignColumn(), ())],
                 "lines": [(cr.Orthogonal(), ()), (cr.Parallel(), ()), (cr.RelativeLength(), (t,)), (cr.Collinear(), ()),
                           (cr.CoincidentLines(), (w.choice(f"reverse{i}", [False, True]),))],
                 "points": [(cr.Coincident(), ()), (cr.XDistance(), (t,)), (cr.DirectedDistance(), (w.vec(f"d{i}"), t))],
                 }[group]
        c, par = w.choice(f"kind{i}", kinds)
        ks = w.choice(f"at{i}", [("A", "A"), ("A", "B"), ("B", "A"), ("A", "Again"), ("B", "B")])
        layout.add_constraint(c, ks, par)
        added.append((None, c, ks, tuple(at[k] for k in ks), par))
    _verify(w, layout, added)


def _len2(l):
    p, q = l["Point0"].value, l["Point1"].value
    return (q[0] - p[0]) * (q[0] - p[0]) + (q[1] - p[1]) * (q[1] - p[1])


def many(w, n, kind):
    layout = w.m.layout.Layout()
    added = []
    for i in range(n):
        c, p, a = _con(w, kind, f"c{i}")
        names = tuple(f"P{i}_{j}" for j in range(len(p)))
        for nm, q in zip(names, p):
            layout.add_prim(q, nm)
        layout.add_constraint(c, names, a)
        added.append((None, c, names, p, a))
    _verify(w, layout, added)


def given_trees(w):
    """A layout built from the trees of another one continues it."""
    m = w.m
    first = m.layout.Layout()
    added = []
    for i, kind in enumerate(("Fix", "Deep")):
        c, p, a = _con(w, kind, f"c{i}")
        names = tuple(f"P{i}_{j}" for j in range(len(p)))
        first.add_prims(dict(zip(names, p)))
        first.add_constraint(c, names, a)
        added.append((None, c, names, p, a))
    layout = m.layout.Layout(first.root_prim, first.root_constraint, first.root_prim_keys, first.root_param)
    for i, kind in enumerate(("Fix", "Margin", "Fix"), start=2):
        c, p, a = _con(w, kind, f"c{i}")
        names = tuple(f"P{i}_{j}" for j in range(len(p)))
        layout.add_prims(dict(zip(names, p)))
        layout.add_constraint(c, names, a)
        added.append((None, c, names, p, a))
    _verify(w, layout, added)


def given_roots(w, which, n):
    """A layout built from empty given roots, some of which carry a value of their own."""
    m = w.m
    cr, P = m.constraints, m.primitives
    C = m.constructions
    roots = {
        "values": dict(root_prim_keys=C.PrimKeysNode((), {}), root_param=C.ParamsNode((), {})),
        "keys": dict(root_prim_keys=C.PrimKeysNode(("x",), {}), root_param=C.ParamsNode(None, {})),
        "params": dict(root_param=C.ParamsNode((w.real("r"),), {})),
        "none": dict(root_prim_keys=C.PrimKeysNode(None, {}), root_param=C.ParamsNode(None, {})),
        "constraint": dict(root_constraint=m.constructions.ConstructionNode.from_tree(cr.Fix().value, {})),
        "prim": dict(root_prim=P.PrimitiveNode.from_tree(np.array([]), {})),
    }[which]
    layout = m.layout.Layout(**roots)
    added = []
    for i, kind in enumerate(("Fix", "Deep", "Margin")[:n]):
        c, p, a = _con(w, kind, f"c{i}")
        names = tuple(f"P{i}_{j}" for j in range(len(p)))
        layout.add_prims(dict(zip(names, p)))
        layout.add_constraint(c, names, a)
        added.append((None, c, names, p, a))
    _verify(w, layout, added)


def separate(w):
    """Two layouts do not share anything."""
    m = w.m
    la, lb = m.layout.Layout(), m.layout.Layout()
    out = []
    for lay, tag, kinds in ((la, "a", ("Fix", "Box")), (lb, "b", ("Margin", "Fix", "Length"))):
        added = []
        for i, kind in enumerate(kinds):
            c, p, a = _con(w, kind, f"{tag}{i}")
            names = tuple(f"P{i}_{j}" for j in range(len(p)))
            lay.add_prims(dict(zip(names, p)))
            lay.add_constraint(c, names, a)
            added.append((None, c, names, p, a))
        out.append((lay, added))
    for lay, added in out:
        _verify(w, lay, added)


def cases(tier):
    th = tier == "thorough"
    out = []
    for k in KINDS:
        out.append(Case(f"history {k}", history, kinds=(k,), auto=(True,), via="one"))
    seqs = [("Fix", "Deep", "Fix"), ("Deep", "Grid", "BigMap"), ("Box", "Box", "XThick", "Box"),
            ("Grid", "Grid"), ("Margin", "Length", "Margin", "Length", "Margin"), ("XThick", "Fix", "XThick", "BigMap")]
    if th:
        seqs += [(a, b, c) for a in ("Fix", "Deep", "BigMap") for b in KINDS for c in ("Grid", "Box")]
    for i, s in enumerate(seqs):
        for j, auto in enumerate(((True,), (False,), (True, False))):
            out.append(Case(f"history {','.join(s)} {'auto' if j == 0 else 'given' if j == 1 else 'mixed'}", history,
                            kinds=s, auto=auto, via="dict" if (i + j) % 2 else "one"))
    for n in ((1, 2, 3) if th else (1, 2)):
        out.append(Case(f"chosen {n}", chosen, n=n))
    for k in ("Fix", "Box", "Length"):
        out.append(Case(f"many {k}", many, n=34 if k == "Fix" else 14, kind=k))
    for g in ("quads", "lines", "points"):
        for n in ((1, 2) if th else (1,)):
            out.append(Case(f"addressed {g} {n}", addressed, group=g, n=n))
    out.append(Case("given trees", given_trees))
    for which in ("values", "keys", "params", "none", "constraint", "prim"):
        for n in ((0, 1, 2, 3) if th else (0, 3)):
            out.append(Case(f"given roots {which} {n}", given_roots, which=which, n=n))
    out.append(Case("separate", separate))
    return out
