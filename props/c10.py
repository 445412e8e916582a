"""C10: constraint keys are unique and rejected additions change nothing."""
import numpy as np
from vx.run import Case

BOUNDS = ("histories of up to 6 additions with automatic keys and arbitrary user keys of 1 to 12 characters (so that user "
          "keys can equal past and future automatic keys), 13 automatic keys of one type; keys generated directly for up to 3 trees with different arbitrary keys; every kind of rejected addition "
          "at the end of a history: existing key, missing primitive, wrong primitive type or count, wrong parameter "
          "count, parameters the constraint's parts cannot use")
ASSUMPTIONS = ["keys do not contain '/', except where a case says so",
               "add_prims is a sequence of separate additions"]


def _short(m, name):
    """A constraint class with a short name, so that short user keys can meet automatic keys."""
    C = m.constructions
    return type(name, (m.constraints.Orthogonal,), {})


def _box(w, tag):
    return w.m.constraints.Box(), w.quad(tag)


def _snap(layout, cn):
    """Every node of the four trees: path, identity, value identity, child order."""
    out = []
    for tree in (layout.root_prim, layout.root_constraint, layout.root_prim_keys, layout.root_param):
        out.append([(k, n, n.value, list(n.keys())) for k, n in cn.iter_flat("", tree)])
    return out


def _unchanged(w, label, before, after):
    for b, a in zip(before, after):
        w.eq(label + ": node count", len(a), len(b))
        for (kb, nb, vb, cb), (ka, na, va, ca) in zip(b, a):
            w.eq(label + ": path", ka, kb)
            w.true(label + ": node", na is nb)
            w.true(label + ": value", va is vb)
            w.eq(label + ": children", len(ca), len(cb))
            for x, y in zip(ca, cb):
                w.eq(label + ": child", x, y)


def _in_step(w, layout, added):
    """The three constraint trees list the additions in order."""
    ks = layout.root_constraint.keys()
    w.eq("count", len(ks), len(added))
    for other in (layout.root_prim_keys, layout.root_param):
        w.eq("count in step", len(other.keys()), len(ks))
        for a, b in zip(other.keys(), ks):
            w.eq("keys in step", a, b)
    w.distinct_holds("keys", ks)
    for k, (key, c) in zip(ks, added):
        if key is not None:
            w.eq("user key", k, key)
        w.true("constraint", layout.root_constraint[k] is c)
    cs, pk, ps = layout.flat_constraints()
    w.eq("flat lists", [len(pk), len(ps)], [len(cs)] * 2)


def unique(w, pattern):
    """pattern: 'a' automatic, 'u' user key, per addition; two constraint types."""
    m = w.m
    F = [_short(m, "F"), _short(m, "G1")]
    layout = m.layout.Layout()
    layout.add_prims({"L": w.line("l"), "M": w.line("k")})
    added = []
    rejected = 0
    for i, op in enumerate(pattern):
        c = F[0 if op in "au" else 1]()
        if op in "ab":
            layout.add_constraint(c, ("L", "M"), ())
            added.append((None, c))
        else:
            key = w.string(f"k{i}", 1, 12)
            before = _snap(layout, m.containers)
            exists = any(bool(key == k) for k in layout.root_constraint.keys())
            bad = w.fails(lambda: layout.add_constraint(c, ("L", "M"), (), key))
            w.eq("rejected exactly when the key exists", bad, exists)
            if bad:
                _unchanged(w, "rejected key", before, _snap(layout, m.containers))
            else:
                added.append((key, c))
    _in_step(w, layout, added)


def future(w):
    """A user key equal to the next automatic keys."""
    m = w.m
    layout = m.layout.Layout()
    layout.add_prims({"L": w.line("l"), "M": w.line("k")})
    F = _short(m, "F")
    added = []
    for key in ("F0", "F2", None, None, "F4", None, "F7", None, None, None):
        c = F()
        if key is None:
            layout.add_constraint(c, ("L", "M"), ())
        else:
            layout.add_constraint(c, ("L", "M"), (), key)
        added.append((key, c))
    _in_step(w, layout, added)


def many(w, n):
    m = w.m
    layout = m.layout.Layout()
    layout.add_prims({"L": w.line("l"), "M": w.line("k")})
    F, G = _short(m, "F"), _short(m, "F1")
    key = w.string("user", 1, 16)
    c = F()
    layout.add_constraint(c, ("L", "M"), (), key)
    added = [(key, c)]
    for i in range(n):
        c = (F if i % 3 else G)()
        layout.add_constraint(c, ("L", "M"), ())
        added.append((None, c))
    _in_step(w, layout, added)


def counter(w, n):
    """A key generated for several trees is new to every one of them, whichever of them have which keys."""
    cn = w.m.containers
    c = cn.ItemCounter()
    trees = [cn.Node(0, {w.string(f"k{i}", 1, 8): cn.Node(1, {})}) for i in range(n)]
    got = []
    for i in range(3):
        item = (1, "s")[i == 1]
        k = c.add_item_to_nodes(item, *trees)
        for t in trees:
            for x in t.keys():
                w.true("new to every tree", k != x)
        got.append(k)
        if i == 0 and trees:
            trees[-1].add_child(k, cn.Node(3, {}))
    w.distinct_holds("generated keys", got)


def rebuilt(w):
    """A layout rebuilt from trees (as after a refresh) counts from scratch but still avoids existing keys."""
    m = w.m
    F = _short(m, "F")
    first = m.layout.Layout()
    first.add_prims({"L": w.line("l"), "M": w.line("k")})
    added = []
    key = w.string("user", 1, 12)
    for k in (None, key, None):
        c = F()
        before = _snap(first, m.containers)
        if k is None:
            first.add_constraint(c, ("L", "M"), ())
        elif any(bool(k == x) for x in first.root_constraint.keys()):
            w.true("rejected", w.fails(lambda: first.add_constraint(c, ("L", "M"), (), k)))
            _unchanged(w, "rejected key", before, _snap(first, m.containers))
            continue
        else:
            first.add_constraint(c, ("L", "M"), (), k)
        added.append((k, c))
    layout = m.layout.update_layout_constraints(first, {})
    for _ in range(3):
        c = F()
        layout.add_constraint(c, ("L", "M"), ())
        added.append((None, c))
    _in_step(w, layout, added)


class NoAxis:
    """Not a matplotlib axis."""


def _reject(w, what):
    """(constraint, prim keys, params) of an addition that is rejected."""
    m = w.m
    cr = m.constraints
    if what == "missing primitive":
        return cr.Box(), (w.string("missing", 1, 12),), ()
    if what == "missing part":
        return cr.Horizontal(), ("Q/Line9",), ()
    if what == "missing part below":
        return cr.Fix(), ("Q/Line0/Point7",), ([0.0, 0.0],)
    if what == "second missing":
        return cr.OuterMargin(side="left"), ("Q", w.string("missing", 1, 12)), (0.0,)
    if what == "primitive type":
        return cr.Box(), ("L",), ()
    if what == "second type":
        return cr.OuterMargin(side="left"), ("Q", "L"), (0.0,)
    if what == "too few primitives":
        return cr.OuterMargin(side="left"), ("Q",), (0.0,)
    if what == "too many primitives":
        return cr.Box(), ("Q", "R"), ()
    if what == "no primitives":
        return cr.Box(), (), ()
    if what == "too few parameters":
        return cr.Length(), ("L",), ()
    if what == "too many parameters":
        return cr.Length(), ("L",), (1.0, 2.0)
    if what == "unneeded parameter":
        return cr.Box(), ("Q",), (1.0,)
    if what == "grid widths too long":
        return cr.Grid(shape=(1, 2)), ("Q", "R"), ([1.0, 1.0], [], [1.0], [])
    if what == "grid widths too short":
        return cr.Grid(shape=(1, 2)), ("Q", "R"), ([], [], [1.0], [])
    if what == "grid rows too long":
        return cr.Grid(shape=(1, 2)), ("Q", "R"), ([1.0], [1.0], [1.0], [])
    if what == "grid margins too short":
        return cr.Grid(shape=(1, 2)), ("Q", "R"), ([1.0], [], [], [])
    if what == "grid row margins too long":
        return cr.Grid(shape=(2, 1)), ("Q", "R"), ([], [1.0], [], [1.0, 2.0])
    if what == "grid not iterable":
        return cr.Grid(shape=(1, 2)), ("Q", "R"), (1.0, [], [1.0], [])
    if what == "no axis":
        return cr.XAxisThickness(), ("Q",), (NoAxis(),)
    raise KeyError(what)


REJECT = ("missing primitive", "missing part", "missing part below", "second missing", "primitive type", "second type",
          "too few primitives", "too many primitives", "no primitives", "too few parameters", "too many parameters",
          "unneeded parameter", "grid widths too long", "grid widths too short", "grid rows too long",
          "grid margins too short", "grid row margins too long", "grid not iterable", "no axis")


def _start(w):
    m = w.m
    layout = m.layout.Layout()
    layout.add_prims({"Q": w.quad("q"), "R": w.quad("r"), "L": w.line("l"), "P": w.point("p")})
    added = []
    for key, c, pk, a in ((None, m.constraints.Box(), ("Q",), ()),
                          ("user", m.constraints.Length(), ("L",), (w.real("t"),)),
                          (None, m.constraints.OuterMargin(side="top"), ("Q", "R"), (w.real("s"),))):
        layout.add_constraint(c, pk, a) if key is None else layout.add_constraint(c, pk, a, key)
        added.append((key, c))
    return layout, added


def rejected(w, what, key):
    m = w.m
    layout, added = _start(w)
    before = _snap(layout, m.containers)
    c, pk, a = _reject(w, what)
    if what in ("missing primitive", "second missing"):
        w.distinct(pk[-1], "Q", "R", "L", "P")
    name = {"auto": "", "user": "mine", "string": None}[key]
    if name is None:
        name = w.string("key", 1, 16)
        w.distinct(name, *layout.root_constraint.keys())
    if not w.fails(lambda: layout.add_constraint(c, pk, a, name)):
        w.eq("accepted", 1, 1)      # whether it should be is C21's matter
        return
    _unchanged(w, "rejected addition", before, _snap(layout, m.containers))
    # the history goes on as if nothing had happened
    c = m.constraints.Box()
    layout.add_constraint(c, ("R",), (), name)
    added.append((None if key == "auto" else name, c))
    _in_step(w, layout, added)


def existing_prim(w, nested):
    m = w.m
    layout, added = _start(w)
    n = w.string("n", 1, 12)
    exists = any(bool(n == k) for k in ("Q", "R", "L", "P"))
    before = _snap(layout, m.containers)
    new = w.point("new")
    bad = w.fails(lambda: layout.add_prim(new, n))
    w.eq("rejected exactly when the key exists", bad, exists)
    if bad:
        _unchanged(w, "rejected primitive", before, _snap(layout, m.containers))
    else:
        w.true("added", layout.root_prim[n] is new)
        w.eq("added last", layout.root_prim.keys(), ["Q", "R", "L", "P", n])
        before = _snap(layout, m.containers)
        w.true("now rejected", w.fails(lambda: layout.add_prim(w.point("newer"), n)))
        _unchanged(w, "second primitive", before, _snap(layout, m.containers))
    before = _snap(layout, m.containers)
    for path in ("Q/Line0", "Q/Line1/Point1", "X/Y/Z", "Q/Line7/Point0") if nested else ():
        if path[0] == "X":
            w.distinct(n, "X")
        w.true("existing or unreachable path", w.fails(lambda: layout.add_prim(new, path)))
        _unchanged(w, "path", before, _snap(layout, m.containers))


def cases(tier):
    th = tier == "thorough"
    out = []
    pats = ["ua", "au", "aua", "uaa", "uua", "uaua", "aabu", "uba", "bua", "auau"]
    if th:
        pats += ["uuaa", "uaaau", "aaauaa", "uabua", "buba", "uauaa"]
    for p in pats:
        out.append(Case(f"unique {p}", unique, pattern=p))
    out.append(Case("future", future))
    out.append(Case("many", many, n=13))
    out.append(Case("rebuilt", rebuilt))
    for n in (0, 1, 2, 3):
        out.append(Case(f"counter {n}", counter, n=n))
    for r in REJECT:
        for k in ("auto", "user", "string") if th else ("auto", "string"):
            out.append(Case(f"rejected {r} {k}", rejected, what=r, key=k))
    out.append(Case("existing primitive", existing_prim, nested=False))
    out.append(Case("existing paths", existing_prim, nested=True))
    return out
