"""C19: flattening, mapping and accumulating trees loses nothing."""
import jax
import numpy as np
from vx.run import Case

BOUNDS = ("trees of up to 7 nodes and height up to 3 (10 shapes, including siblings whose names are in no sorted order), "
          "names symbolic strings of 0 to 8 characters, symbolic root keys, values symbolic reals, arrays, strings or None, "
          "nodes of several types; every primitive type with symbolic coordinates, polygons of 3, 4, 11 and 12 points, all "
          "9 axes variants; accumulation over trees of height 12 and of 40 children per node; combining functions + and * over reals and concatenation")
ASSUMPTIONS = ["names of children do not contain '/'", "the initial value of an accumulation is neutral"]

SHAPES = {
    "leaf": [],
    "one": [[]],
    "two": [[], []],
    "three": [[], [], []],
    "chain2": [[[]]],
    "chain3": [[[[]]]],
    "left": [[[], []], []],
    "right": [[], [[]]],
    "comb": [[[]], [[]]],
    "bushy": [[[], [[]]], []],
}


def types(w):
    N = w.m.containers.Node

    class Other(N):
        def __init__(self, only):
            super().__init__(only, {})
    return [N, Other, w.m.primitives.PrimitiveNode]


def tree(w, shape, vals, tag="n", typed=False):
    """(node, [(name, ...)]): values come from vals(tag)."""
    T = types(w)
    kids = []
    for i, s in enumerate(shape):
        kids.append((w.string(f"{tag}{i}", 0, 8), tree(w, s, vals, f"{tag}{i}", typed)))
    w.distinct(*[k for k, _ in kids])
    t = T[(len(tag) + sum(map(ord, tag))) % 3] if typed else T[0]
    return t.from_tree(vals(tag), {k: m for k, m in kids})


def reals(w):
    return lambda tag: w.real("v" + tag)


def mixed(w):
    def vals(tag):
        i = sum(map(ord, tag)) % 4
        return [lambda: w.vec("v" + tag, 2), lambda: f"text {tag}", lambda: None, lambda: w.real("v" + tag)][i]()
    return vals


def nodes(node):
    """Preorder: (path components, node)."""
    out = [((), node)]
    for k, c in node.children.items():
        out += [((k,) + p, n) for p, n in nodes(c)]
    return out


def path(root, p):
    for k in p:
        root = root + "/" + k
    return root


def same(w, label, a, b, typed=True):
    """b is an equal tree: types, keys, order and values."""
    if typed:
        w.true(label + ": node type", type(a) is type(b))
    value(w, label + ": value", b.value, a.value)
    ka, kb = list(a.children.keys()), list(b.children.keys())
    w.eq(label + ": number of children", len(kb), len(ka))
    for x, y in zip(ka, kb):
        w.eq(label + ": names in order", y, x)
        same(w, label, a.children[x], b.children[y], typed)


def value(w, label, got, want):
    if want is None or isinstance(want, str):
        w.true(label, got is want or got == want)
    else:
        w.eq(label, got, want)


def check_flat(w, cn, root, node):
    want = nodes(node)
    got = cn.flatten(root, node)
    it = list(cn.iter_flat(root, node))
    w.eq("every node once", [len(got), len(it)], [len(want)] * 2)
    for (k, t, v, cks), (ik, n), (p, m) in zip(got, it, want):
        w.eq("path", k, path(root, p))
        w.eq("path (iter)", ik, path(root, p))
        w.true("node", n is m)
        w.true("type", t is type(m))
        w.true("value", v is m.value)
        w.eq("names", len(cks), len(m.children))
        for a, b in zip(cks, m.children.keys()):
            w.eq("child names", a, b)
    return got


def flat(w, shape, vals):
    cn = w.m.containers
    t = tree(w, SHAPES[shape], (reals if vals == "real" else mixed)(w), typed=True)
    root = w.string("root", 0, 8)
    got = check_flat(w, cn, root, t)
    back, left = cn.unflatten(got)
    w.eq("nothing left over", len(left), 0)
    same(w, "unflatten", t, back)
    w.eq("list kept", len(got), len(nodes(t)))
    extra = got + cn.flatten("more", t)
    back, left = cn.unflatten(extra)
    same(w, "unflatten a prefix", t, back)
    w.eq("left over", len(left), len(got))


def pytree(w, shape, vals):
    t = tree(w, SHAPES[shape], (reals if vals == "real" else arrays)(w))
    w.true("jax can take it apart", not w.fails(lambda: jax.tree_util.tree_flatten(t)))
    leaves, treedef = jax.tree_util.tree_flatten(t)
    w.eq("every value is a leaf", len(leaves), len(nodes(t)))
    back = jax.tree_util.tree_unflatten(treedef, leaves)
    same(w, "pytree", t, back)


def arrays(w):
    return lambda tag: w.vec("v" + tag, 1 + len(tag) % 3)


def mapping(w, shape):
    cn = w.m.containers
    t = tree(w, SHAPES[shape], reals(w), typed=True)
    before = cn.flatten("", t)
    seen = []

    def f(v):
        seen.append(v)
        return v * 2 + 1
    r = cn.map(f, t)
    ns = nodes(t)
    w.eq("called once per value", len(seen), len(ns))
    used = [False] * len(seen)
    for _, n in ns:
        i = next((i for i, v in enumerate(seen) if v is n.value and not used[i]), None)
        w.true("called with every value", i is not None)
        if i is not None:
            used[i] = True
    got = nodes(r)
    w.eq("shape", len(got), len(ns))
    for (p, a), (q, b) in zip(ns, got):
        w.eq("path", path("", q), path("", p))
        w.eq("image", b.value, a.value * 2 + 1)
    kept(w, cn, t, before)


def mapping_any(w, shape):
    """Any value is passed to the function, None and falsy ones included."""
    cn = w.m.containers
    vals = mixed(w)
    odd = {"n": 0, "n0": None, "n1": False, "n00": "", "n01": (), "n10": 0.0}
    t = tree(w, SHAPES[shape], lambda tag: odd.get(tag, vals(tag)), typed=True)
    before = cn.flatten("", t)
    r = cn.map(lambda v: ("image", v), t)
    ns, got = nodes(t), nodes(r)
    w.eq("shape", len(got), len(ns))
    for (p, a), (q, b) in zip(ns, got):
        w.eq("path", path("", q), path("", p))
        w.true("image", type(b.value) is tuple and len(b.value) == 2 and b.value[0] == "image" and b.value[1] is a.value)
    kept(w, cn, t, before)


def kept(w, cn, t, before):
    after = cn.flatten("", t)
    w.eq("input keeps its nodes", len(after), len(before))
    for (k, ty, v, ck), (bk, bty, bv, bck) in zip(after, before):
        w.eq("input paths", k, bk)
        w.true("input types", ty is bty)
        w.true("input values", v is bv)


def copying(w, shape):
    cn = w.m.containers
    t = tree(w, SHAPES[shape], reals(w))
    before = cn.flatten("", t)
    c = t.copy()
    same(w, "copy", t, c, typed=False)
    ns, cs = nodes(t), nodes(c)
    for (p, a), (_, b) in zip(ns, cs):
        w.true("no node is shared", a is not b)
        w.true("no children are shared", a.children is not b.children)
    # changes of the copy do not reach the original and the other way round
    new = cn.Node(w.real("new"), {})
    for _, b in cs:
        b.add_child("added name", new)
    kept(w, cn, t, before)
    c = t.copy()
    cbefore = cn.flatten("", c)
    for _, a in ns:
        a.add_child("added name", new)
    kept(w, cn, c, cbefore)


def accumulating(w, shape, how):
    cn = w.m.containers
    if how == "list":
        t = tree(w, SHAPES[shape], lambda tag: (tag,))
        r = cn.accumulate(lambda a, b: a + b, t, ())
    elif how == "sum":
        t = tree(w, SHAPES[shape], reals(w))
        r = cn.accumulate(lambda a, b: a + b, t, 0)
    else:
        t = tree(w, SHAPES[shape], reals(w))
        r = cn.accumulate(lambda a, b: a * b, t, 1)
    before = nodes(t)
    got = nodes(r)
    w.eq("shape", len(got), len(before))
    for (p, a), (q, b) in zip(before, got):
        w.eq("path", path("", q), path("", p))
        vs = [n.value for _, n in nodes(a)]
        if how == "list":
            w.true("collects every descendant once", sorted(b.value) == sorted(x for v in vs for x in v))
        else:
            s = 0 if how == "sum" else 1
            for v in vs:
                s = s + v if how == "sum" else s * v
            w.eq("accumulated", b.value, s)


def accumulating_large(w, wide, tall):
    """Every level of a tall tree has many children."""
    cn = w.m.containers
    v = reals(w)
    t = cn.Node(v("leaf"), {})
    for d in range(tall):
        kids = {f"k{i}": cn.Node(v(f"{d} {i}"), {}) for i in range(wide)}
        kids[f"k{wide // 2}"] = t
        t = cn.Node(v(f"level {d}"), kids)
    before = cn.flatten("", t)
    r = cn.accumulate(lambda a, b: a + b, t, 0)
    for (p, a), (q, b) in zip(nodes(t), nodes(r), strict=True):
        w.eq("path", path("", q), path("", p))
        w.eq("accumulated", b.value, sum(n.value for _, n in nodes(a)))
    kept(w, cn, t, before)


def accumulating_from(w, n):
    """A leaf's value is combined with the initial one, whatever that is; the tree given stays as it was."""
    cn = w.m.containers
    x, y = w.real("x"), w.real("initial")
    r = cn.accumulate(lambda a, b: a + b, cn.Node(x, {}), y)
    w.eq("leaf", r.value, x + y)
    t = cn.Node(w.real("v"), {f"k{i}": cn.Node(w.real(f"v{i}"), {}) for i in range(n)})
    before = cn.flatten("", t)
    r = cn.accumulate(lambda a, b: a + b, t, y)
    for i in range(n):
        w.eq("leaf of a tree", r[f"k{i}"].value, t[f"k{i}"].value + y)
    kept(w, cn, t, before)


def prim(w, kind):
    P = w.m.primitives
    if kind == "point":
        return P.Point(w.vec("p"))
    if kind == "line":
        return P.Line(prims=(w.point("p"), w.point("q")))
    if kind.startswith("polygon"):
        n = int(kind.split()[1])
        return P.Polygon(None, [w.point(f"p{i}") for i in range(n)])
    if kind == "quad":
        return w.quad("q")
    if kind == "node":
        q = w.quad("q")
        return P.PrimitiveNode.from_tree(w.arr([]), {"Z": q, "B": w.point("p"), "A10": w.point("r"), "A9": w.line("l")})
    flags = [c == "1" for c in kind.split()[1]]
    x, y, tx, ty = flags
    n = (x + y + (x and tx) + (y and ty))
    ps = [w.quad("f")]
    for i in range(n):
        ps += [w.quad(f"a{i}"), w.point(f"l{i}")]
    return P.Axes(prims=tuple(ps), xaxis=x, yaxis=y, twinx=tx, twiny=ty)


def prims(w, kind):
    cn = w.m.containers
    t = prim(w, kind)
    got = check_flat(w, cn, "", t)
    back, left = cn.unflatten(got)
    w.eq("nothing left over", len(left), 0)
    same(w, "unflatten", t, back)
    w.true("jax can take it apart", not w.fails(lambda: jax.tree_util.tree_flatten(t)))
    leaves, treedef = jax.tree_util.tree_flatten(t)
    w.eq("every value is a leaf", len(leaves), len(nodes(t)))
    same(w, "pytree", t, jax.tree_util.tree_unflatten(treedef, leaves))
    # compiled functions need to know the tree's form
    w.true("the form can be looked up", not w.fails(lambda: hash(treedef)))
    w.true("the form is the same again", jax.tree_util.tree_structure(t) == treedef)
    same(w, "copy", t, t.copy(), typed=False)
    r = cn.map(lambda v: v.size, t)
    for (p, a), (q, b) in zip(nodes(t), nodes(r)):
        w.eq("map keeps paths", path("", q), path("", p))
        w.eq("map", b.value, a.value.size)
    r = cn.accumulate(lambda a, b: a + b, r, 0)
    for (_, a), (_, b) in zip(nodes(t), nodes(r)):
        w.eq("accumulate", b.value, sum(n.value.size for _, n in nodes(a)))


def cases(tier):
    out = []
    for s in SHAPES:
        for v in ("real", "mixed"):
            out.append(Case(f"flatten {s} {v}", flat, shape=s, vals=v))
            out.append(Case(f"pytree {s} {v}", pytree, shape=s, vals=v))
        out.append(Case(f"map {s}", mapping, shape=s))
        out.append(Case(f"map any values {s}", mapping_any, shape=s))
        out.append(Case(f"copy {s}", copying, shape=s))
        for how in ("sum", "product", "list"):
            out.append(Case(f"accumulate {s} {how}", accumulating, shape=s, how=how))
    for k in ["point", "line", "polygon 3", "polygon 4", "polygon 11", "polygon 12", "quad", "node"]:
        out.append(Case(f"primitive {k}", prims, kind=k))
    for i in range(16):
        b = f"{i:04b}"
        if (b[2] == "1" and b[0] == "0") or (b[3] == "1" and b[1] == "0"):
            continue
        out.append(Case(f"primitive axes {b}", prims, kind=f"axes {b}"))
    for n in (1, 3):
        out.append(Case(f"accumulate from {n}", accumulating_from, n=n))
    out.append(Case("accumulate large", accumulating_large, wide=40, tall=5))
    out.append(Case("accumulate tall", accumulating_large, wide=2, tall=12))
    return out
