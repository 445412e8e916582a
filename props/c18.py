"""C18: slash-separated keys address tree nodes consistently."""
from vx.run import Case

BOUNDS = ("trees of up to 7 nodes and height up to 3 (10 shapes) and the library's primitive trees; every child name a "
          "symbolic string of 0 to 8 characters without '/' (possibly equal to names elsewhere in the tree); queried keys of "
          "1 to 4 symbolic components of 0 to 8 characters; all indices and slices over up to 4 "
          "children; histories of up to 3 modifications (4 in the thorough tier)")
ASSUMPTIONS = ["names of children do not contain '/'"]

# nested lists of children
SHAPES = {
    "leaf": [],
    "one": [[]],
    "two": [[], []],
    "three": [[], [], []],
    "chain2": [[[]]],
    "chain3": [[[[]]]],
    "left": [[[], []], []],
    "right": [[], [[]]],
    "comb": [[[]], [[]]],
    "bushy": [[[], [[]]], []],
}


class M:
    """What the tree should be: a node with its (name, M) children."""

    def __init__(self, node, kids):
        self.node, self.kids = node, kids

    def child(self, name):
        for k, m in self.kids:
            if bool(k == name):
                return m
        return None

    def walk(self, names):
        m = self
        for n in names:
            m = m.child(n)
            if m is None:
                return None
        return m

    def height(self):
        return 1 + max(m.height() for _, m in self.kids) if self.kids else 0


def tree(w, shape, tag="n", maxlen=8):
    N = w.m.containers.Node
    kids = []
    for i, s in enumerate(shape):
        kids.append((w.string(f"{tag}{i}", 0, maxlen), tree(w, s, f"{tag}{i}", maxlen)))
    w.distinct(*[k for k, _ in kids])
    return M(N(f"value {tag}", {k: m.node for k, m in kids}), kids)


def model(node):
    return M(node, [(k, model(c)) for k, c in node.children.items()])


def key_of(w, n, maxlen=8, tag="q"):
    names = [w.string(f"{tag}{i}", 0, maxlen) for i in range(n)]
    key = names[0]
    for x in names[1:]:
        key = key + "/" + x
    return names, key


def agrees(w, label, m):
    """The tree is exactly the model, in identity and order."""
    node = m.node
    ks = list(node.children.keys())
    w.eq(label + ": number of children", len(ks), len(m.kids))
    for k, (n, c) in zip(ks, m.kids):
        w.eq(label + ": names in order", k, n)
        w.true(label + ": child", node.children[n] is c.node)
        agrees(w, label, c)


def check_lookup(w, m, names, key):
    want = m.walk(names)
    if want is None:
        w.raises("missing key", lambda: m.node[key], KeyError)
        w.raises("missing key (get_child)", lambda: m.node.get_child(key), KeyError)
        w.eq("not a member", key in m.node, False)
    else:
        w.true("lookup", m.node[key] is want.node)
        w.true("lookup (get_child)", m.node.get_child(key) is want.node)
        w.eq("member", key in m.node, True)


def lookup(w, shape, n):
    m = tree(w, SHAPES[shape])
    names, key = key_of(w, n)
    check_lookup(w, m, names, key)
    agrees(w, "unchanged by lookup", m)


def lookup_prim(w, kind, n):
    P = w.m.primitives
    t = {"line": lambda: P.Line(), "quad": lambda: P.Quadrilateral(),
         "axes": lambda: P.Axes(xaxis=True, yaxis=False), "point": lambda: P.Point()}[kind]()
    m = model(t)
    names, key = key_of(w, n, 6)
    check_lookup(w, m, names, key)


def paths(w, shape):
    """Every path of the tree leads to its node."""
    m = tree(w, SHAPES[shape])

    def go(prefix, x):
        for k, c in x.kids:
            key = k if prefix is None else prefix + "/" + k
            w.true("path", m.node[key] is c.node)
            w.true("path is a member", key in m.node)
            go(key, c)
    go(None, m)


def do_add(w, m, names, key, tag):
    new = w.m.containers.Node(f"new {tag}", {})
    parent = m.walk(names[:-1])
    if parent is None or parent.child(names[-1]) is not None:
        w.raises("rejected", lambda: m.node.add_child(key, new), KeyError)
    else:
        m.node.add_child(key, new)
        parent.kids.append((names[-1], M(new, [])))


def do_set(w, m, names, key, tag):
    new = w.m.containers.Node(f"new {tag}", {})
    parent = m.walk(names[:-1])
    if parent is None or parent.child(names[-1]) is None:
        def f():
            m.node[key] = new
        w.raises("rejected", f, KeyError)
    else:
        m.node[key] = new
        parent.kids = [(k, M(new, []) if bool(k == names[-1]) else c) for k, c in parent.kids]


def add(w, shape, n):
    m = tree(w, SHAPES[shape])
    names, key = key_of(w, n)
    do_add(w, m, names, key, "x")
    agrees(w, "after adding", m)


def replace(w, shape, n):
    m = tree(w, SHAPES[shape])
    names, key = key_of(w, n)
    do_set(w, m, names, key, "x")
    agrees(w, "after setting", m)


def history(w, ops, n):
    """A sequence of additions and replacements, then a lookup."""
    m = tree(w, SHAPES["one"], maxlen=1)
    for i, op in enumerate(ops):
        names, key = key_of(w, n[i], 1, f"q{i}_")
        (do_add if op == "a" else do_set)(w, m, names, key, str(i))
    agrees(w, "after the history", m)
    names, key = key_of(w, n[-1], 1, "last")
    check_lookup(w, m, names, key)


def positions(w, shape):
    m = tree(w, SHAPES[shape])
    t = m.node
    n = len(m.kids)
    w.eq("length", len(t), n)
    w.eq("height", t.node_height(), m.height())
    ks = [k for k, _ in m.kids]
    ns = [c.node for _, c in m.kids]
    for label, got in (("iteration", list(t)), ("keys", list(t.keys())), ("items", [k for k, _ in t.items()])):
        w.eq(label + " count", len(got), n)
        for a, b in zip(got, ks):
            w.eq(label, a, b)
    for label, got in (("values", list(t.values())), ("item values", [v for _, v in t.items()])):
        w.eq(label + " count", len(got), n)
        for a, b in zip(got, ns):
            w.true(label, a is b)
    for i in range(-n, n):
        w.true("index", t[i] is ns[i])
    for i in (n, n + 1, -n - 1):
        w.raises("index out of range", lambda: t[i], IndexError)
    for a in (None, -1, 0, 1, 2):
        for b in (None, -1, 0, 1, 2, 9):
            for c in (None, 2, -1):
                got = t[a:b:c]
                want = ns[a:b:c]
                w.eq("slice length", len(got), len(want))
                for x, y in zip(got, want):
                    w.true("slice", x is y)
    w.raises("other key types", lambda: t[1.5], TypeError)
    for i in range(n):
        positions_of(w, ns[i], m.kids[i][1])


def positions_of(w, t, m):
    w.eq("inner length", len(t), len(m.kids))
    w.eq("inner height", t.node_height(), m.height())


def aliased(w, n):
    """The same node under several names."""
    N = w.m.containers.Node
    names = [w.string(f"n{i}", 0, 6) for i in range(n + 1)]
    w.distinct(*names)
    kid = N("kid", {"a": N("below", {})})
    other = N("kid", {})
    kids = [(k, kid if i != 1 else other) for i, k in enumerate(names)]
    t = N("top", dict(kids[:-1]))
    t.add_child(kids[-1][0], kids[-1][1])
    agrees(w, "aliases", M(t, [(k, model(c)) for k, c in kids]))
    w.eq("length", len(t), n + 1)
    w.eq("iteration", len(list(t)), n + 1)
    w.eq("items", len(list(t.items())), n + 1)
    w.eq("height", t.node_height(), 2)
    for i, (k, c) in enumerate(kids):
        w.true("by name", t[k] is c)
        w.true("by position", t[i] is c)
        w.true("member", k in t)
    new = N("new", {})
    t[names[0]] = new
    w.true("replaced", t[names[0]] is new)
    for k, c in kids[1:]:
        w.true("other names keep theirs", t[k] is c)
    names, key = key_of(w, 2)
    check_lookup(w, model(t), names, key)


def wide(w, n):
    """Many children, whose names are in no sorted order."""
    N = w.m.containers.Node
    names = [f"Line{i}" for i in range(n)] + [w.string("other", 1, 12), "A"]
    w.distinct("Line", *names)
    kids = [(k, M(N(k, {}), [])) for k in names]
    inner = M(N("inner", {k: m.node for k, m in kids}), list(kids))
    t = M(N("top", {}), [])
    for k, m in kids[::-1] + [("", inner)]:
        t.node.add_child(k, m.node)
        t.kids.append((k, m))
    agrees(w, "children", t)
    for k, m in kids:
        w.true("inner lookup", t.node["/" + k] is m.node)
    new = N("new", {})
    t.node["/Line1"] = new
    inner.kids[1] = ("Line1", M(new, []))
    late = N("late", {})
    t.node.add_child("/Line", late)
    inner.kids.append(("Line", M(late, [])))
    agrees(w, "after changes", t)
    for i, (k, m) in enumerate(inner.kids):
        w.true("position", inner.node[i] is m.node)
        w.true("from the end", inner.node[i - len(inner.kids)] is m.node)
    w.eq("length", len(inner.node), n + 3)


def handed_out(w, shape):
    """Changing the lists handed out does not change the tree."""
    m = tree(w, SHAPES[shape])
    t = m.node
    for f in (lambda: list(t), lambda: t.keys(), lambda: t.values(), lambda: t.items(), lambda: t[:], lambda: t[::-1]):
        got = f()
        for change in (lambda: got.reverse(), lambda: got.append("x"), lambda: got.clear()):
            try:
                change()
            except AttributeError:
                pass          # a view or a tuple
            w.eq("length", len(t), len(m.kids))
            for a, (k, c) in zip(list(t.keys()), m.kids):
                w.eq("names", a, k)
                w.true("by name", t[k] is c.node)
            for a, (k, c) in zip(t.values(), m.kids):
                w.true("values", a is c.node)
            for (a, b), (k, c) in zip(t.items(), m.kids):
                w.eq("item names", a, k)
                w.true("item values", b is c.node)
    agrees(w, "the tree", m)
    # nor is what was handed out a stale copy after changes
    t.keys(), t.values(), list(t)
    names, key = key_of(w, 1)
    do_add(w, m, names, key, "x")
    names, key = key_of(w, 1, tag="r")
    do_set(w, m, names, key, "y")
    agrees(w, "after changes", m)
    positions_of(w, t, m)
    for a, (k, c) in zip(list(t.values()), m.kids):
        w.true("values", a is c.node)
    for i, (k, c) in enumerate(m.kids):
        w.true("index", t[i] is c.node)


def cases(tier):
    th = tier == "thorough"
    out = []
    out.append(Case("wide", wide, n=12))
    for n in (2, 3):
        out.append(Case(f"same child {n}", aliased, n=n))
    for s in ("leaf", "two", "three", "bushy"):
        out.append(Case(f"lists handed out {s}", handed_out, shape=s))
    for s in SHAPES:
        out.append(Case(f"positions {s}", positions, shape=s))
        out.append(Case(f"paths {s}", paths, shape=s))
        for n in (1, 2, 3, 4) if th else (1, 2, 3):
            out.append(Case(f"lookup {s} {n}", lookup, shape=s, n=n))
            if n < 4:
                out.append(Case(f"add {s} {n}", add, shape=s, n=n))
                out.append(Case(f"set {s} {n}", replace, shape=s, n=n))
    out.append(Case("lookup chain3 4 components", lookup, shape="chain3", n=4))
    for k in ("point", "line", "quad", "axes"):
        for n in (1, 2, 3):
            out.append(Case(f"lookup in {k} {n}", lookup_prim, kind=k, n=n))
    hs = [("aa", (1, 1, 1)), ("as", (1, 1, 1)), ("sa", (1, 1, 1)), ("aa", (1, 2, 2)), ("as", (2, 1, 2)),
          ("ss", (1, 1, 1)), ("aas", (1, 1, 1, 1))]
    if th:
        hs += [("aas", (1, 2, 2, 2)), ("asa", (1, 1, 2, 2)), ("aaa", (1, 2, 2, 2)), ("aaa", (1, 2, 3, 3)),
               ("aasa", (1, 1, 1, 1, 1))]
    out += [Case(f"history {o} {n}", history, ops=o, n=n) for o, n in hs]
    return out
