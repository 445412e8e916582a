"""User-defined constructions the harnesses build trees from (only public extension points)."""
import numpy as np


def make(m):
    C, P = m.constructions, m.primitives

    class Inner(C.CompoundConstruction):
        """One own value (a scaled length), two children."""

        def __init__(self):
            super().__init__()

        @classmethod
        def init_children(cls):
            def child_params(params):
                n, s = params
                return ((), (n,))
            return (("XL", "DL"), (C.XLength(), C.DirectedLength()), (("arg0",), ("arg0",)), child_params)

        @classmethod
        def init_signature(cls):
            return C.ConstructionSignature((P.Line,), (np.ndarray, float), 1)

        @classmethod
        def assem(cls, prims, n, s):
            return s * C.YLength.assem(prims)

    class Outer(C.CompoundConstruction):
        """Two own values; a nested child; arguments used out of order."""

        def __init__(self):
            super().__init__()

        @classmethod
        def init_children(cls):
            def child_params(params):
                n, d, s = params
                return ((n, s), (d,))
            return (
                ("In", "DD"), (Inner(), C.DirectedDistance()),
                (("arg2",), ("arg1/Point1", "arg0")), child_params,
            )

        @classmethod
        def init_signature(cls):
            return C.ConstructionSignature(
                (P.Point, P.Line, P.Line), (np.ndarray, np.ndarray, float), 2)

        @classmethod
        def assem(cls, prims, n, d, s):
            return C.Coordinate.assem(prims[:1])

    class Swapped(C.CompoundConstruction):
        """Children take the arguments in reverse."""

        def __init__(self):
            super().__init__()

        @classmethod
        def init_children(cls):
            def child_params(params):
                return ((), ())
            return (
                ("A", "B"), (C.XDistance(), C.YDistance()),
                (("arg1", "arg0"), ("arg1", "arg0")), child_params,
            )

        @classmethod
        def init_signature(cls):
            return C.ConstructionSignature((P.Point, P.Point), (), 0)

        @classmethod
        def assem(cls, prims):
            return np.array(())

    class Rooted(C.CompoundConstruction):
        """A root value of size 1 over one child of size 2: total 3."""

        def __init__(self):
            super().__init__()

        @classmethod
        def init_children(cls):
            def child_params(params):
                return ((),)
            return (("P",), (C.Coordinate(),), (("arg0/Point1",),), child_params)

        @classmethod
        def init_signature(cls):
            return C.ConstructionSignature((P.Line,), (float,), 1)

        @classmethod
        def assem(cls, prims, s):
            return s * C.XLength.assem(prims)

    class Deep(C.CompoundConstruction):
        """No own value; Rooted nested two levels down, twice."""

        def __init__(self):
            super().__init__()

        @classmethod
        def init_children(cls):
            def child_params(params):
                s, n = params
                return ((s, n), (s,))
            return (("M", "R"), (Mid(), Rooted()), (("arg1", "arg0"), ("arg0",)), child_params)

        @classmethod
        def init_signature(cls):
            return C.ConstructionSignature((P.Line, P.Line), (float, np.ndarray), 0)

        @classmethod
        def assem(cls, prims, s, n):
            return np.array(())

    class Mid(C.CompoundConstruction):

        def __init__(self):
            super().__init__()

        @classmethod
        def init_children(cls):
            def child_params(params):
                s, n = params
                return ((s,), (n,), ())
            return (("R", "DL", "E"), (Rooted(), C.DirectedLength(), C.Coordinate()),
                    (("arg1",), ("arg0",), ("arg1/Point0",)), child_params)

        @classmethod
        def init_signature(cls):
            return C.ConstructionSignature((P.Line, P.Line), (float, np.ndarray), 0)

        @classmethod
        def assem(cls, prims, s, n):
            return np.array(())

    class Many(C.CompoundConstruction):
        """Ten parts of one line: more parts than primitives."""

        def __init__(self):
            super().__init__()

        @classmethod
        def init_children(cls):
            ks = ("XL", "YL", "C0", "C1", "DL")
            cs = (C.XLength(), C.YLength(), C.Coordinate(), C.Coordinate(), C.DirectedLength())
            ps = (("arg0",), ("arg0",), ("arg0/Point0",), ("arg0/Point1",), ("arg0",))

            def child_params(params):
                n, d = params
                return ((), (), (), (), (n,), (), (), (), (), (d,))
            return (tuple(k + t for t in "ab" for k in ks), cs + cs, ps + ps, child_params)

        @classmethod
        def init_signature(cls):
            return C.ConstructionSignature((P.Line,), (np.ndarray, np.ndarray), 0)

        @classmethod
        def assem(cls, prims, n, d):
            return np.array(())

    class Crossed(C.CompoundConstruction):
        """Takes groups whose parts are themselves named like arguments."""

        def __init__(self):
            super().__init__()

        @classmethod
        def init_children(cls):
            def child_params(params):
                n, s = params
                return ((n,), (), (n, s))
            return (("DD", "C", "In"), (C.DirectedDistance(), C.Coordinate(), Inner()),
                    (("arg0/arg0", "arg1/arg1"), ("arg0/arg1/arg0",), ("arg1/arg0",)), child_params)

        @classmethod
        def init_signature(cls):
            return C.ConstructionSignature((P.PrimitiveNode, P.PrimitiveNode), (np.ndarray, float), 0)

        @classmethod
        def assem(cls, prims, n, s):
            return np.array(())

    class Out:
        pass

    o = Out()
    o.Many, o.Crossed = Many, Crossed
    o.Inner, o.Outer, o.Swapped, o.Rooted, o.Deep, o.Mid = Inner, Outer, Swapped, Rooted, Deep, Mid
    return o


# operand name -> (construction, prims, params) with fresh inputs prefixed by `tag`
OPERANDS = ("Length", "Coordinate", "DirectedDistance", "PointToLine", "Width", "Margin", "Map",
            "Inner", "Outer", "Swapped", "Rooted", "Deep", "Partial", "Many", "Crossed")


def operand(w, name, tag):
    C, P = w.m.constructions, w.m.primitives
    S = make(w.m)
    ln = lambda k: w.line(tag + k)
    pt = lambda k: w.point(tag + k)
    vec = lambda k: w.vec(tag + k)
    if name == "Length":
        return C.Length(), (ln("l"),), ()
    if name == "Coordinate":
        return C.Coordinate(), (pt("p"),), ()
    if name == "XLength":
        return C.XLength(), (ln("l"),), ()
    if name == "DirectedDistance":
        return C.DirectedDistance(), (pt("p"), pt("q")), (vec("n"),)
    if name == "PointToLine":
        l = ln("l")
        w.nondegenerate(l)
        return C.PointToLineDistance(), (pt("p"), l), (w.bool(tag + "rev"),)
    if name == "Width":
        return C.Width(), (w.quad(tag + "q"),), ()
    if name == "Margin":
        return C.InnerMargin(side="top"), (w.quad(tag + "q"), w.quad(tag + "r")), ()
    if name == "Map":
        return (C.transform_map(C.DirectedDistance(), 3 * [P.Point]), (pt("p"), pt("q"), pt("r")),
                (vec("n"), vec("m")))
    if name == "Inner":
        return S.Inner(), (ln("l"),), (vec("n"), w.real(tag + "s"))
    if name == "Outer":
        return S.Outer(), (pt("p"), ln("l"), ln("k")), (vec("n"), vec("d"), w.real(tag + "s"))
    if name == "Swapped":
        return S.Swapped(), (pt("p"), pt("q")), ()
    if name == "Many":
        return S.Many(), (ln("l"),), (vec("n"), vec("d"))
    if name == "Crossed":
        g = lambda **k: P.PrimitiveNode.from_tree(np.array([]), k)
        a = g(arg0=pt("p"), arg1=g(arg0=pt("q"), arg1=pt("r")))
        b = g(arg1=pt("s"), arg0=ln("l"))
        return S.Crossed(), (a, b), (vec("n"), w.real(tag + "s"))
    if name == "Rooted":
        return S.Rooted(), (ln("l"),), (w.real(tag + "s"),)
    if name == "Deep":
        return S.Deep(), (ln("l"), ln("k")), (w.real(tag + "s"), vec("n"))
    if name == "Partial":
        return C.transform_partial(S.Inner(), w.real(tag + "s")), (ln("l"),), (vec("n"),)
    raise KeyError(name)
