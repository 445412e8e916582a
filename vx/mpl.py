"""Matplotlib objects for harnesses.

Symbolically, Figure/Axes/Axis/Bbox/Transform are recording stand-ins whose
geometry is symbolic (figure size, dpi, positions, affine transforms); in the
concrete replay they are real matplotlib objects (Agg).  Only the extent an
axis draws (`get_tightbbox`) is an input of the harness in both worlds.
"""
from __future__ import annotations

import numpy as np

from . import rec
from .core import Unsupported
from .rec import Recorder
from .hooks import _obj_array, sarr


def _nums(x):
    return list(_obj_array(x).ravel())


_REAL = {}


def _known(cls, name):
    """Whether matplotlib's own objects have the attribute (others are kept by the code under test)."""
    if not _REAL:
        from matplotlib.figure import Figure
        from matplotlib import patches
        fig = Figure()
        ax = fig.add_axes((0, 0, 1, 1))
        _REAL.update(FFigure=[fig], FAxes=[ax], FAxis=[ax.xaxis, ax.yaxis], FText=[ax.xaxis.label], FBbox=[ax.bbox, fig.bbox],
                     FTransform=[ax.transAxes, fig.dpi_scale_trans], FLine=ax.plot([0], [0]),
                     FPatch=[patches.Polygon([(0, 0), (1, 0), (0, 1)])])
    return cls not in _REAL or any(hasattr(o, name) for o in _REAL[cls])


class Fake(Recorder):
    def __getattr__(self, name):
        if name.startswith("__") or not _known(type(self).__name__, name):
            raise AttributeError(name)
        raise Unsupported(f"matplotlib model: {type(self).__name__}.{name}")


# ---- geometry ---------------------------------------------------------------

class FTransform(Fake):
    """Separable affine map, evaluated lazily: f() -> (ax, bx, ay, by)."""

    def __init__(self, f):
        self.f = f

    def transform(self, pts):
        a, b, c, d = self.f()
        p = _obj_array(pts)
        if p.ndim == 1:
            return sarr([a * p[0] + b, c * p[1] + d])
        return sarr([v for q in p for v in (a * q[0] + b, c * q[1] + d)], p.shape)

    transform_point = transform
    transform_affine = transform

    def transform_bbox(self, bb):
        return bb.transformed(self)

    def inverted(self):
        def g():
            a, b, c, d = self.f()
            return 1 / a, -b / a, 1 / c, -d / c
        v = g()
        return FTransform(lambda: v)

    def frozen(self):
        v = self.f()
        return FTransform(lambda: v)

    def __add__(self, o):
        def g():
            a, b, c, d = self.f()
            e, f, h, i = o.f()
            return e * a, e * b + f, h * c, h * d + i
        return FTransform(g)

    def __sub__(self, o):
        return self + o.inverted()


class FBbox(Fake):
    def __init__(self, x0, y0, x1, y1):
        self.x0, self.y0, self.x1, self.y1 = x0, y0, x1, y1

    xmin = property(lambda s: s._mm(s.x0, s.x1, True))
    xmax = property(lambda s: s._mm(s.x0, s.x1, False))
    ymin = property(lambda s: s._mm(s.y0, s.y1, True))
    ymax = property(lambda s: s._mm(s.y0, s.y1, False))
    width = property(lambda s: s.x1 - s.x0)
    height = property(lambda s: s.y1 - s.y0)
    size = property(lambda s: sarr([s.width, s.height]))
    p0 = property(lambda s: sarr([s.x0, s.y0]))
    p1 = property(lambda s: sarr([s.x1, s.y1]))
    min = property(lambda s: sarr([s.xmin, s.ymin]))
    max = property(lambda s: sarr([s.xmax, s.ymax]))
    intervalx = property(lambda s: sarr([s.x0, s.x1]))
    intervaly = property(lambda s: sarr([s.y0, s.y1]))
    bounds = property(lambda s: (s.x0, s.y0, s.width, s.height))
    extents = property(lambda s: sarr([s.x0, s.y0, s.x1, s.y1]))

    def _mm(self, a, b, lo):
        if bool(a <= b):
            return a if lo else b
        return b if lo else a

    def get_points(self):
        return sarr([self.x0, self.y0, self.x1, self.y1], (2, 2))

    def frozen(self):
        return self

    def transformed(self, t):
        a, b, c, d = t.f()
        return FBbox(a * self.x0 + b, c * self.y0 + d, a * self.x1 + b, c * self.y1 + d)

    def __iter__(self):
        return iter([[self.x0, self.y0], [self.x1, self.y1]])


def _bounds_to_bbox(x0, y0, w, h):
    return FBbox(x0, y0, x0 + w, y0 + h)


# ---- artists -------------------------------------------------------------------

class FText(Fake):
    def __init__(self):
        self.visible = True
        self.pos = None          # (x, y, transform)
        self.text = ""

    def get_visible(self):
        return self.visible

    def set_visible(self, v):
        self.visible = v

    def set(self, **k):
        for n, v in k.items():
            getattr(self, "set_" + n)(v)

    def get_text(self):
        return self.text

    def set_text(self, t):
        self.text = t

    def get_position(self):
        return (0, 0) if self.pos is None else self.pos[:2]

    def set_position(self, xy):
        x, y = _nums(xy)
        self.pos = (x, y, self.pos[2] if self.pos else None)

    def set_transform(self, t):
        p = self.pos or (0, 0, None)
        self.pos = (p[0], p[1], t)


class FAxis(Fake):
    def __init__(self, axes, which):
        from matplotlib.axis import XAxis, YAxis
        self.axes = axes
        self.which = which
        self.axis_name = which
        self.vx_types = (XAxis,) if which == "x" else (YAxis,)
        self.label = FText()
        self.ticks = "bottom" if which == "x" else "left"
        self.tight = lambda: None
        self.log = []
        self.locators = {}
        self.visible = True

    def get_visible(self):
        return self.visible

    def set_visible(self, v):
        self.visible = v

    def get_label_text(self):
        return self.label.text

    def set_label_text(self, t):
        self.label.text = t

    @property
    def figure(self):
        return self.axes.figure

    def get_figure(self, root=False):
        return self.axes.figure

    def get_label(self):
        return self.label

    def get_tightbbox(self, renderer=None, **k):
        if k:
            raise Unsupported("get_tightbbox options")
        return self.tight()

    def get_ticks_position(self):
        return self.ticks

    def set_ticks_position(self, p):
        ok = ("bottom", "top") if self.which == "x" else ("left", "right")
        if p not in ok + ("both", "default", "none"):
            raise ValueError(f"{p!r} is not a valid value for position")
        if p in ok:
            self.ticks = p
        elif p == "default":
            self.ticks = "default"
        else:
            self.ticks = "unknown"

    def tick_bottom(self):
        self.set_ticks_position("bottom")

    def tick_top(self):
        self.set_ticks_position("top")

    def tick_left(self):
        self.set_ticks_position("left")

    def tick_right(self):
        self.set_ticks_position("right")

    def set_label_coords(self, x, y, transform=None):
        self.label.pos = (x, y, self.axes.transAxes if transform is None else transform)

    def set_label_position(self, p):
        self.log.append(("label_position", p))

    def set_minor_locator(self, loc):
        self.locators["minor"] = loc

    def set_major_locator(self, loc):
        self.locators["major"] = loc

    def get_minor_locator(self):
        return self.locators["minor"]

    def get_major_locator(self):
        return self.locators["major"]


class FLine(Fake):
    pass


class FPatch(Fake):
    def __init__(self, verts, closed, kw):
        from matplotlib.patches import Polygon, Patch
        self.vx_types = (Polygon, Patch)
        self.verts, self.closed, self.kw = verts, closed, kw

    def set_alpha(self, a):
        self.kw["alpha"] = a


class FAxes(Fake):
    def __init__(self, fig, rect, **k):
        from matplotlib.axes import Axes
        self.vx_types = (Axes,)
        self.figure = fig
        self.fig = fig
        self.kw = k
        self.rect = self.orig = _as_rect(rect)
        self.loc = None
        self.visible = True
        self.xaxis, self.yaxis = FAxis(self, "x"), FAxis(self, "y")
        self.drawn = []
        self.aspect = "auto"
        self.positions = 0

        def ta():
            x, y, w, h = self.rect
            W, H = fig.size
            return w * W * fig.dpi, x * W * fig.dpi, h * H * fig.dpi, y * H * fig.dpi
        self.transAxes = FTransform(ta)

    def get_figure(self, root=False):
        return self.figure

    def get_position(self, original=False):
        if not original and self.loc is None:        # what apply_aspect does
            self.rect = self.orig
        return _bounds_to_bbox(*(self.orig if original else self.rect))

    @property
    def bbox(self):
        (x, y, w, h), (W, H), d = self.rect, self.fig.size, self.fig.dpi
        return _bounds_to_bbox(x * W * d, y * H * d, w * W * d, h * H * d)

    def get_window_extent(self, renderer=None):
        return self.bbox

    def get_visible(self):
        return self.visible

    def set_visible(self, v):
        self.visible = v

    def get_xaxis(self):
        return self.xaxis

    def get_yaxis(self):
        return self.yaxis

    def set_position(self, pos, which="both"):
        if which not in ("both", "active", "original"):
            raise ValueError(which)
        if which != "original":
            self.rect = _as_rect(pos)
        if which != "active":
            self.orig = _as_rect(pos)
        self.positions += 1

    def set(self, **k):
        for n, v in k.items():
            getattr(self, "set_" + n)(v)

    # drawing
    def plot(self, *a, **k):
        if len(a) not in (2, 3):
            raise Unsupported("plot arguments")
        self.drawn.append(("line", _nums(a[0]), _nums(a[1]), dict(k)))
        return [FLine()]

    def scatter(self, x, y, **k):
        for a, b in zip(_nums(x), _nums(y)):
            self.drawn.append(("line", [a], [b], dict(k)))

    def annotate(self, text, xy, **k):
        self.drawn.append(("text", text, _nums(xy), dict(k)))

    def text(self, x, y, s, **k):
        self.drawn.append(("text", s, [x, y], dict(k)))

    def add_patch(self, p):
        self.drawn.append(("patch", p.verts, p.closed, dict(p.kw)))
        return p

    def fill(self, x, y, **k):
        self.drawn.append(("patch", [[a, b] for a, b in zip(_nums(x), _nums(y))], True, dict(k)))

    def _nop(self, *a, **k):
        return None

    def set_aspect(self, a, **k):
        self.aspect = 1 if isinstance(a, str) and a == "equal" else a

    def get_aspect(self):
        return self.aspect

    grid = set_xlabel = set_ylabel = set_title = autoscale = autoscale_view = _nop
    set_xlim = set_ylim = margins = relim = add_artist = _nop

    def cla(self):
        raise Unsupported("cla")


def _as_rect(r):
    if isinstance(r, FBbox):
        return (r.x0, r.y0, r.width, r.height)
    v = _nums(r)
    if len(v) != 4:
        raise TypeError("rect needs four numbers")
    return tuple(v)


class FFigure(Fake):
    def __init__(self, size, dpi=100):
        from matplotlib.figure import Figure
        self.vx_types = (Figure,)
        self.size = tuple(_nums(size))
        self.dpi = dpi
        self.axes = []
        self.transFigure = FTransform(lambda: (self.size[0] * self.dpi, 0, self.size[1] * self.dpi, 0))
        self.dpi_scale_trans = FTransform(lambda: (self.dpi, 0, self.dpi, 0))
        self.transSubfigure = self.transFigure
        self.figure = self

    @property
    def bbox(self):
        return FBbox(0, 0, self.size[0] * self.dpi, self.size[1] * self.dpi)

    @property
    def bbox_inches(self):
        return FBbox(0, 0, self.size[0], self.size[1])

    def get_figure(self, root=False):
        return self

    def get_dpi(self):
        return self.dpi

    def get_size_inches(self):
        return sarr(list(self.size))

    def set_size_inches(self, w, h=None, forward=True):
        v = _nums(w) if h is None else [_nums(w)[0], _nums(h)[0]]
        if len(v) != 2:
            raise ValueError("size")
        for x in v:
            if not bool(x >= 0):
                raise ValueError("figure size must be positive finite")
        self.size = tuple(v)

    def get_figwidth(self):
        return self.size[0]

    def get_figheight(self):
        return self.size[1]

    def set_figwidth(self, w, forward=True):
        self.set_size_inches(w, self.size[1])

    def set_figheight(self, h, forward=True):
        self.set_size_inches(self.size[0], h)

    def add_axes(self, *a, **k):
        if len(a) != 1:
            raise Unsupported("add_axes arguments")
        ax = FAxes(self, a[0], **k)
        self.axes.append(ax)
        return ax

    def add_subplot(self, *a, **k):
        return self.add_axes((0.125, 0.11, 0.775, 0.77), **k)


# ---- registration --------------------------------------------------------------

FIGS = []


def install():
    from matplotlib import pyplot as plt
    from matplotlib import patches, transforms, figure

    def new_fig(f, args, kwargs):
        k = dict(kwargs)
        size = k.pop("figsize", None)
        a = list(args)
        if f is figure.Figure and a and size is None:
            size = a.pop(0)
        k.pop("num", None)
        dpi = k.pop("dpi", None) or 100
        if a or any(n not in ("layout",) or v is not None for n, v in k.items()):
            raise Unsupported("figure arguments")
        fig = FFigure((6.4, 4.8) if size is None else size, dpi)
        FIGS.append(fig)
        return fig
    rec.REG[plt.figure] = new_fig
    rec.REG[figure.Figure] = new_fig

    def subplots(f, args, kwargs):
        n = kwargs.get("nrows", args[0] if args else 1), kwargs.get("ncols", args[1] if len(args) > 1 else 1)
        if n != (1, 1):
            raise Unsupported("subplots grid")
        k = {x: v for x, v in kwargs.items() if x not in ("nrows", "ncols")}
        fig = new_fig(plt.figure, (), k)
        return fig, fig.add_subplot()
    rec.REG[plt.subplots] = subplots

    def polygon(f, args, kwargs):
        k = dict(kwargs)
        xy = k.pop("xy") if "xy" in k else args[0]
        closed = k.pop("closed", True)
        v = _obj_array(xy)
        return FPatch([list(r) for r in v], closed, k)
    rec.REG[patches.Polygon] = polygon
    rec.REG[transforms.Bbox.from_bounds] = lambda f, a, k: _bounds_to_bbox(*a)
    rec.REG[transforms.Bbox.from_extents] = lambda f, a, k: FBbox(*(a if len(a) == 4 else _nums(a[0])))
    rec.REG[transforms.Bbox] = lambda f, a, k: FBbox(*_nums(a[0]))
    rec.REG[transforms.TransformedBbox] = lambda f, a, k: a[0].transformed(a[1])


# ---- what harnesses use ------------------------------------------------------------

class Mpl:
    """Adapter: `Mpl(w)` gives the same queries in both worlds."""

    def __init__(self, w):
        self.w = w
        self.sym = w.symbolic
        if self.sym:
            install()
            FIGS.clear()

    def figure(self, width=1, height=1, dpi=100):
        if self.sym:
            return FFigure((width, height), dpi)
        import matplotlib.pyplot as plt
        return plt.figure(figsize=(float(width), float(height)), dpi=float(dpi))

    def add_axes(self, fig, rect=(0, 0, 1, 1)):
        if self.sym:
            return fig.add_axes(rect)
        return fig.add_axes([float(x) for x in rect])

    def move(self, ax, rect):
        """Draw the axes somewhere else than where it was put (as a fixed aspect does)."""
        if self.sym:
            ax.rect = ax.loc = _as_rect(rect)
        else:
            from matplotlib.transforms import Bbox
            box = Bbox.from_bounds(*[float(x) for x in rect])
            ax.set_axes_locator(lambda a, renderer: box)
            ax.set_position(box, which="active")

    @staticmethod
    def set_tight(axis, f):
        """f() -> None or (x0, y0, x1, y1) in pixels."""
        if isinstance(axis, FAxis):
            axis.tight = lambda: None if f() is None else FBbox(*f())
        else:
            from matplotlib.transforms import Bbox
            axis.get_tightbbox = lambda renderer=None, **k: None if f() is None else Bbox.from_extents(
                *[float(x) for x in f()])

    def set_ticks(self, axis, pos):
        if self.sym:
            axis.ticks = pos
        elif pos == "default":
            axis.set_ticks_position("default")
            axis.set_tick_params(which="both", **({"top": True, "bottom": True} if axis.axis_name == "x"
                                                  else {"left": True, "right": True}))
        elif pos == "unknown":
            axis.set_ticks_position("none")
        else:
            axis.set_ticks_position(pos)

    def size(self, fig):
        return list(fig.get_size_inches())

    def rect_inches(self, fig, ax):
        """(left, bottom, right, top) of the axes, in inches from the figure's corner."""
        W, H = self.size(fig)
        b = ax.get_position()
        return [b.x0 * W, b.y0 * H, b.x1 * W, b.y1 * H]

    def original_inches(self, fig, ax):
        W, H = self.size(fig)
        b = ax.get_position(original=True)
        return [b.x0 * W, b.y0 * H, b.x1 * W, b.y1 * H]

    def label_inches(self, fig, axis):
        """Label position in inches from the figure's corner, None when automatic."""
        if self.sym:
            p = axis.label.pos
            if p is None:
                return None
            q = p[2].transform([p[0], p[1]])
            return [q[0] / fig.dpi, q[1] / fig.dpi]
        if axis._autolabelpos:
            return None
        x, y = axis.label.get_transform().transform(axis.label.get_position())
        return [x / fig.dpi, y / fig.dpi]

    def axes_list(self, fig):
        return list(fig.axes)

    def new_axes(self):
        """A fresh axes to draw in."""
        if self.sym:
            f = FFigure((6.4, 4.8))
            return f.add_axes((0, 0, 1, 1))
        import matplotlib.pyplot as plt
        return plt.figure().add_axes((0, 0, 1, 1))

    def lines(self, ax):
        """[(xs, ys, alpha)] of what was plotted, in order."""
        if self.sym:
            return [(d[1], d[2], d[3].get("alpha", 1)) for d in ax.drawn if d[0] == "line"]
        out = [(list(l.get_xdata()), list(l.get_ydata()), 1 if l.get_alpha() is None else l.get_alpha())
               for l in ax.lines]
        for c in ax.collections:
            for x, y in c.get_offsets():
                out.append(([x], [y], 1 if c.get_alpha() is None else c.get_alpha()))
        return out

    def patches(self, ax):
        """[(vertices, alpha)] of the filled polygons, in order."""
        if self.sym:
            return [([list(v) for v in d[1]], d[3].get("alpha", 1)) for d in ax.drawn if d[0] == "patch"]
        out = []
        for p in ax.patches:
            xy = np.asarray(p.get_xy())
            if len(xy) > 1 and np.array_equal(xy[0], xy[-1]):
                xy = xy[:-1]
            out.append(([list(v) for v in xy], 1 if p.get_alpha() is None else p.get_alpha()))
        return out

    def texts(self, ax):
        """[(text, xy, rotation in degrees, alpha)]; xy is the annotated position."""
        if self.sym:
            return [("" if d[1] is None else d[1], d[2] if d[3].get("xycoords", "data") == "data" else None, d[3].get("rotation", 0), d[3].get("alpha", 1))
                    for d in ax.drawn if d[0] == "text"]
        return [(t.get_text(), list(getattr(t, "xy", t.get_position())) if getattr(t, "xycoords", "data") == "data" else None, t._rotation if hasattr(t, "_rotation") else t.get_rotation(),
                 1 if t.get_alpha() is None else t.get_alpha()) for t in ax.texts]
