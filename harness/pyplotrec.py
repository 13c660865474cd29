"""A stand-in for matplotlib which records what it is asked to draw (import it before pybinding)"""
import sys
import numpy as np
import stub_matplotlib

Anything = stub_matplotlib._Anything


def rgb(color):
    if isinstance(color, str):
        if color.startswith("#"):
            return tuple(int(color[i:i + 2], 16) / 255 for i in (1, 3, 5))
        names = dict(white=(1, 1, 1), black=(0, 0, 0), red=(1, 0, 0), green=(0, 0.5, 0), blue=(0, 0, 1))
        if color in names:
            return names[color]
        return (float(color),) * 3
    return tuple(color)[:3]


class Colors:
    to_rgb = staticmethod(rgb)

    @staticmethod
    def to_rgba_array(colors, alpha=None):
        return np.atleast_2d(np.asarray(colors))


class ListedColormap:
    def __init__(self, colors):
        self.colors = list(colors)


class BoundaryNorm:
    def __init__(self, boundaries, ncolors):
        self.boundaries, self.ncolors = np.asarray(boundaries, dtype=float), ncolors

    def index(self, values):
        return np.digitize(values, self.boundaries) - 1


class Collection:
    def __init__(self, **kwargs):
        self.kwargs = kwargs
        self._offsets = np.asarray(kwargs.get("offsets", np.zeros((0, 2))))
        self._A = None
        self._alpha = kwargs.get("alpha")
        self.linewidth = None
        self.facecolors = self.edgecolors = None

    def set_array(self, a):
        self._A = a

    def get_array(self):
        return self._A

    def set_linewidth(self, w):
        self.linewidth = w

    def get_offsets(self):
        return self._offsets

    def set_offsets(self, offsets):
        self._offsets = np.asarray(offsets)

    def update_scalarmappable(self):
        pass

    def get_facecolor(self):
        return np.ones((len(self._offsets), 4))

    get_edgecolor = get_facecolor

    def set_facecolors(self, v):
        self.facecolors = v

    def set_edgecolors(self, v):
        self.edgecolors = v

    def set_transform(self, t):
        pass

    def draw(self, renderer):
        self.drawn = True


class LineCollection(Collection):
    def __init__(self, lines, **kwargs):
        super().__init__(**kwargs)
        self.lines = np.asarray(lines, dtype=float)


class Line3DCollection(LineCollection):
    pass


class Callbacks:
    def __init__(self):
        self.connected = {}

    def connect(self, key, f):
        self.connected.setdefault(key, []).append(f)


class Spine:
    visible = True

    def set_visible(self, v):
        self.visible = v

    def set_smart_bounds(self, v):
        pass


class Axis:
    def __getattr__(self, key):
        if key.startswith("__"):
            raise AttributeError(key)
        return lambda *a, **k: None


class Obj:
    def __init__(self, **kw):
        self.__dict__.update(kw)


class Axes:
    def __init__(self, name="rectilinear"):
        self.name = name
        self.collections, self.patches, self.calls = [], [], []
        self.callbacks = Callbacks()
        self.lim = dict(x=(0.0, 1.0), y=(0.0, 1.0), z=(0.0, 1.0))
        self.transData = "data"
        self.spines = {k: Spine() for k in ("top", "right", "bottom", "left")}
        self.xaxis, self.yaxis = Axis(), Axis()
        self.aspect, self.bbox, self.viewLim = None, Obj(width=300.0, height=240.0), Obj(width=1.0, height=1.0)
        self.transLimits = Obj(transform=lambda p: (p[0], (p[1] - self.lim["y"][0]) / (self.lim["y"][1] - self.lim["y"][0])))

    def get_figure(self):
        return Obj(bbox_inches=Obj(width=4.0))

    def get_position(self):
        return Obj(width=0.8)

    def add_collection(self, col):
        col.axes = self
        self.collections.append(col)

    add_collection3d = add_collection

    def add_patch(self, patch):
        self.patches.append(patch)

    def has_data(self):
        return bool(self.collections)

    def auto_scale_xyz(self, x, y, z, had_data=None):
        for k, v in zip("xyz", (x, y, z)):
            lo, hi = float(np.min(v)), float(np.max(v))
            if had_data:
                lo, hi = min(lo, self.lim[k][0]), max(hi, self.lim[k][1])
            self.lim[k] = (lo, hi)

    def set_zmargin(self, m):
        pass

    def points(self):
        pts = []
        for col in self.collections:
            if isinstance(col, LineCollection):
                pts.append(col.lines.reshape(-1, col.lines.shape[-1])[:, :2])
            else:
                pts.append(np.asarray(col.get_offsets())[:, :2])
        return np.concatenate(pts) if pts else np.zeros((0, 2))

    def autoscale_view(self):
        if self.name == "3d":
            return
        pts = self.points()
        if len(pts):
            for i, k in enumerate("xy"):
                self._set(k, float(pts[:, i].min()), float(pts[:, i].max()))

    def _set(self, k, lo, hi):
        if lo == hi:
            lo, hi = lo - 0.05, hi + 0.05
        self.lim[k] = (lo, hi)
        for f in self.callbacks.connected.get(k + "lim_changed", []):
            f(self)

    def __getattr__(self, key):
        if key.startswith("__"):
            raise AttributeError(key)
        if key.startswith("get_") and key.endswith("lim"):
            return lambda: self.lim[key[4]]
        if key.startswith("set_") and key.endswith("lim"):
            return lambda lo, hi, **kw: self._set(key[4], lo, hi)
        if key.startswith("get_") and key.endswith("ticks"):
            return lambda: np.linspace(*self.lim[key[4]], 5)
        if key == "get_legend_handles_labels":
            return lambda: ([], [])

        def record(*args, **kwargs):
            self.calls.append((key, args, kwargs))
        return record


class Plt:
    """What pyplot was asked for"""
    def __init__(self):
        self.new()

    def new(self, name="rectilinear"):
        self.ax = Axes(name)
        self.calls = []
        self.shown = None
        return self.ax

    def of(self, name):
        return [(a, k) for n, a, k in self.calls if n == name]


REC = Plt()


def _xlim(*args, **kwargs):
    if args:
        REC.ax.set_xlim(*args)
        REC.calls.append(("xlim", args, kwargs))
    return REC.ax.lim["x"]


def _ylim(*args, **kwargs):
    if args:
        REC.ax.set_ylim(*args)
        REC.calls.append(("ylim", args, kwargs))
    return REC.ax.lim["y"]


def _recorder(name):
    def record(*args, **kwargs):
        REC.calls.append((name, args, kwargs))
        if name == "legend":
            return Obj(get_frame=lambda: Anything())
        if name == "tricontourf":
            return Obj(collections=[Anything()], args=args)
        return Obj(args=args, kwargs=kwargs)
    return record


def _polygon(xy, **kwargs):
    return Obj(xy=np.array(xy), kwargs=kwargs)


def install():
    plt = sys.modules["matplotlib.pyplot"]
    for name in ("plot", "scatter", "pcolormesh", "tripcolor", "tricontour", "tricontourf", "quiver", "annotate", "imshow",
                 "title", "xlabel", "ylabel", "xticks", "yticks", "axvline", "arrow", "axis", "legend", "sci", "colorbar"):
        setattr(plt, name, _recorder(name))
    plt.gca = lambda: REC.ax
    plt.xlim, plt.ylim, plt.Polygon = _xlim, _ylim, _polygon
    plt.MaxNLocator = lambda **kw: None
    col = sys.modules["matplotlib.collections"]
    col.Collection, col.LineCollection = Collection, LineCollection
    colors = sys.modules["matplotlib.colors"]
    colors.colorConverter, colors.ListedColormap, colors.BoundaryNorm = Colors, ListedColormap, BoundaryNorm
    art3d = sys.modules["mpl_toolkits.mplot3d.art3d"]
    art3d.Line3DCollection = Line3DCollection
    art3d.juggle_axes = lambda xs, ys, zs, zdir: (np.asarray(xs), np.asarray(ys), np.asarray(zs))
    art3d.zalpha = lambda colors, zs: np.asarray(colors)
    # looking along some direction: any invertible mapping will do
    sys.modules["mpl_toolkits.mplot3d.proj3d"].proj_transform_clip = lambda xs, ys, zs, M: tuple(M @ np.stack([xs, ys, zs])) + (None,)


install()
