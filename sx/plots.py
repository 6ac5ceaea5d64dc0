"""Plotting: a recording stand-in for matplotlib (symbolic runs) and the reading of real figures
(concrete runs).  Both give the same description of a saved figure:

{"file": name, "lines": [(x values, y values, label)], "ylim": (low, high) or None,
 "images": [(rows of values from bottom to top, extent, (vmin, vmax))], "title": legend title}
"""
import os

from . import core

EXT = {".png", ".pdf", ".ps", ".eps", ".svg", ".svgz", ".jpg", ".jpeg", ".tif", ".tiff", ".webp", ".raw", ".rgba", ".pgf"}


def _list(v):
    import numpy as np

    a = np.asarray(v)
    return list(a.ravel())


class Axes:
    def __init__(self, fig):
        self.fig = fig
        self.lines, self.images, self._ylim, self._title = [], [], None, None

    def plot(self, *a, label=None, **k):
        a = [x for x in a]
        i = 0
        while i < len(a):
            if isinstance(a[i], str):
                i += 1
                continue
            if i + 1 < len(a) and not isinstance(a[i + 1], str):
                x, y = _list(a[i]), _list(a[i + 1])
                i += 2
            else:
                y = _list(a[i])
                x = list(range(len(y)))
                i += 1
            if len(x) != len(y):
                raise ValueError("x and y must have same first dimension")
            self.lines.append((x, y, label))
        return [Thing(self)]

    def imshow(self, data, *, origin="upper", extent=None, vmin=None, vmax=None, clim=None, **k):
        import numpy as np

        d = np.asarray(data)
        if d.ndim != 2:
            raise TypeError("Invalid shape for image data")
        rows = [list(r) for r in d]
        if origin != "lower":
            rows = rows[::-1]
        im = Image(self, rows, tuple(extent) if extent is not None else None, [vmin, vmax])
        self.images.append(im)
        return im

    def set_ylim(self, bottom=None, top=None, ymin=None, ymax=None, **k):
        import numpy as np

        if top is None and bottom is not None and np.iterable(bottom):
            bottom, top = bottom
        self._ylim = (bottom if bottom is not None else ymin, top if top is not None else ymax)

    def set(self, **k):
        if "ylim" in k:
            self.set_ylim(k["ylim"])

    def legend(self, *a, title=None, **k):
        self._title = title
        return Thing(self)

    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        if k in ("pcolormesh", "pcolor", "contour", "contourf", "matshow", "scatter", "step", "errorbar", "bar", "hist", "axis", "twinx", "invert_yaxis", "semilogy", "set_yscale"):
            raise core.EngineError("plotting with %s is not modelled" % k)
        return lambda *a, **kw: Thing(self)


class Image:
    def __init__(self, ax, rows, extent, clim):
        self.rows, self.extent, self.clim = rows, extent, clim

    def set_clim(self, vmin=None, vmax=None):
        if vmax is None and isinstance(vmin, (list, tuple)):
            vmin, vmax = vmin
        self.clim = [vmin if vmin is not None else self.clim[0], vmax if vmax is not None else self.clim[1]]

    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        return lambda *a, **kw: None


class Thing:
    """anything else: accepts every call"""

    def __init__(self, owner):
        self.__dict__["_owner"] = owner

    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        return Thing(self._owner)

    def __setattr__(self, k, v):
        pass

    def __call__(self, *a, **k):
        return Thing(self._owner)

    def __mul__(self, o):
        return self

    def __iter__(self):
        return iter(())

    def __getitem__(self, k):
        return self


class Figure:
    def __init__(self, plt):
        self._plt = plt
        self._axes = []

    def add_subplot(self, *a, **k):
        ax = Axes(self)
        self._axes.append(ax)
        return ax

    def add_axes(self, *a, **k):
        return self.add_subplot()

    def subplots(self, nrows=1, ncols=1, **k):
        if (nrows, ncols) != (1, 1):
            raise core.EngineError("several subplots are not modelled")
        return self.add_subplot()

    def gca(self, **k):
        return self._axes[-1] if self._axes else self.add_subplot()

    def colorbar(self, *a, **k):
        return Thing(self)

    def savefig(self, fname, *a, format=None, **k):
        if not isinstance(fname, (str, os.PathLike)):
            raise core.EngineError("figure saved to something that is no path")
        fname = str(fname)
        if format is None:
            ext = os.path.splitext(fname)[1].lower()
            if ext and ext not in EXT:
                raise ValueError("Format '%s' is not supported (supported formats: png, ...)" % ext[1:])
            if not ext:
                fname += ".png"
        self._plt._env.figs.append(self._record(fname))

    def _record(self, fname):
        d = {"file": fname, "lines": [], "ylim": None, "images": [], "title": None}
        for ax in self._axes:
            d["lines"] += ax.lines
            d["images"] += [(im.rows, im.extent, tuple(im.clim)) for im in ax.images]
            if ax._ylim is not None:
                d["ylim"] = ax._ylim
            d["title"] = ax._title if ax._title is not None else d["title"]
        return d

    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        return Thing(self)


class Pyplot:
    """module matplotlib.pyplot"""

    __name__ = "matplotlib.pyplot"

    def __init__(self, env):
        self._env = env
        self._cur = []

    def figure(self, num=None, *a, **k):
        f = Figure(self)
        self._cur.append(f)
        return f

    Figure = property(lambda self: Figure)

    def gcf(self):
        return self._cur[-1] if self._cur else self.figure()

    def gca(self, **k):
        return self.gcf().gca()

    def axes(self, *a, **k):
        return self.gcf().add_subplot()

    def subplot(self, *a, **k):
        return self.gcf().add_subplot()

    def subplots(self, nrows=1, ncols=1, **k):
        f = self.figure()
        return f, f.subplots(nrows, ncols)

    def sca(self, ax):
        pass

    def close(self, fig=None):
        if fig == "all":
            self._cur = []
        elif isinstance(fig, Figure):
            self._cur = [f for f in self._cur if f is not fig]
        elif fig is None and self._cur:
            self._cur.pop()

    def get_backend(self):
        return "agg"

    def savefig(self, *a, **k):
        return self.gcf().savefig(*a, **k)

    def ylim(self, *a, **k):
        return self.gca().set_ylim(*a, **k)

    def colorbar(self, *a, **k):
        return Thing(self)

    def clf(self):
        if self._cur:
            self._cur[-1]._axes = []

    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        if k in ("plot", "imshow", "legend", "pcolormesh", "contourf", "contour"):
            return getattr(self.gca(), k)
        return Thing(self)


# ---------------------------------------------------------------- real figures
def read(fig, fname):
    import numpy as np

    d = {"file": str(fname), "lines": [], "ylim": None, "images": [], "title": None}
    for ax in fig.axes:
        if ax.get_label() == "<colorbar>":
            continue
        for ln in ax.lines:
            d["lines"].append((list(np.asarray(ln.get_xdata(), dtype=float)), list(np.asarray(ln.get_ydata(), dtype=float)), ln.get_label()))
        for im in ax.images:
            rows = [list(r) for r in np.ma.filled(np.ma.asarray(im.get_array(), dtype=float), np.inf)]
            if im.origin != "lower":
                rows = rows[::-1]
            d["images"].append((rows, tuple(im.get_extent()), tuple(im.get_clim())))
        if ax.lines:
            d["ylim"] = ax.get_ylim()
        leg = ax.get_legend()
        if leg is not None:
            d["title"] = leg.get_title().get_text()
    return d
