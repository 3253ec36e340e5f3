"""Figures are records: file -> series drawn in it, in order."""
rcParams = {}
SAVED = []      # (file, [series of each axes])
_FIG = None


class _Quiet:
    """whatever only changes the look"""

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return lambda *a, **k: _Quiet()


class Axes:
    def __init__(self):
        self.series = []
        self.texts = {}

    def _add(self, kind, x, y, o, fmt=None):
        x, y = list(x), list(y)
        if len(x) != len(y):
            raise ValueError("x and y must have same first dimension, but have shapes (%d,) and (%d,)" % (len(x), len(y)))
        c = o.get("c", o.get("color"))
        if kind == "scatter" and c is not None and not isinstance(c, str) and len(c) != len(x):
            raise ValueError("'c' argument has %d elements, which is inconsistent with 'x' and 'y' with size %d." % (len(c), len(x)))
        self.series.append({"kind": kind, "x": x, "y": y, "colour": c if isinstance(c, str) or c is None else list(c), "label": o.get("label"), "fmt": fmt,
                            "yerr": o.get("yerr")})
        return _Quiet()

    def plot(self, *a, **o):
        a = list(a)
        out = []
        while a:
            x = a.pop(0)
            if a and not isinstance(a[0], str):
                y = a.pop(0)
            else:
                x, y = range(len(x)), x
            fmt = a.pop(0) if a and isinstance(a[0], str) else None
            out.append(self._add("plot", x, y, o, fmt))
        return out

    def scatter(self, x, y, s=None, c=None, **o):
        return self._add("scatter", x, y, dict(o, c=c))

    def errorbar(self, x, y, yerr=None, xerr=None, fmt="", **o):
        return self._add("errorbar", x, y, dict(o, yerr=yerr), fmt)

    def bar(self, x, y, *a, **o):
        return self._add("bar", x, y, o)

    def set_title(self, t, *a, **k):
        self.texts["title"] = t

    def set_xlabel(self, t, *a, **k):
        self.texts["x"] = t

    def set_ylabel(self, t, *a, **k):
        self.texts["y"] = t

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return getattr(_Quiet(), name)


class Figure:
    def __init__(self):
        self.axes = []

    def add_subplot(self, *a, **k):
        self.axes.append(Axes())
        return self.axes[-1]

    def savefig(self, file, *a, **k):
        SAVED.append((str(file), [list(x.series) for x in self.axes], [dict(x.texts) for x in self.axes]))

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return getattr(_Quiet(), name)


def figure(*a, **k):
    global _FIG
    _FIG = Figure()
    return _FIG


def gcf():
    return _FIG or figure()


def gca():
    f = gcf()
    return f.axes[-1] if f.axes else f.add_subplot()


def subplots(nrows=1, ncols=1, **k):
    import numpy
    f = figure()
    ax = [f.add_subplot() for _ in range(nrows * ncols)]
    if len(ax) == 1:
        return f, ax[0]
    if 1 in (nrows, ncols):
        out = numpy.empty(len(ax), dtype=object)
        out[:] = ax
        return f, out
    out = numpy.empty((nrows, ncols), dtype=object)
    for i in range(nrows):
        for j in range(ncols):
            out[i, j] = ax[i * ncols + j]
    return f, out


def savefig(file, *a, **k):
    gcf().savefig(file)


def clf(*a, **k):
    global _FIG
    if _FIG is not None:
        _FIG.axes = []


def close(*a, **k):
    global _FIG
    _FIG = None


def plot(*a, **o):
    return gca().plot(*a, **o)


def scatter(*a, **o):
    return gca().scatter(*a, **o)


def errorbar(*a, **o):
    return gca().errorbar(*a, **o)


def bar(*a, **o):
    return gca().bar(*a, **o)


def title(t, *a, **k):
    gca().set_title(t)


def xlabel(t, *a, **k):
    gca().set_xlabel(t)


def ylabel(t, *a, **k):
    gca().set_ylabel(t)


def __getattr__(name):
    if name.startswith("__"):
        raise AttributeError(name)
    return lambda *a, **k: _Quiet()
