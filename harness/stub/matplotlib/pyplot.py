"""Stand-in for matplotlib.pyplot that records what is drawn."""
import numpy as np

CURVES = []   # (axes, x or None, y, keywords)
SHOWN = [0]


class Anything(object):
    """Accepts every call."""

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        return Anything()

    def __call__(self, *a, **k):
        return Anything()


class Axes(Anything):
    def __init__(self, **k):
        self.labels = dict((n, k[n]) for n in ('xlabel', 'ylabel', 'title') if n in k)

    def set_xlabel(self, s, *a, **k):
        self.labels['xlabel'] = s

    def set_ylabel(self, s, *a, **k):
        self.labels['ylabel'] = s

    def set_title(self, s, *a, **k):
        self.labels['title'] = s

    def set(self, **k):
        self.labels.update((n, k[n]) for n in ('xlabel', 'ylabel', 'title') if n in k)

    def plot(self, *a, **k):
        data = [np.array(v, dtype=float) for v in a if not isinstance(v, str)]
        x, y = (data[0], data[1]) if len(data) > 1 else (None, data[0])
        CURVES.append((self, None if x is None else np.atleast_1d(x), np.atleast_1d(y), k))
        return [Anything()]


class Figure(Anything):
    def add_subplot(self, *a, **k):
        if len(a) == 3:
            rows, cols, at = a
            if not 1 <= at <= rows * cols:
                raise ValueError('num must be an integer with 1 <= num <= %d, not %d' % (rows * cols, at))
            k = dict(k, at=tuple(a))
        ax = Axes(**k)
        ax.at = k.get('at')
        return ax

    def subplots(self, nrows=1, ncols=1, squeeze=True, **k):
        g = np.empty((nrows, ncols), dtype=object)
        for i in range(nrows):
            for j in range(ncols):
                g[i, j] = self.add_subplot(nrows, ncols, i * ncols + j + 1)
        if not squeeze:
            return g
        return g[0, 0] if g.size == 1 else g.squeeze()


_current = [Axes()]


def reset():
    del CURVES[:]
    SHOWN[0] = 0
    _current[0] = Axes()


def figure(*a, **k):
    _current[0] = Axes()
    return Figure()


def subplots(nrows=1, ncols=1, **k):
    f = Figure()
    return f, f.subplots(nrows, ncols, **dict((n, k[n]) for n in ('squeeze',) if n in k))


def gca(*a, **k):
    return _current[0]


def plot(*a, **k):
    return _current[0].plot(*a, **k)


def xlabel(s, *a, **k):
    _current[0].set_xlabel(s)


def ylabel(s, *a, **k):
    _current[0].set_ylabel(s)


def title(s, *a, **k):
    _current[0].set_title(s)


def show(*a, **k):
    SHOWN[0] += 1


def figaspect(*a, **k):
    return (5.0, 5.0)


def __getattr__(name):
    if name.startswith('__'):
        raise AttributeError(name)
    return Anything()
