"""Reads what is drawn on the axes of a plot."""

import contextlib

import numpy as np
from matplotlib.collections import LineCollection, PathCollection
from matplotlib.colors import to_rgba
from matplotlib.figure import Figure
from matplotlib.quiver import Quiver
from mpl_toolkits.mplot3d.art3d import Line3DCollection

from .core import check


@contextlib.contextmanager
def no_layout(enabled):
    """Skips the layout of the figures, which renders the whole figure."""
    orig = Figure.tight_layout
    if enabled:
        Figure.tight_layout = lambda self, *args, **kwargs: None
    try:
        yield
    finally:
        Figure.tight_layout = orig


def _color(colors, i):
    colors = np.atleast_2d(np.asarray(colors, float))
    if colors.size == 0:
        return None
    return tuple(colors[i % len(colors)][:3])


def rgb(color):
    return to_rgba(color)[:3]


def pad(points, dim):
    """Points of a 1D plot are drawn on the x-axis"""
    points = np.asarray(points, float).reshape(-1, dim)
    if dim == 1:
        points = np.c_[points, np.zeros(len(points))]
    return points


def segments(ax):
    """Line segments of the line collections: list of ((2, D) array, color)"""
    out = []
    for c in ax.collections:
        if isinstance(c, Line3DCollection):
            segs = c._segments3d
        elif isinstance(c, LineCollection):
            segs = c.get_segments()
        else:
            continue
        for k, s in enumerate(segs):
            s = np.asarray(s, float)
            for p, q in zip(s[:-1], s[1:]):
                out.append((np.array([p, q]), _color(c.get_colors(), k)))
    return out


def lines(ax):
    """Line segments of the lines of the axes"""
    out = []
    for line in ax.lines:
        if hasattr(line, "get_data_3d"):
            data = np.array([np.asarray(x, float) for x in line.get_data_3d()]).T
        else:
            data = np.array(line.get_data(), dtype=float).T
        for p, q in zip(data[:-1], data[1:]):
            out.append((np.array([p, q]), rgb(line.get_color())))
    return out


def sites(ax):
    """Drawn markers: list of (position, color, radius or None)"""
    out = []
    for c in ax.collections:
        if isinstance(c, (LineCollection, Line3DCollection, Quiver)):
            continue
        radius = getattr(c, "radius", None)
        if radius is None and not isinstance(c, PathCollection):
            continue
        if hasattr(c, "_offsets3d"):
            pos = np.array([np.asarray(x, float) for x in c._offsets3d]).T
        else:
            pos = np.ma.getdata(c.get_offsets()).astype(float)
        if radius is None:
            sizes = np.atleast_1d(c.get_sizes())
            if sizes.size and not np.any(sizes):
                continue  # invisible points
        for k, p in enumerate(pos):
            rad = None
            if radius is not None:
                rad = float(np.atleast_1d(radius)[k % np.size(radius)])
            out.append((p, _color(c.get_facecolor(), k), rad))
    return out


def arrows(ax):
    """Arrows of a 2D plot: list of (start, vector)"""
    out = []
    for c in ax.collections:
        if isinstance(c, Quiver):
            for p, u, v in zip(c.XY, np.atleast_1d(c.U), np.atleast_1d(c.V)):
                out.append((np.asarray(p, float), np.array([u, v], dtype=float)))
    return out


def texts(ax):
    out = []
    for t in ax.texts:
        if hasattr(t, "get_position_3d"):
            pos = np.array(t.get_position_3d(), dtype=float)
        else:
            pos = np.array(t.get_position(), dtype=float)
        out.append((t.get_text(), pos))
    return out


def match(got, want, what, tol, directed=False, exact=True):
    """Compares lists of (array, extra) in any order; segments in any direction."""
    if exact:
        check(len(got) == len(want), "%s: %s are drawn instead of %s", what, len(got),
              len(want))
    if not want:
        return
    a = np.array([np.ravel(g[0]) for g in got]).reshape(len(got), -1)
    used = np.zeros(len(got), dtype=bool)
    for w, extra in want:
        w = np.asarray(w, float)
        check(a.shape[1] == w.size, "%s: dimension of the plot", what)
        forms = [np.ravel(w)]
        if not directed and w.ndim == 2:
            forms.append(np.ravel(w[::-1]))
        close = np.zeros(len(got), dtype=bool)
        for f in forms:
            close |= np.max(np.abs(a - f), axis=1, initial=0) <= tol
        check(np.any(close & ~used), "%s %s is not drawn", what, w.tolist())
        if extra is not None:
            for k in np.nonzero(close & ~used)[0]:
                if got[k][1] is not None and np.allclose(got[k][1], extra, atol=1e-6):
                    break
            else:
                k = np.nonzero(close & ~used)[0][0]
                check(False, "%s %s: color %s != %s", what, w.tolist(), got[k][1], extra)
        else:
            k = np.nonzero(close & ~used)[0][0]
        used[k] = True


def unique(items, tol=1e-9):
    """Removes repeated segments (in any direction) or points"""
    out = []
    for arr, extra in items:
        arr = np.asarray(arr, float)
        scale = tol * (1 + np.max(np.abs(arr), initial=0))
        for other, _ in out:
            if np.max(np.abs(arr - other)) <= scale:
                break
            if arr.ndim == 2 and np.max(np.abs(arr[::-1] - other)) <= scale:
                break
        else:
            out.append((arr, extra))
    return out
