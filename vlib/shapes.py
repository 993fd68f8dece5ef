"""Building shapes from their description and an independent containment oracle."""

import numpy as np
import scipy.spatial

from .core import Discard
from .ref import arr

BAND = 2e-3  # documented tolerance (1e-3) of sites at the boundary


def custom_class(lp):
    """User-defined shapes"""

    class Custom(lp.shape.AbstractShape):
        def __init__(self, kind, center, radius):
            super().__init__(len(center), center)
            self.kind = kind
            self.radius = radius

        def limits(self):
            r = np.full(self.dim, self.radius)
            return np.array([self.pos - r, self.pos + r]).T

        def contains(self, points, tol=0.0):
            return custom_depth(self.kind, points - self.pos, self.radius) >= -tol

        def plot(self, ax, color="k", lw=0.0, alpha=0.2, **kwargs):
            pass

    return Custom


def custom_depth(kind, x, radius):
    if kind == "diamond":
        return radius - np.abs(x).sum(axis=1)
    if kind == "ellipsoid":
        scale = np.ones(x.shape[1])
        scale[0] = 2.0
        return radius - np.sqrt(((x * scale) ** 2).sum(axis=1))
    # union of two boxes
    a = radius - np.abs(x).max(axis=1)
    cut = np.minimum(x[:, 0] - 0.2 * radius, x[:, 1] - 0.2 * radius)
    return np.minimum(a, -cut)


def make_shape(lp, spec, vectors):
    """Returns shape and keyword arguments for build"""
    kind = spec["kind"]
    pos = spec["pos"]
    if kind == "tuple":
        size = spec["size"]
        if spec.get("scalar"):
            size = size[0]
        else:
            size = tuple(size)
        return size, dict(primitive=spec["primitive"], pos=pos)
    if kind == "box":
        shape = lp.Shape(spec["size"], pos)
    elif kind == "bbox":
        shape = lp.Shape(spec["size"], pos, basis=arr(vectors))
    elif kind == "circle":
        shape = lp.Circle(spec["center"], spec["radius"])
    elif kind == "donut":
        shape = lp.Donut(spec["center"], spec["radius"], spec["inner"])
    elif kind == "hull":
        shape = lp.ConvexHull(spec["points"])
    else:
        shape = custom_class(lp)(spec["custom"], spec["center"], spec["radius"])
    return shape, dict(primitive=spec.get("flag", False))


class ShapeRef:
    """Geometric definition of a shape"""

    def __init__(self, spec, vectors):
        self.spec = spec
        self.vecs = arr(vectors)
        dim = len(self.vecs)
        self.dim = dim
        self.kind = spec["kind"]
        self.prim = spec["primitive"] or self.kind == "bbox"
        if self.kind in ("tuple", "box", "bbox"):
            lo = np.zeros(dim) if spec["pos"] is None else arr(spec["pos"])
            hi = lo + arr(spec["size"])
            self.lo, self.hi = lo, hi
            if self.prim:
                import itertools

                corners = np.array(list(itertools.product(*zip(lo, hi)))) @ self.vecs
                self.limits = corners.min(axis=0), corners.max(axis=0)
            else:
                self.limits = lo, hi
        elif self.kind == "hull":
            pts = arr(spec["points"])
            self.hull = scipy.spatial.ConvexHull(pts)
            self.limits = pts.min(axis=0), pts.max(axis=0)
        else:
            c, r = arr(spec["center"]), spec["radius"]
            self.limits = c - r, c + r

    def depths(self, p):
        """(lower, upper): signed depth, upper only differs for boxes"""
        if self.kind in ("tuple", "box", "bbox"):
            c = p @ np.linalg.inv(self.vecs) if self.prim else p
            return (c - self.lo).min(axis=1), (self.hi - c).min(axis=1)
        if self.kind == "hull":
            eq = self.hull.equations
            d = -(p @ eq[:, :-1].T + eq[:, -1]).max(axis=1)
        elif self.kind == "circle":
            d = self.spec["radius"] - np.linalg.norm(p - arr(self.spec["center"]), axis=1)
        elif self.kind == "donut":
            r = np.linalg.norm(p - arr(self.spec["center"]), axis=1)
            d = np.minimum(self.spec["radius"] - r, r - self.spec["inner"])
        else:
            d = custom_depth(
                self.spec["custom"], p - arr(self.spec["center"]), self.spec["radius"]
            )
        return d, d

    def expected(self, ref):
        """Indices and positions of sites that have to be and that may be inside."""
        pad = 0.02 * max(1.0, np.linalg.norm(self.vecs, axis=1).max())
        ind, pos = ref.sites_in_box(self.limits[0] - pad, self.limits[1] + pad)
        low, up = self.depths(pos)
        depth = np.minimum(low, up)
        may = depth > -BAND
        must = depth > -1e-4
        if self.spec["primitive"] and self.kind == "tuple":
            # the upper faces of a box of whole cells can be open
            must = (low > -1e-4) & (up > 0.02)
        if may.sum() > 6000:
            raise Discard("too many sites")
        return ind, pos, must, may


def make_callback(kind):
    if kind is None:
        return None

    def callback(indices, positions):
        if kind == "alpha":
            return np.asarray(indices)[:, -1] == 0
        if kind == "half":
            x = np.asarray(positions)[:, 0]
            return x <= np.floor(x.max() * 0.5 + x.min() * 0.5) + 0.1234567
        mask = np.asarray(indices)[:, :-1].astype(int).sum(axis=1) % 2 == 0
        return mask

    return callback


def callback_mask(kind, ind, pos, must, may):
    """Expected effect of the callback, None if it depends on optional sites."""
    if kind == "alpha":
        return ind[:, -1] == 0
    if kind in ("parity", "list"):
        return ind[:, :-1].sum(axis=1) % 2 == 0
    return None
