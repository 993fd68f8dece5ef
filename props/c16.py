"""C16: shapes"""

import itertools

import numpy as np
from hypothesis import strategies as st

import lattpy as lp
from vlib import gen
from vlib.core import Property, check
from vlib.ref import arr, expect_close

PROP = Property(
    "C16",
    ["points closer than 1e-9 (relative) to the boundary are not judged, except points "
     "that are exactly on the faces of a box given by integers",
     "convex hulls are not flat"],
)

KINDS = ["box", "box", "basis", "basis", "circle", "donut", "hull", "hull"]


@st.composite
def shape_cases(draw, kinds=None):
    kind = draw(st.sampled_from(kinds or KINDS))
    dim = draw(st.sampled_from([1, 2, 2, 3, 3, 4]))
    if kind == "hull":
        dim = draw(st.sampled_from([2, 2, 3]))
    mag = draw(st.sampled_from([1, 1, 3, 100, 5000]))
    size = draw(st.sampled_from([1.0, 1.0, 0.25, 7.5, 300.0]))
    out = {"kind": kind, "dim": dim,
           "integer": draw(st.booleans()) and draw(st.booleans()),
           "tol": draw(st.sampled_from([None, None, 0.0, 1e-3, 0.1, 1e-6]))}
    pos = [mag * draw(gen.grid(-1, 1, 0.25)) for _ in range(dim)]
    out["pos"] = draw(st.sampled_from([pos, pos, None]))
    if kind in ("box", "basis"):
        if out["integer"]:
            out["size"] = [draw(st.integers(1, 6)) for _ in range(dim)]
            if out["pos"] is not None:
                out["pos"] = [int(round(x)) for x in pos]
        else:
            out["size"] = [size * draw(gen.grid(0.25, 4, 0.25)) for _ in range(dim)]
        out["scalar"] = dim == 1 and draw(st.booleans())
        if kind == "basis":
            out["vectors"] = draw(gen.vectors(dim=dim))
    elif kind == "hull":
        base = [[0.0] * dim]
        for i in range(dim):
            base.append([size * draw(gen.grid(0.5, 2, 0.25)) * (i == j) for j in range(dim)])
        num = draw(st.integers(0, 5))
        for _ in range(num):
            base.append([size * draw(gen.grid(-2, 2, 0.25)) for _ in range(dim)])
        base = draw(st.permutations(base))
        out["points"] = [[c + x for c, x in zip(pos, p)] for p in base]
    else:
        out["pos"] = pos
        out["radius"] = size * draw(gen.grid(0.25, 4, 0.25))
        if kind == "donut":
            out["inner"] = out["radius"] * draw(gen.grid(0, 1, 0.125))
    # points in the coordinates of the shape: fraction and offset in units of the tolerance
    out["queries"] = draw(
        st.lists(
            st.tuples(
                st.lists(
                    st.one_of(
                        st.sampled_from([0.0, 1.0, 0.5]),
                        gen.grid(-0.5, 1.5, 0.125),
                        gen.floats(-0.6, 1.6),
                    ),
                    min_size=dim, max_size=dim,
                ),
                st.lists(
                    st.sampled_from([0, 0, 0, 0.5, -0.5, 1.5, -1.5]), min_size=dim,
                    max_size=dim,
                ),
            ),
            min_size=1, max_size=12,
        )
    )
    out["form"] = draw(st.sampled_from(["array", "array", "list", "strided", "float32"]))
    return out


def faces(points):
    """Half spaces (n, c) with n.x <= c of the convex hull by enumeration"""
    dim = points.shape[1]
    out = []
    scale = np.ptp(points, axis=0).max()
    for ids in itertools.combinations(range(len(points)), dim):
        p = points[list(ids)]
        d = p[1:] - p[0]
        if dim == 2:
            n = np.array([d[0][1], -d[0][0]])
        else:
            n = np.cross(d[0], d[1])
        norm = np.linalg.norm(n)
        if norm < 1e-9 * scale ** (dim - 1):
            continue
        n = n / norm
        x = points @ n - p[0] @ n
        if np.all(x <= 1e-9 * scale):
            out.append((n, p[0] @ n))
        if np.all(x >= -1e-9 * scale):
            out.append((-n, -(p[0] @ n)))
    return np.array([n for n, _ in out]), np.array([c for _, c in out])


class Oracle:
    def __init__(self, case):
        self.case = case
        self.dim = case["dim"]
        self.kind = case["kind"]
        self.pos = np.zeros(self.dim) if case["pos"] is None else arr(case["pos"])
        if self.kind in ("box", "basis"):
            self.lo, self.hi = self.pos, self.pos + arr(case["size"])
            corners = np.array(list(itertools.product(*zip(self.lo, self.hi))))
            if self.kind == "basis":
                self.vecs = arr(case["vectors"])
                corners = corners @ self.vecs
        elif self.kind == "hull":
            corners = arr(case["points"])
            self.normals, self.consts = faces(corners)
        else:
            r = case["radius"]
            corners = np.array([self.pos - r, self.pos + r])
        self.low, self.high = corners.min(axis=0), corners.max(axis=0)

    def world(self, frac, offset):
        """Position of a query"""
        if self.kind in ("box", "basis"):
            c = self.lo + frac * (self.hi - self.lo) + offset
            return c @ self.vecs if self.kind == "basis" else c
        if self.kind == "hull":
            return self.low + frac * (self.high - self.low) + offset
        # direction and radius
        x = 2 * frac - 1
        r = np.linalg.norm(x)
        rad = self.case["radius"]
        if r == 0:
            return self.pos.copy()
        length = rad * min(r, 1.3) + offset[0]
        if frac[0] in (0.0, 1.0):
            length = rad + offset[0]
        elif frac[0] == 0.5:
            length = self.case.get("inner", rad) + offset[0]
        return self.pos + x / r * length

    def depth(self, p):
        """Distance to the boundary in the coordinates of the shape, negative outside"""
        if self.kind in ("box", "basis"):
            c = p if self.kind == "box" else p @ np.linalg.inv(self.vecs)
            return np.minimum(c - self.lo, self.hi - c).min(axis=1)
        if self.kind == "hull":
            return (self.consts - p @ self.normals.T).min(axis=1)
        r = np.linalg.norm(p - self.pos, axis=1)
        d = self.case["radius"] - r
        if self.kind == "donut":
            d = np.minimum(d, r - self.case["inner"])
        return d

    def make(self):
        case = self.case
        args, kw = [], {}
        if self.kind in ("box", "basis"):
            size = np.array(case["size"])
            args = [size]
            if case["pos"] is not None:
                args.append(np.array(case["pos"]))
            if self.kind == "basis":
                kw["basis"] = self.vecs.copy()
            shape = lp.Shape(case["size"][0] if case["scalar"] else args[0], *args[1:], **kw)
            arrays = args + list(kw.values())
        elif self.kind == "hull":
            pts = arr(case["points"])
            shape = lp.ConvexHull(pts.tolist())
            arrays = []
        else:
            pos = self.pos.copy()
            arrays = [pos]
            if self.kind == "circle":
                shape = lp.Circle(pos, case["radius"])
            else:
                shape = lp.Donut(pos, case["radius"], case["inner"])
        for x in arrays:
            x += 1  # the shape has its own copy
        return shape


@PROP.sub(
    "contains",
    shape_cases,
    6000,
    "shapes of all kinds in 1 to 4 dimensions and points inside, outside, on and close to "
    "the faces, judged by the geometric definition; non-trivial: points inside and outside "
    "of the shape were judged or a point next to the boundary",
)
def contains(case, ctx):
    ref = Oracle(case)
    shape = ref.make()
    dim, tol = case["dim"], case["tol"]
    check(shape.dim == dim, "dimension")
    ctx.label(case["kind"], "dim %d" % dim)
    default = {"donut": 1e-10, "hull": 1e-10}.get(case["kind"], 0.0)
    limit = default if tol is None else tol
    # limits
    lims = np.array(shape.limits())
    check(lims.shape == (dim, 2), "shape of the limits")
    expect_close(lims[:, 0], ref.low, "lower limits")
    expect_close(lims[:, 1], ref.high, "upper limits")
    points = np.array(
        [ref.world(arr(f), (tol or 1e-3) * arr(o)) for f, o in case["queries"]]
    )
    form = case["form"]
    arg = points.copy()
    if form == "list":
        arg = points.tolist()
    elif form == "strided":
        arg = np.asfortranarray(np.repeat(points, 2, axis=0))[::2]
    elif form == "float32":
        arg = points.astype(np.float32)
        points = arg.astype(float)
    backup = np.array(arg, copy=True)
    got = np.array(shape.contains(arg) if tol is None else shape.contains(arg, tol))
    check(got.shape == (len(points),) and got.dtype == bool, "mask %s", got)
    check(np.array_equal(np.asarray(arg), backup), "points changed")
    again = shape.contains(arg) if tol is None else shape.contains(arg, tol=tol)
    check(np.array_equal(got, again), "second query differs")
    depth = ref.depth(points)
    scale = 1 + np.abs(points).max() + np.abs(ref.low).max() + np.abs(ref.high).max()
    band = 1e-9 * scale
    if case["kind"] == "basis":
        band *= 1 + np.abs(np.linalg.inv(ref.vecs)).max()
    if form == "float32":
        band = 1e-5 * scale
    inside, outside = depth > -limit + band, depth < -limit - band
    bad = (inside & ~got) | (outside & got)
    check(not np.any(bad), "point %s: contained: %s, depth: %s, tolerance: %s",
          points[bad][:1].tolist(), got[bad][:1], depth[bad][:1], limit)
    near = np.any(np.abs(depth + limit)[inside | outside] < 0.2)
    ctx.nontrivial((inside.any() and outside.any()) or near)
    # points one by one
    for x, m, clear in zip(backup[:4], got, inside | outside):
        if not clear:
            continue  # on the boundary
        one = shape.contains(x[None, :]) if tol is None else shape.contains(x[None, :], tol)
        check(bool(one[0]) == bool(m), "single point")
    # contained points are within the limits
    p = points[got]
    if len(p) and case["kind"] != "basis":
        check(np.all(p >= lims[:, 0] - (limit + band) * 50)
              and np.all(p <= lims[:, 1] + (limit + band) * 50)
              or case["kind"] == "hull", "contained point outside the limits")
    if case["kind"] in ("box",) and case["integer"] and form in ("array", "list") and not limit:
        exact = np.all((points >= ref.lo) & (points <= ref.hi), axis=1)
        check(np.array_equal(exact, got), "points on the faces")
    # queries and changes of the results don't change the shape
    lims = shape.limits()
    lims += 1.5
    expect_close(np.array(shape.limits())[:, 0], ref.low, "limits changed")
    expect_close(np.array(shape.limits())[:, 1], ref.high, "limits changed")


@PROP.sub(
    "hull",
    lambda: shape_cases(["hull"]),
    800,
    "convex combinations of the points of a hull are inside; non-trivial: always",
)
def hull(case, ctx):
    ctx.nontrivial()
    pts = arr(case["points"])
    shape = lp.ConvexHull(pts)
    rng = np.random.RandomState(len(pts))
    w = rng.dirichlet(np.full(len(pts), 0.3), size=20)
    check(np.all(shape.contains(w @ pts, 1e-9 * (1 + np.abs(pts).max()))), "combination")
    check(np.all(shape.contains(pts, 1e-9 * (1 + np.abs(pts).max()))), "corner")
    far = pts.mean(axis=0) + 10 * (pts - pts.mean(axis=0)) + np.ptp(pts, axis=0).max() * 20
    check(not np.any(shape.contains(far)), "point far outside")
