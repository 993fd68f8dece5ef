"""C04: Wigner-Seitz cell, Brillouin zone and neighboring cells"""

import itertools

import numpy as np
import scipy.spatial
from hypothesis import strategies as st

import lattpy as lp
from vlib import gen
from vlib.core import Property, check
from vlib.ref import arr, expect_close

PROP = Property(
    "C04",
    [
        "points closer than 1e-6 (relative) to a face may be reported as inside or "
        "outside; corners of almost degenerate (strained) cells are exact to 2e-5",
        "bases of moderate skewness",
    ],
)
EPS = 1e-6


def lattice_points(vecs, radius):
    """All lattice points within the radius around the origin."""
    inv = np.linalg.inv(vecs)
    num = np.floor(radius * np.linalg.norm(inv, axis=0) + 1e-6).astype(int)
    n = np.array(list(itertools.product(*[range(-m, m + 1) for m in num])))
    p = n @ vecs
    mask = np.linalg.norm(p, axis=1) <= radius * (1 + 1e-9)
    return n[mask], p[mask]


def covering_radius_bound(vecs):
    return np.sum(np.linalg.norm(vecs, axis=1)) / 2


def depth(vecs, points):
    """Distance to the closest other lattice point minus distance to the origin."""
    points = np.atleast_2d(points)
    radius = 2 * np.max(np.linalg.norm(points, axis=1)) + 2 * covering_radius_bound(vecs)
    _, latt = lattice_points(vecs, radius)
    latt = latt[np.linalg.norm(latt, axis=1) > 1e-9]
    d0 = np.linalg.norm(points, axis=1)
    d1 = np.min(
        np.linalg.norm(points[:, None, :] - latt[None, :, :], axis=-1), axis=1
    )
    return d1 - d0


def reduced(vecs):
    """Bound for the extent of the cell relative to the vectors (skewness)."""
    norms = np.linalg.norm(vecs, axis=1)
    return np.prod(norms) / abs(np.linalg.det(vecs))


@st.composite
def bases(draw, max_dim):
    """Basis, sometimes strained: almost degenerate corners, faces and distances"""
    vecs = draw(gen.vectors(max_dim=max_dim, skew=1.5))
    if len(vecs) > 1 and draw(st.integers(0, 3)) == 0:
        small = st.sampled_from([0.0, 0.0, 2e-4, -4e-4, 1e-3, -3e-3, 7e-3, 0.02])
        strain = np.eye(len(vecs)) + [[draw(small) for _ in vecs] for _ in vecs]
        vecs = (np.array(vecs) @ strain).tolist()
        return vecs, True
    return vecs, False


@st.composite
def cases(draw):
    vecs, strained = draw(bases(3))
    dim = len(vecs)
    return {
        "vectors": vecs,
        "strained": strained,
        "cls": draw(st.sampled_from(["LatticeBasis", "LatticeStructure", "Lattice"])),
        "reciprocal": draw(st.sampled_from([False, False, True])),
        "min_negative": draw(st.booleans()),
        "points": draw(
            st.lists(gen.points(dim, -1.2, 1.2), min_size=1, max_size=12)
        ),
        "nums": [draw(st.integers(1, 5 if dim == 3 else 8)) for _ in range(dim)],
        "scalar": draw(st.booleans()),
        "offset": draw(st.sampled_from([0.0, 0.0, 0.1, 0.5, -0.25])),
        "endpoint": draw(st.booleans()),
        "check": draw(st.sampled_from([True, True, False])),
        "mode": draw(st.sampled_from(["nums", "steps"])),
    }


@PROP.sub(
    "cell",
    cases,
    2500,
    "random basis (or its reciprocal lattice), points and grid parameters; "
    "non-trivial: not orthogonal or anisotropic",
)
def cell(case, ctx):
    vecs = arr(case["vectors"])
    dim = len(vecs)
    latt = getattr(lp, case["cls"])(vecs.copy())
    if case["reciprocal"]:
        ws = latt.brillouin_zone(min_negative=case["min_negative"])
        vecs = 2 * np.pi * np.linalg.inv(vecs).T
    else:
        ws = latt.wigner_seitz_cell()
    norms = np.linalg.norm(vecs, axis=1)
    scale = np.max(norms)
    ctx.label(f"dim{dim}", "bz" if case["reciprocal"] else "ws")
    gram = vecs @ vecs.T
    ctx.nontrivial(dim > 1 and np.max(np.abs(gram - gram[0, 0] * np.eye(dim))) > 1e-9)
    # faces may be missing if they are within the tolerance of the library
    eps = (20 if case["strained"] else 1) * EPS * scale

    # corners
    verts = np.asarray(ws.vertices)
    check(verts.ndim == 2 and verts.shape[1] == dim, "shape of vertices")
    dep = depth(vecs, verts)
    check(np.max(np.abs(dep)) < eps, "vertex %s not on the boundary",
          verts[np.argmax(np.abs(dep))])
    volume = abs(np.linalg.det(vecs))
    if dim == 1:
        expect_close(np.sort(verts.ravel()), [-volume / 2, volume / 2], "vertices", 1e-7)
    else:
        # the corners are equidistant to lattice points in all directions
        _, pts = lattice_points(vecs, 2 * covering_radius_bound(vecs))
        for v in verts:
            d = np.linalg.norm(pts - v, axis=1)
            near = pts[d < np.linalg.norm(v) + eps]
            check(np.linalg.matrix_rank(near, tol=eps) == dim, "%s is no corner", v)
        hull = scipy.spatial.ConvexHull(verts)
        check(abs(hull.volume - volume) < 1e-5 * volume, "volume %s != %s", hull.volume,
              volume)

    # limits
    lo, hi = verts.min(axis=0), verts.max(axis=0)
    limits = np.c_[lo, hi]
    expect_close(ws.limits, limits, "limits")
    expect_close(ws.size, hi - lo, "size")

    # points
    points = arr(case["points"]) * (hi - lo) / 2
    dep = depth(vecs, points)
    got = np.asarray(ws.check(points))
    check(got.shape == (len(points),), "shape of check: %s", got.shape)
    for p, d, g in zip(points, dep, got):
        check(abs(d) < eps or bool(g) == (d > 0), "check(%s) = %s, depth %s", p, g, d)
        single = bool(ws.check(p))
        check(abs(d) < eps or single == (d > 0), "check(%s) = %s", p, single)
    ctx.label("inside" if np.any(dep > eps) else "none", "outside" if
              np.any(dep < -eps) else "all")

    # cell of the lattice points in any order
    _, pts = lattice_points(vecs, 2 * covering_radius_bound(vecs))
    if dim == 1:
        pts = pts[np.linalg.norm(pts, axis=1) < 1.5 * scale]
    if len(pts) < 400 and not case["strained"]:
        order = np.random.RandomState(len(points) + sum(case["nums"])).permutation(len(pts))
        kept = pts[order]
        other = lp.spatial.WignerSeitzCell(pts[order])
        check(np.array_equal(other.points, kept), "points of the cell")
        got = np.asarray(other.check(points))
        for p, d, g in zip(points, dep, got):
            check(abs(d) < eps or bool(g) == (d > 0), "cell of points: check(%s) = %s", p, g)
        expect_close(other.limits, limits, "limits of the cell of points", 1e-6)
        check(len(other.vertices) >= dim + 1, "vertices of the cell of points")
        if dim > 1:
            vol = scipy.spatial.ConvexHull(other.vertices).volume
            check(abs(vol - volume) < 1e-5 * volume, "volume of the cell of points")

    # ranges and grids
    off = case["offset"]
    lims = limits * (1 + off)
    nums = case["nums"]
    arg = nums[0] if case["scalar"] else nums
    full = [nums[0]] * dim if case["scalar"] else nums
    axes = [
        np.linspace(*lim, num=n, endpoint=case["endpoint"]) for lim, n in zip(lims, full)
    ]
    got = ws.linspace(arg, offset=off, endpoint=case["endpoint"])
    check(len(got) == dim, "linspace")
    for g, e in zip(got, axes):
        expect_close(g, e, "linspace")
    if case["mode"] == "steps":
        # steps that don't end at the limit
        steps = [(lim[1] - lim[0]) / (n + 0.37) for lim, n in zip(lims, full)]
        if case["scalar"]:
            steps = [max(steps)] * dim
        axes = [np.arange(*lim, step=s) for lim, s in zip(lims, steps)]
        arg = steps[0] if case["scalar"] else steps
        got = ws.arange(arg, offset=off)
        for g, e in zip(got, axes):
            if len(g) != len(e):
                ctx.discard("number of steps")
            expect_close(g, e, "arange")
        grid = ws.meshgrid(steps=arg, offset=off, check=case["check"])
    else:
        grid = ws.meshgrid(nums=arg, offset=off, check=case["check"],
                           endpoint=case["endpoint"])
    expected = np.array(np.meshgrid(*axes))
    check(grid.shape == expected.shape, "shape of grid")
    flat, exp = grid.reshape(dim, -1).T, expected.reshape(dim, -1).T
    dep = depth(vecs, exp)
    for g, e, d in zip(flat, exp, dep):
        masked = np.isnan(g)
        check(masked.all() or not masked.any(), "partially masked point %s", g)
        if not masked.any():
            expect_close(g, e, "grid point")
        if not case["check"]:
            check(not masked.any(), "masked point")
        elif abs(d) > eps:
            check(masked.any() == (d < 0), "point %s masked: %s", e, masked.any())
    try:
        ws.meshgrid()
    except ValueError:
        pass
    else:
        check(False, "meshgrid without points")
    expect_close(latt.vectors, case["vectors"], "basis changed")


def close_vertices(verts, eps):
    d = np.linalg.norm(verts[:, None] - verts[None], axis=-1)
    return np.any(d[np.triu_indices(len(verts), 1)] < eps)


@PROP.sub(
    "symmetry_points",
    cases,
    600,
    "high symmetry points of the cell of a random basis; non-trivial: more than one "
    "dimension",
)
def symmetry_points(case, ctx):
    vecs = arr(case["vectors"])
    dim = len(vecs)
    latt = getattr(lp, case["cls"])(vecs.copy())
    ws = latt.wigner_seitz_cell()
    origin, corners, edges, faces = ws.symmetry_points()
    verts = np.array(ws.vertices)
    eps = EPS * np.max(np.linalg.norm(vecs, axis=1))
    ctx.label(f"dim{dim}")
    expect_close(origin, np.zeros(dim), "origin")
    expect_close(corners, verts, "corners")
    corners += 1.0
    expect_close(ws.vertices, verts, "corners are not a copy")
    if dim == 1:
        return
    if case["strained"] or close_vertices(verts, 1e-3 * np.max(np.linalg.norm(vecs, axis=1))):
        ctx.discard("close vertices")
    ctx.nontrivial()
    _, pts = lattice_points(vecs, 2.01 * covering_radius_bound(vecs))
    pts = pts[np.linalg.norm(pts, axis=1) > eps]

    def tight(p):
        """Lattice points that define the faces containing p"""
        return pts[np.abs(pts @ p - (pts**2).sum(axis=1) / 2) < eps * np.abs(pts).max()]

    # faces of the cell: lattice points with enough corners on the bisecting plane
    normals = []
    for q in pts:
        on = verts[np.abs(verts @ q - q @ q / 2) < eps * np.abs(pts).max()]
        if len(on) >= dim and np.linalg.matrix_rank(on - on[0], tol=1e-4) == dim - 1:
            normals.append((q, on))
    if dim == 2:
        expected = [on.mean(axis=0) for q, on in normals]
        check(len(edges) == len(expected), "%s edges, expected %s", len(edges),
              len(expected))
        for e in expected:
            check(np.min(np.linalg.norm(edges - e, axis=1)) < eps * 10, "edge %s", e)
        check(faces is None, "faces in 2D")
    else:
        expected = [on.mean(axis=0) for q, on in normals]
        check(len(faces) == len(expected), "%s faces, expected %s", len(faces),
              len(expected))
        for e in expected:
            check(np.min(np.linalg.norm(faces - e, axis=1)) < eps * 10, "face %s", e)
        # every edge is shared by two faces and listed for each of them
        num = sum(len(on) for q, on in normals)
        check(len(edges) == num, "%s edges, expected %s", len(edges), num)
        for e in edges:
            near = tight(e)
            check(np.linalg.matrix_rank(near, tol=1e-4) >= 2, "%s on no edge", e)
            half = [
                1 for i, j in itertools.combinations(range(len(verts)), 2)
                if np.linalg.norm((verts[i] + verts[j]) / 2 - e) < eps * 10
            ]
            check(half, "%s is no center of two corners", e)


@st.composite
def shells(draw):
    return {
        "vectors": draw(bases(4))[0],
        "distidx": draw(st.integers(0, 6)),
        "origin": draw(st.booleans()),
        "compare": draw(st.sampled_from(["default", "default", "le"])),
    }


@PROP.sub(
    "neighbor_cells",
    shells,
    2500,
    "cells of a distance index of a random basis; non-trivial: index above 0 or basis "
    "that is not cubic",
)
def neighbor_cells(case, ctx):
    vecs = arr(case["vectors"])
    dim = len(vecs)
    idx = case["distidx"] if dim < 4 else min(case["distidx"], 2)
    latt = lp.LatticeBasis(vecs.copy())
    norm = np.min(np.linalg.norm(vecs, axis=1))
    n, p = lattice_points(vecs, (idx + 2) * norm)
    d = np.linalg.norm(p, axis=1)
    levels, close = [], False
    for x in np.sort(d[d > 1e-9]):
        # distances are equal or clearly distinct
        if not levels or x > levels[-1] * (1 + 1e-11):
            close |= bool(levels and x < levels[-1] * (1 + 1e-4))
            levels.append(x)
        if len(levels) > idx + 1:
            break
    levels = np.array(levels)
    if close:
        ctx.discard("close distances")
    gram = vecs @ vecs.T
    ctx.nontrivial(idx > 0 or np.max(np.abs(gram - gram[0, 0] * np.eye(dim))) > 1e-9)
    ctx.label(f"dim{dim}", f"distidx{idx}")
    zero = d <= 1e-9
    if case["compare"] == "le":
        expected = n[(d <= levels[idx] * (1 + 1e-5)) & ~zero]
        got = latt.get_neighbor_cells(
            idx, case["origin"], comparison=lambda x, y: np.less_equal(x, y + 1e-6)
        )
    else:
        expected = n[np.abs(d - levels[idx]) < 1e-5 * levels[idx]]
        got = latt.get_neighbor_cells(idx, include_origin=case["origin"])
    expected = {tuple(int(i) for i in row) for row in expected}
    if case["origin"]:
        expected.add((0,) * dim)
    got = np.asarray(got)
    rows = [tuple(int(round(i)) for i in row) for row in got]
    check(np.allclose(got, rows), "no integers: %s", got.tolist())
    check(len(rows) == len(set(rows)), "duplicate cells: %s", rows)
    check(set(rows) == expected, "cells %s, expected %s", sorted(rows), sorted(expected))
