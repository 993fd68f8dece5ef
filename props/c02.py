"""C02: geometry of the basis and named constructors"""

import math

import numpy as np
from hypothesis import strategies as st

import lattpy as lp
from vlib import gen
from vlib.core import Property, check
from vlib.ref import arr, expect_close

PROP = Property("C02", ["floating point: relative tolerance 1e-9"])
CLS = ["LatticeBasis", "LatticeStructure", "Lattice"]


@st.composite
def bases(draw):
    return {
        "vectors": draw(gen.vectors(max_dim=6, step=0.05, skew=2.0)),
        "form": draw(st.sampled_from(["list", "array", "F", "tuple", "basis", "i32"])),
        "cls": draw(st.sampled_from(CLS)),
    }


@PROP.sub(
    "geometry",
    bases,
    4000,
    "random basis; non-trivial: not the unit matrix and more than one dimension",
)
def geometry(case, ctx):
    rows = case["vectors"]
    vecs = arr(rows)
    dim = len(vecs)
    ctx.nontrivial(dim > 1 and not np.array_equal(vecs, np.eye(dim)))
    ctx.label(f"dim{dim}", case["form"], "left" if np.linalg.det(vecs) < 0 else "right")
    passed = None
    if case["form"] == "list":
        arg = [list(r) for r in rows]
    elif case["form"] == "tuple":
        arg = tuple(tuple(r) for r in rows)
    elif case["form"] == "basis":
        other = lp.LatticeBasis(np.array(rows))
        arg = other
    else:
        arg = passed = np.array(rows, order="F" if case["form"] == "F" else "C")
        if case["form"] == "i32" and np.issubdtype(arg.dtype, np.integer):
            arg = passed = arg.astype(np.int32)
    latt = getattr(lp, case["cls"])(arg)
    for _ in range(2):
        check(latt.dim == dim, "dim")
        check(latt.vectors.shape == (dim, dim), "shape of vectors")
        expect_close(latt.vectors, vecs, "vectors")
        expect_close(latt.norms, np.sqrt((vecs**2).sum(axis=1)), "norms")
        expect_close(latt.cell_volume, abs(np.linalg.det(vecs)), "volume", 1e-8)
        corners = np.append(vecs, np.zeros((1, dim)), axis=0)
        size = corners.max(axis=0) - corners.min(axis=0)
        expect_close(latt.cell_size, size, "cell size")
        if dim <= 3:
            expected = np.eye(3)
            expected[:dim, :dim] = vecs
            expect_close(latt.vectors3d, expected, "vectors3d")
        # later changes of the passed data
        if passed is not None:
            passed[:] = 7 + np.arange(dim * dim).reshape(dim, dim) % 3
        elif case["form"] == "list":
            for r in arg:
                r[:] = [9.0] * dim
    n = np.arange(1, dim + 1)
    expect_close(latt.transform(n), n @ vecs, "transform after changing the argument")
    # functions of the same name
    expect_close(lp.cell_volume(vecs), abs(np.linalg.det(vecs)), "cell_volume", 1e-8)
    expect_close(lp.cell_size(vecs), size, "cell_size")
    expect_close(lp.cell_volume(vecs.tolist()), abs(np.linalg.det(vecs)), "cell_volume", 1e-8)
    expect_close(lp.cell_size(vecs.tolist()), size, "cell_size")
    if case["form"] == "basis":
        expect_close(other.vectors, vecs, "copied basis")


@st.composite
def constructors(draw):
    const = st.one_of(gen.floats(0.05, 20.0), st.sampled_from([1, 2, 3, 1.0]))
    return {
        "name": draw(
            st.sampled_from(
                "chain square rectangular oblique hexagonal hexagonal3d sc fcc bcc "
                "hypercubic".split()
            )
        ),
        "cls": draw(st.sampled_from(CLS)),
        "a": draw(const),
        "b": draw(const),
        "angle": draw(gen.floats(0.1, math.pi - 0.1)),
        "sign": draw(st.sampled_from([1, 1, -1])),
        "dim": draw(st.integers(1, 5)),
        "default": draw(st.sampled_from([False, False, False, True])),
        "kw": draw(st.booleans()),
    }


def documented_vectors(name, a, b, angle, dim):
    s3 = math.sqrt(3)
    if name == "chain":
        return [[a]]
    if name == "square":
        return [[a, 0], [0, a]]
    if name == "rectangular":
        return [[a, 0], [0, b]]
    if name == "oblique":
        return [[a, 0], [b * math.cos(angle), b * math.sin(angle)]]
    if name == "hexagonal":
        return [[1.5 * a, s3 / 2 * a], [1.5 * a, -s3 / 2 * a]]
    if name == "hexagonal3d":
        return [
            [1.5 * a, s3 / 2 * a, 0], [1.5 * a, -s3 / 2 * a, 0], [0, 0, a * b / 2]
        ]
    if name == "sc":
        return a * np.eye(3)
    if name == "fcc":
        return a / 2 * arr([[1, 1, 0], [1, 0, 1], [0, 1, 1]])
    if name == "bcc":
        return a / 2 * arr([[1, 1, 1], [1, -1, 1], [-1, 1, 1]])
    return a * np.eye(dim)


@PROP.sub(
    "constructors",
    constructors,
    4000,
    "named constructors with random constants; non-trivial: constants other than 1",
)
def named(case, ctx):
    name, a, b = case["name"], case["a"], case["b"]
    angle = case["sign"] * case["angle"]
    func = getattr(getattr(lp, case["cls"]), name)
    ctx.label(name)
    args = {"rectangular": ["a1", "a2"], "oblique": ["a1", "a2"],
            "hexagonal3d": ["a", "az"]}.get(name, ["a"])
    values = [a, b][: len(args)]
    lead = [angle] if name == "oblique" else [case["dim"]] if name == "hypercubic" else []
    if case["default"]:
        values = [1.0] * len(values)
        latt = func(*lead)
        a = b = 1.0
    elif case["kw"]:
        latt = func(*lead, **dict(zip(args, values)))
    else:
        latt = func(*lead, *values)
    ctx.nontrivial(a != 1)
    expected = arr(documented_vectors(name, a, b, angle, case["dim"]))
    check(latt.dim == len(expected), "dimension of %s", name)
    expect_close(latt.vectors, expected, f"vectors of {name}")
    expect_close(latt.cell_volume, abs(np.linalg.det(expected)), "volume", 1e-8)
    check(type(latt) is getattr(lp, case["cls"]), "type of %s", name)


@st.composite
def cells(draw):
    length = gen.floats(0.1, 20.0)
    deg = st.one_of(gen.floats(30.0, 150.0), st.sampled_from([60.0, 90.0, 120.0, 90.0]))
    return {
        "dim": draw(st.sampled_from([1, 2, 3, 3])),
        "lengths": [draw(length) for _ in range(3)],
        "angles": [draw(deg) for _ in range(3)],
        "decimals": draw(st.sampled_from([0, 0, 3, 8])),
    }


@PROP.sub(
    "cells",
    cells,
    3000,
    "vectors from lengths and angles; non-trivial: at least one angle is not 90 degrees",
)
def cell(case, ctx):
    a, b, c = case["lengths"]
    al, be, ga = np.deg2rad(case["angles"])
    dec = case["decimals"]
    ctx.label(f"dim{case['dim']}")
    tol = 1e-8 if not dec else 1e-8 + 0.5 * 10.0**-dec
    if case["dim"] == 1:
        got = arr(lp.spatial.compute_vectors(a, decimals=dec)).ravel()
        check(got.size == 1 and abs(got[0] - a) <= tol, "vector %s of length %s", got, a)
        return
    if case["dim"] == 2:
        got = arr(lp.spatial.compute_vectors(a, b, alpha=case["angles"][0],
                                             decimals=dec))
        expected = arr([[a, 0], [b * np.cos(al), b * np.sin(al)]])
        ctx.nontrivial(case["angles"][0] != 90)
        check(got.shape == (2, 2), "shape")
        check(np.max(np.abs(got - expected)) <= tol, "vectors %s", got)
        return
    ca, cb, cg = np.cos([al, be, ga])
    det = 1 - ca**2 - cb**2 - cg**2 + 2 * ca * cb * cg
    if det < 0.02:
        ctx.discard("no such cell")
    ctx.nontrivial(any(x != 90 for x in case["angles"]))
    got = arr(lp.spatial.compute_vectors(a, b, c, *case["angles"], decimals=dec))
    check(got.shape == (3, 3), "shape")
    exact = arr(lp.spatial.compute_vectors(a, b, c, *case["angles"]))
    check(np.max(np.abs(got - exact)) <= tol, "rounded vectors %s", got)
    v1, v2, v3 = got
    big = 1e-7 if not dec else 4 * 0.5 * 10.0**-dec + 1e-7
    for v, length in zip(got, (a, b, c)):
        check(abs(np.linalg.norm(v) - length) <= big, "length of %s", v)
    for x, y, lx, ly, cosine in (
        (v1, v2, a, b, cg), (v1, v3, a, c, cb), (v2, v3, b, c, ca)
    ):
        check(
            abs(x @ y - lx * ly * cosine) <= big * (1 + lx + ly) * 2,
            "angle between %s and %s", x, y,
        )
    check(abs(v1[1]) <= tol and abs(v1[2]) <= tol, "a along x")
    check(abs(v2[2]) <= tol and v2[1] > -tol, "b in the xy plane")
    check(v3[2] > -tol, "c in the upper half space")
