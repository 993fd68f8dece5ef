"""C01: conversion between lattice and world coordinates"""

import numpy as np
from hypothesis import strategies as st

import lattpy as lp
from vlib import gen
from vlib.core import Property, check
from vlib.ref import arr, expect_close

PROP = Property("C01", ["floating point: relative tolerance 1e-8"])
TOL = 1e-8


@st.composite
def cases(draw):
    vecs = draw(gen.vectors(max_dim=6, step=0.05, skew=2.0))
    dim = len(vecs)
    mag = draw(st.sampled_from([1, 3, 10, 100, 30000]))
    num = draw(st.integers(1, 6))
    return {
        "vectors": vecs,
        "int": all(isinstance(x, int) for row in vecs for x in row),
        "nvecs": draw(
            st.lists(
                st.lists(st.integers(-mag, mag), min_size=dim, max_size=dim),
                min_size=num,
                max_size=num,
            )
        ),
        "points": draw(
            st.lists(gen.points(dim, -mag, mag), min_size=num, max_size=num)
        ),
        "stack": draw(st.sampled_from([0, 1, 2])),
        "dtype": draw(st.sampled_from(["list", "int64", "int16", "int32", "float64"])),
        "order": draw(st.sampled_from(["C", "F"])),
        "cls": draw(st.sampled_from(["LatticeBasis", "LatticeStructure", "Lattice"])),
        "atoms": draw(gen.atoms(dim)),
    }


def stacked(x, num):
    for _ in range(num):
        x = np.stack([x, x[::-1]])
    return x


@PROP.sub(
    "transform",
    cases,
    5000,
    "random basis, integer vectors and points in several array layouts; non-trivial: "
    "at least two dimensions and a basis that is not diagonal",
)
def transform(case, ctx):
    vecs = arr(case["vectors"])
    dim = len(vecs)
    latt = getattr(lp, case["cls"])(np.array(case["vectors"]))
    before = latt.vectors.copy()
    nvecs, points = arr(case["nvecs"], np.int64), arr(case["points"])
    ctx.label(f"dim{dim}")
    diag = np.count_nonzero(vecs - np.diag(np.diag(vecs))) == 0
    ctx.nontrivial(dim > 1 and not diag)
    scale = np.max(np.abs(vecs)) * dim

    # single vectors as lists, tuples and arrays
    for n, x in zip(nvecs, points):
        world = n @ vecs
        expect_close(latt.transform(list(int(i) for i in n)), world, "transform", TOL)
        expect_close(latt.transform(n), world, "transform", TOL)
        expect_close(latt.itransform(world), n, "itransform(transform)", TOL)
        lat = latt.itransform(tuple(x))
        expect_close(latt.transform(lat), x, "transform(itransform)", TOL)
        expect_close(latt.transform(x), x @ vecs, "transform", TOL)
        expect_close(latt.translate(n), world, "translate", TOL)
        expect_close(latt.translate(list(n), list(x)), world + x, "translate", TOL)
    if dim == 1:
        v = float(vecs[0, 0])
        n = int(nvecs[0, 0])
        expect_close(latt.transform(n), [n * v], "transform of scalar", TOL)
        expect_close(latt.itransform(n * v), [n], "itransform of scalar", TOL)
        expect_close(latt.translate(n), [n * v], "translate of scalar", TOL)
        expect_close(latt.translate(n, 0.5), [n * v + 0.5], "translate scalar", TOL)

    # arrays
    n_in = nvecs
    if case["dtype"] != "list":
        if case["dtype"] == "int16" and np.max(np.abs(nvecs)) > 32000:
            n_in = nvecs
        else:
            n_in = nvecs.astype(case["dtype"])
    n_in = np.array(stacked(n_in, case["stack"]), order=case["order"])
    p_in = np.array(stacked(points, case["stack"]), order=case["order"])
    n_old, p_old = n_in.copy(), p_in.copy()
    arg_n = n_in.tolist() if case["dtype"] == "list" else n_in
    arg_p = p_in.tolist() if case["dtype"] == "list" else p_in
    n_exact = n_old.astype(float)
    expect_close(latt.transform(arg_n), n_exact @ vecs, "transform of array", TOL)
    expect_close(latt.transform(arg_p), p_old @ vecs, "transform of array", TOL)
    expect_close(
        latt.itransform(n_exact @ vecs), n_exact, "itransform of array", TOL
    )
    expect_close(
        latt.transform(latt.itransform(arg_p)), p_old, "inverse of array", TOL
    )
    expect_close(latt.translate(arg_n), n_exact @ vecs, "translate of array", TOL)
    expect_close(
        latt.translate(arg_n, points[0]),
        n_exact @ vecs + points[0],
        "translate of array",
        TOL,
    )
    expect_close(
        latt.translate(arg_n, arg_p), n_exact @ vecs + p_old, "translate arrays", TOL
    )

    # decomposition
    world = n_exact @ vecs + p_old
    world_old = world.copy()
    for x in (world, points[0], list(points[-1]), arg_p):
        nvec, r = latt.itranslate(x)
        nvec, r, x = np.asarray(nvec), np.asarray(r), np.asarray(x)
        check(nvec.shape == x.shape and r.shape == x.shape, "itranslate: shape")
        check(np.all(nvec == np.round(nvec)), "itranslate: not an integer vector")
        expect_close(nvec @ vecs + r, x, "itranslate: sum", TOL)
        frac = r @ np.linalg.inv(vecs)
        eps = TOL * (1 + np.max(np.abs(x))) * 100
        check(
            np.all(frac > -eps) and np.all(frac < 1 + eps),
            "itranslate: remainder %s outside of the cell", frac,
        )
    if dim == 1:
        nvec, r = latt.itranslate(float(points[0, 0]))
        expect_close(nvec * vecs[0, 0] + r, points[0], "itranslate of scalar", TOL)

    check(np.array_equal(n_in, n_old), "input changed")
    check(np.array_equal(p_in, p_old), "input changed")
    check(np.array_equal(world, world_old), "input changed")
    check(np.array_equal(latt.vectors, before), "basis changed")
    check(scale > 0)


@PROP.sub(
    "positions",
    cases,
    2500,
    "positions of lattice indices of a lattice with atoms; non-trivial: more than one "
    "atom or an offset atom",
)
def positions(case, ctx):
    vecs = arr(case["vectors"])
    dim = len(vecs)
    cls = lp.Lattice if case["cls"] == "Lattice" else lp.LatticeStructure
    latt = cls(np.array(case["vectors"]))
    pos = arr([a["frac"] for a in case["atoms"]]) @ vecs
    for p, a in zip(pos, case["atoms"]):
        latt.add_atom(p, a["name"])
    nvecs = arr(case["nvecs"], np.int64)
    ctx.nontrivial(len(pos) > 1 or np.any(pos))
    ctx.label(f"dim{dim}", f"atoms{len(pos)}")
    inds, expected = [], []
    for i, n in enumerate(nvecs):
        a = i % len(pos)
        inds.append([*n, a])
        expected.append(n @ vecs + pos[a])
        expect_close(latt.get_position(n, a), expected[-1], "get_position", TOL)
        expect_close(latt.get_position(list(n), alpha=a), expected[-1], "get_position",
                     TOL)
        expect_close(latt.get_position(alpha=a), pos[a], "get_position", TOL)
    got = latt.get_positions(np.array(inds))
    expect_close(got, expected, "get_positions", TOL)
    expect_close(latt.get_positions([list(map(int, i)) for i in inds]), expected,
                 "get_positions", TOL)
    # the nearest cell of a point close to a lattice point
    for n, x in zip(nvecs, arr(case["points"])):
        frac = 0.45 * np.tanh(x)
        world = (n + frac) @ vecs
        idx = latt.estimate_index(world)
        check(np.array_equal(idx, n), "estimate_index: %s != %s", idx, n)
    expect_close(latt.atom_positions, pos, "atom positions changed", TOL)
