"""C07: sites of built lattices"""

import numpy as np
from hypothesis import strategies as st

import lattpy as lp
from vlib import gen
from vlib.core import Property, check
from vlib.ref import Ref, arr, expect_close, make_structure
from vlib.shapes import ShapeRef, callback_mask, make_callback, make_shape

PROP = Property(
    "C07",
    [
        "sites within 2e-3 of the boundary of the shape may or may not be included "
        "(documented tolerance 1e-3); sites exactly on the boundary have to be, except "
        "on the upper faces of boxes in lattice coordinates",
    ],
)


@st.composite
def cases(draw):
    case = draw(gen.built(max_dim=4, max_dist=2, max_atoms=3))
    case["latt"]["cons"] = [
        [1] * len(case["latt"]["atoms"]) for _ in case["latt"]["atoms"]
    ]
    dim = len(case["latt"]["vectors"])
    case["shape2"] = draw(gen.shapes(case["latt"]["vectors"], far=False, size=0.6))
    shape = case["shape"]
    if dim <= 2 and "size" in shape and draw(st.integers(0, 5)) == 0:
        # many cells along one axis
        i = draw(st.integers(0, dim - 1))
        num = draw(st.sampled_from([127, 128, 129, 255, 256, 257, 300]))
        shape["size"] = [1.0] * dim if shape["primitive"] or shape["kind"] == "bbox" else [
            max(abs(v[j]) for v in case["latt"]["vectors"]) or 1.0 for j in range(dim)
        ]
        shape["size"][i] *= num
    case["dtype"] = draw(st.sampled_from([None, None, None, "int32", "int64"]))
    case["jobs"] = draw(st.sampled_from([-1, 1, 2]))
    case["points"] = draw(st.lists(gen.points(dim, -1.2, 1.2), min_size=1, max_size=5))
    case["via"] = draw(st.sampled_from(["build", "build", "build", "kw"]))
    return case


def rows(ind):
    return [tuple(int(x) for x in row) for row in np.asarray(ind)]


def judge_sites(ref, sref, ind, pos, mask=None, what="build"):
    """mask: only sites accepted by the callback"""
    eind, epos, must, may = sref.expected(ref)
    got = rows(ind)
    check(np.issubdtype(np.asarray(ind).dtype, np.integer), "%s: integer indices", what)
    check(len(set(got)) == len(got), "%s: sites are not unique", what)
    check(len(pos) == len(ind), "%s: number of positions", what)
    if len(got):
        expect_close(pos, ref.position(np.array(got)), f"{what}: position of index", 1e-9)
    if mask is not None:
        must, may = must & mask, may & mask
    got = set(got)
    missing = [r for r in rows(eind[must]) if r not in got]
    check(not missing, "%s: missing sites %s", what, missing[:5])
    extra = got - set(rows(eind[may]))
    check(not extra, "%s: sites outside of the shape %s", what, sorted(extra)[:5])
    return must, may


def build(latt, spec, case, ctx, callback=None):
    shape, kwargs = make_shape(lp, spec, case["latt"]["vectors"])
    return latt.build(
        shape, num_jobs=case["jobs"], callback=callback, dtype=case["dtype"], **kwargs
    )


def judge_meta(latt, ref):
    ind, pos = latt.indices, latt.positions
    check(latt.num_sites == len(ind), "num_sites")
    check(latt.num_cells == len({r[:-1] for r in rows(ind)}), "num_cells")
    lo, hi = pos.min(axis=0), pos.max(axis=0)
    expect_close(latt.shape, hi - lo, "shape")
    expect_close(latt.pos, lo, "pos")
    check(latt.data.num_sites == len(ind), "num_sites of the data")
    check(latt.data.dim == ref.dim, "dim of the data")


@PROP.sub(
    "build",
    cases,
    1700,
    "random lattice and shape (boxes in both coordinate systems, circle, donut, convex "
    "hull, custom) at the origin, nearby or up to 40000 cells away, with callbacks, "
    "then rebuilt with a second shape; non-trivial: at least 4 sites and at least one "
    "candidate site outside of the shape",
)
def built(case, ctx):
    spec = case["latt"]
    ref = Ref(spec)
    sref = ShapeRef(case["shape"], spec["vectors"])
    eind, epos, must, may = sref.expected(ref)
    ctx.label(f"dim{ref.dim}", case["shape"]["kind"])
    if must.sum() == 0:
        ctx.discard("no site")
    ref.neighbor_table()
    ctx.nontrivial(must.sum() >= 4 and not may.all())
    if np.abs(eind[:, :-1]).max() > 127:
        ctx.label("index>127")
    if np.abs(eind[:, :-1]).max() > 32767:
        ctx.label("index>32767")
    latt = make_structure(lp, spec)
    kw = case["shape"]
    if case["via"] == "kw" and kw["kind"] == "tuple" and not kw["primitive"] \
            and kw["pos"] is None:
        atoms = {tuple(p): a["name"] for p, a in zip(ref.pos, spec["atoms"])}
        latt = lp.Lattice(arr(spec["vectors"]), atoms=atoms, cons=1,
                          shape=make_shape(lp, kw, None)[0])
        ctx.label("keyword")
    else:
        build(latt, case["shape"], case, ctx)
    judge_sites(ref, sref, latt.indices, latt.positions)
    judge_meta(latt, ref)
    first = rows(latt.indices)

    # callback
    kind = case["callback"]
    if kind is not None:
        func = make_callback(kind)
        calls = []

        def callback(indices, positions):
            calls.append((np.array(indices), np.array(positions)))
            mask = func(indices, positions)
            return mask.tolist() if kind == "list" else mask

        cind, cpos = np.array(latt.indices), np.array(latt.positions)
        keep = np.asarray(func(cind, cpos))
        if keep.any():
            build(latt, case["shape"], case, ctx, callback)
            expected = {r for r, k in zip(first, keep) if k}
            check(set(rows(latt.indices)) == expected, "sites accepted by the callback")
            check(len(calls) >= 1, "callback is not called")
            seen, seen_pos = calls[-1]
            check(sorted(rows(seen)) == sorted(first), "indices passed to the callback")
            expect_close(seen_pos, ref.position(seen.astype(np.int64)), "positions passed")
            mask = callback_mask(kind, eind, epos, must, may)
            if mask is not None:
                judge_sites(ref, sref, latt.indices, latt.positions, mask, "callback")
            judge_meta(latt, ref)
            ctx.label("callback")

    # no trace of the previous sites
    sref2 = ShapeRef(case["shape2"], spec["vectors"])
    if sref2.expected(ref)[2].sum():
        build(latt, case["shape2"], case, ctx)
        judge_sites(ref, sref2, latt.indices, latt.positions, None, "rebuild")
        judge_meta(latt, ref)
    build(latt, case["shape"], case, ctx)
    check(sorted(rows(latt.indices)) == sorted(first), "repeated build")


@PROP.sub(
    "indices",
    cases,
    1700,
    "build_indices, build_translation_vectors and check_points of the infinite lattice "
    "for the same inputs; non-trivial: at least 4 sites and one candidate outside",
)
def indices(case, ctx):
    spec = case["latt"]
    ref = Ref(spec)
    sref = ShapeRef(case["shape"], spec["vectors"])
    eind, epos, must, may = sref.expected(ref)
    ctx.nontrivial(must.sum() >= 4 and not may.all())
    latt = lp.LatticeStructure(arr(spec["vectors"]))
    for p, a in zip(ref.pos, spec["atoms"]):
        latt.add_atom(p, a["name"])
    shape, kwargs = make_shape(lp, case["shape"], spec["vectors"])
    if case["shape"]["kind"] != "tuple":
        kwargs = {}
    before = np.array(latt.vectors)
    ind, pos = latt.build_indices(shape, return_pos=True, dtype=case["dtype"], **kwargs)
    judge_sites(ref, sref, ind, pos, None, "build_indices")
    if case["dtype"]:
        check(ind.dtype == np.dtype(case["dtype"]), "data type of the indices")
    ind, pos = latt.build_indices(shape, check=False, return_pos=True, **kwargs)
    got = set(rows(ind))
    missing = [r for r in rows(eind[must]) if r not in got]
    check(not missing, "unchecked indices: missing sites %s", missing[:5])
    expect_close(pos, ref.position(np.array(ind, np.int64)), "unchecked positions")

    kind = case["callback"]
    mask = callback_mask(kind, eind, epos, must, may)
    if kind is not None and mask is not None:
        ind, pos = latt.build_indices(
            shape, callback=make_callback(kind), return_pos=True, **kwargs
        )
        judge_sites(ref, sref, ind, pos, mask, "build_indices with callback")

    # Translation vectors: lattice with one atom at the origin
    one = Ref({"vectors": spec["vectors"], "atoms": [{"frac": [0.0] * ref.dim}],
               "cons": [[1]]})
    nvecs = latt.build_translation_vectors(shape, dtype=case["dtype"], **kwargs)
    check(nvecs.ndim == 2 and nvecs.shape[1] == ref.dim, "shape of the vectors")
    inds = np.c_[nvecs.astype(np.int64), np.zeros(len(nvecs), np.int64)]
    judge_sites(one, sref, inds, nvecs.astype(np.int64) @ ref.vecs, None,
                "translation vectors")

    # mask of arbitrary points and of the sites
    lo, hi = sref.limits
    points = (lo + hi) / 2 + arr(case["points"]) * (hi - lo) / 2
    points = np.concatenate([points, epos])
    copy = points.copy()
    kw = {"relative": kwargs["primitive"], "pos": kwargs["pos"]} if kwargs else {}
    got = np.asarray(latt.check_points(points, shape, **kw))
    check(got.shape == (len(points),), "shape of the mask")
    low, up = sref.depths(points)
    depth = np.minimum(low, up)
    scale = 1 + np.abs(points).max() * 1e-6
    inside, outside = depth > 1e-9 * scale * 1e3, depth < -2e-3
    check(np.all(got[inside]), "points inside of the shape")
    check(not np.any(got[outside]), "points outside of the shape")
    check(np.array_equal(points, copy), "modified points")
    check(np.array_equal(latt.vectors, before), "modified basis")
