"""C12: edits of the site data"""

import numpy as np
from hypothesis import strategies as st

import lattpy as lp
from vlib import gen
from vlib.core import Property, check
from vlib.history import Model, histories, same_snapshot, site_keys, snapshot
from vlib.neigh import expected_tables
from vlib.ref import Ref, expect_close, make_structure
from vlib.shapes import ShapeRef, make_shape

PROP = Property(
    "C12",
    [
        "appending data drops periodic neighbors (documented in the code); the index and "
        "position of appended sites differ from those of the existing sites",
    ],
)


def check_images(data, vecs):
    """The stored translation vectors lead to the image of the periodic neighbors"""
    pos = np.asarray(data.positions)
    for i in np.nonzero(np.any(data.pmask, axis=1))[0]:
        mask = data.neighbor_mask(i, periodic=True)
        x = pos[data.neighbors[i, mask]] - data.pnvecs[i, mask] @ vecs
        dist = np.linalg.norm(x - pos[i], axis=1)
        want = data.distvals[data.distances[i, mask]]
        check(np.all(np.abs(dist - want) < 3e-6), "images of the neighbors of %s", i)


def check_unused(data):
    """Unused slots of the neighbor data are marked as such"""
    unused = data.distances == data.invalid_distidx
    check(data.invalid_idx == data.num_sites, "invalid index: %s", data.invalid_idx)
    check(np.all(data.neighbors[unused] == data.num_sites), "unused slots of the neighbors")
    check(not np.any(data.pmask[unused]), "unused slots are marked as periodic")
    check(not np.isfinite(data.distvals[data.invalid_distidx]), "invalid distance")


@PROP.sub(
    "history",
    lambda: histories(max_len=7),
    1500,
    "random lattices of complete cells with histories of up to 7 edits, each followed "
    "by a comparison with the model and a check of all earlier copies; non-trivial: at "
    "least two different kinds of edits were applied",
)
def history(case, ctx):
    model = Model(lp, case)
    copies = []
    for step in case["ops"]:
        copies.append((model.latt.data.copy(), model.model))
        if not model.apply(step):
            copies.pop()
            continue
        data = model.latt.data
        same_snapshot(snapshot(data), model.model, "after " + step["op"])
        pos = model.geo.ref.position(np.asarray(data.indices).astype(np.int64))
        expect_close(data.positions, pos, "positions of the indices")
        check(np.all(np.diff(data.distvals) > 0), "distances are not sorted")
        check_images(data, model.geo.ref.vecs)
        check_unused(data)
        ctx.label(step["op"])
    for data, want in copies:
        same_snapshot(snapshot(data), want, "copy")
    ctx.nontrivial(len(set(model.applied)) > 1)
    ctx.label(f"ops{len(model.applied)}")


@st.composite
def filter_cases(draw):
    case = draw(gen.built(max_dim=3, max_dist=2, max_atoms=3, cb=False))
    case["min"] = draw(st.integers(0, 100))
    case["plus"] = draw(st.sampled_from([0, 0, 0, 1]))
    case["jobs"] = draw(st.sampled_from([1, 2]))
    return case


@PROP.sub(
    "min_neighbors",
    filter_cases,
    1300,
    "random lattice and shape built with min_neighbors; non-trivial: some but not all "
    "sites are removed",
)
def min_neighbors(case, ctx):
    spec = case["latt"]
    ref = Ref(spec)
    ref.neighbor_table()
    must, may = ShapeRef(case["shape"], spec["vectors"]).expected(ref)[2:]
    if must.sum() == 0:
        ctx.discard("no site")
    if may.sum() > 500:
        ctx.discard("too many sites")
    latt = make_structure(lp, spec)
    shape, kwargs = make_shape(lp, case["shape"], spec["vectors"])
    latt.build(shape, **kwargs)
    full = site_keys(latt.data)
    table, _ = expected_tables(ref, latt.indices, latt.positions)
    counts = sorted({len(row) for row in table})
    num = counts[case["min"] % len(counts)] + case["plus"]
    keep = {k for k, row in zip(full, table) if len(row) >= num}
    ctx.label("none" if not keep else ("all" if len(keep) == len(full) else "some"))
    if not keep:
        try:
            latt.build(shape, min_neighbors=num, **kwargs)
        except ValueError:
            return
        check(latt.num_sites == 0, "all sites have too few neighbors")
        return
    latt.build(shape, min_neighbors=num, num_jobs=case["jobs"], **kwargs)
    got = snapshot(latt.data)
    want = {
        k: {full[j]: (round(d, 5), False) for j, d in row.items() if full[j] in keep}
        for k, row in zip(full, table) if k in keep
    }
    same_snapshot(got, want, f"min_neighbors={num}")
    expect_close(
        latt.positions, ref.position(np.asarray(latt.indices).astype(np.int64)),
        "positions",
    )
    pos = np.asarray(latt.positions)
    expect_close(latt.shape, pos.max(axis=0) - pos.min(axis=0), "shape")
    ctx.nontrivial(len(keep) < len(full))
