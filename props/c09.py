"""C09: periodic boundary conditions"""

import itertools

import numpy as np
from hypothesis import strategies as st

import lattpy as lp
from vlib import gen
from vlib.core import Discard, Property, check
from vlib.neigh import compare_tables, level, rows, tables
from vlib.ref import Ref, make_structure
from vlib.shapes import ShapeRef, make_shape
from vlib.torus import (
    Cells, axes, axes_arg, cells, levels_of, periodic_table, regular_table,
)

PROP = Property(
    "C09",
    [
        "torus oracle: complete cells, thickness of the lattice larger than twice the "
        "range along the periodic axes, any basis for axes along the basis vectors, "
        "basis vectors along the cartesian axes for cartesian axes",
        "other lattices: images of the public periodic_translation_vectors",
    ],
)


@st.composite
def steps(draw, dim, more=()):
    out = []
    for _ in range(draw(st.integers(1, 4))):
        kind = draw(st.sampled_from(["set", "set", "set", "none", "false", "rebuild",
                                     "build", *more]))
        step = {"op": kind}
        if kind == "repeat":
            step["ax"] = draw(st.integers(0, dim - 1))
            step["side"] = draw(st.sampled_from([1, -1]))
        if kind in ("set", "build"):
            step.update(draw(axes(dim)))
        out.append(step)
    return out


@st.composite
def torus_cases(draw):
    case = draw(cells())
    case["steps"] = draw(steps(len(case["latt"]["vectors"]), ["repeat"]))
    return case


def check_trace(data, want, periodic):
    """Removed periodic neighbors leave nothing behind in the unused slots"""
    num = [int(np.count_nonzero(data.pmask[i])) for i in range(len(want))]
    check(num == [len(row) for row in periodic], "number of flagged neighbors")
    data = data.copy()
    for i in (0, len(want) // 2, len(want) - 1):
        free = [j for j in range(len(want)) if j != i and j not in want[i]][:2]
        if not free:
            continue
        dist = float(data.distvals[0]) if np.isfinite(data.distvals[0]) else 1.0
        data.add_neighbors(i, free, [dist] * len(free))
        reg = {int(j) for j in data.get_neighbors(i, periodic=False)}
        check(reg >= set(free), "new neighbors of site %s are periodic", i)
        mask = data.neighbor_mask(i, periodic=False)
        check(not np.any(data.pnvecs[i, mask]), "translation of new neighbors of %s", i)


def check_axes(data, geo, axs):
    """The stored axes are those of the translation of the periodic neighbor"""
    for i in np.nonzero(np.any(data.pmask, axis=1))[0]:
        mask = data.neighbor_mask(i, periodic=True)
        for j, nvec, stored in zip(
            data.neighbors[i, mask], data.pnvecs[i, mask], data.paxes[i, mask]
        ):
            want = {ax for ax in axs if nvec[geo.vec_of_axis[ax]]}
            got = {int(x) for x in stored if x < geo.dim}
            check(got == want, "axes of the periodic neighbor %s of site %s: %s", j, i, got)


def judge_periodic(latt, ref, regular, periodic, images):
    """Compare all views with the expected regular and periodic neighbors"""
    vals = levels_of(regular + [{j: d for j, (d, _) in row.items()} for row in periodic])
    want = []
    for i, row in enumerate(regular):
        new = {j: level(vals, d) for j, d in row.items()}
        new.update({j: level(vals, d) for j, (d, _) in periodic[i].items()})
        want.append(new)
    compare_tables(tables(latt), want, "periodic lattice")
    allowed = {tuple(int(x) for x in n) for n in images}
    data = latt.data
    pos = latt.positions
    for i in range(latt.num_sites):
        reg = sorted(int(j) for j in data.get_neighbors(i, periodic=False))
        check(reg == sorted(regular[i]), "regular neighbors of site %s", i)
        per = sorted(int(j) for j in data.get_neighbors(i, periodic=True))
        check(per == sorted(periodic[i]), "periodic neighbors of site %s: %s != %s",
              i, per, sorted(periodic[i]))
        mask = data.neighbor_mask(i, periodic=True)
        for j, nvec, d in zip(
            data.neighbors[i, mask], data.pnvecs[i, mask], data.distances[i, mask]
        ):
            image = tuple(-int(x) for x in nvec)
            check(image in allowed, "translation vector %s of site %s", image, i)
            x = pos[j] + np.array(image) @ ref.vecs
            dist = np.linalg.norm(x - pos[i])
            check(abs(dist - data.distvals[d]) < 3e-6, "image of neighbor %s of %s", j, i)
        mask = data.neighbor_mask(i, periodic=False)
        check(not np.any(data.pnvecs[i, mask]), "translation of regular neighbors")
        for d in range(len(vals)):
            for flag, row in ((True, periodic[i]), (False, regular[i])):
                got = sorted(int(j) for j in data.get_neighbors(i, d, flag))
                ok = sorted(j for j in row if want[i][j] == d)
                check(got == ok, "neighbors of level %s, periodic=%s", d, flag)
    check_trace(data, want, periodic)
    pairs = sorted((i, j, d) for i, row in enumerate(want) for j, d in row.items())
    idx, dist = latt.neighbor_pairs()
    got = sorted((int(a), int(b), int(d)) for (a, b), d in zip(idx, dist))
    check(got == pairs, "neighbor pairs")
    return want


@PROP.sub(
    "torus",
    torus_cases,
    1000,
    "random lattices of complete cells with histories of setting, changing and removing "
    "periodic axes and rebuilding; non-trivial: periodic axes are set at least once",
)
def torus(case, ctx):
    geo = Cells(case)
    ref, dim = geo.ref, geo.dim
    ctx.label(f"dim{dim}", case["mode"])
    latt = geo.build(lp)
    sites = rows(latt.indices)
    check(sorted(sites) == geo.sites(), "sites of complete cells")
    regular = regular_table(ref, latt.indices, latt.positions)
    compare_tables([set(t) for t in tables(latt)], [set(r) for r in regular], "regular")
    infinite = [len(t) for t in ref.neighbor_table()[1]]
    for step in case["steps"]:
        op = step["op"]
        axs = []
        if op in ("set", "build"):
            if not all(geo.large(ax) for ax in step["axes"]):
                continue
            axs = step["axes"]
            arg = axes_arg(step, dim)
            if op == "set":
                latt.set_periodic(arg)
            else:
                geo.build(lp, latt, periodic=arg)
        elif op == "none":
            latt.set_periodic(None)
        elif op == "false":
            latt.set_periodic(False)
        elif op == "repeat":
            ax = step["ax"]
            i = geo.vec_of_axis[ax]
            if latt.num_sites > 130:
                continue
            latt.repeat(1, ax, step["side"])
            positive = geo.prim or ref.vecs[i, ax] > 0
            if positive != (step["side"] > 0):
                geo.start[i] -= geo.num[i]
            geo.num[i] *= 2
            ctx.label("repeat")
            sites = rows(latt.indices)
            check(sorted(sites) == geo.sites(), "sites of the repeated lattice")
            regular = regular_table(ref, latt.indices, latt.positions)
        else:
            geo.build(lp, latt)
        if op in ("build", "rebuild"):
            check(sorted(rows(latt.indices)) == sorted(sites), "sites of the rebuilt lattice")
            sites = rows(latt.indices)
            regular = regular_table(ref, latt.indices, latt.positions)
        check(rows(latt.indices) == sites, "sites changed")
        images = geo.images(axs)
        periodic = periodic_table(ref, latt.indices, latt.positions, images)
        for i, row in enumerate(periodic):
            if i in row or set(row) & set(regular[i]):
                raise Discard("small lattice")
        judge_periodic(latt, ref, regular, periodic, images)
        check_axes(latt.data, geo, axs)
        if any(periodic):
            ctx.nontrivial()
            ctx.label(f"axes{len(axs)}")
            got = sorted(int(x) for x in latt.periodic_axes)
            check(got == sorted(axs), "periodic axes %s", got)
        elif not axs:
            check(len(latt.periodic_axes) == 0, "periodic axes after removing them")
        if len(axs) == dim:
            ctx.label("full")
            for i, s in enumerate(sites):
                check(len(latt.neighbors(i)) == infinite[s[-1]],
                      "number of neighbors of the fully periodic lattice")
                # the same distances as in the infinite lattice
                want = sorted(d for _, d in ref.neighbor_table()[1][s[-1]])
                got = sorted(
                    latt.data.distvals[d]
                    for d in latt.data.distances[i][latt.data.neighbor_mask(i)]
                )
                check(np.allclose(got, want, rtol=0, atol=3e-6),
                      "distances of the fully periodic lattice")
        for ax in axs:
            # translation vectors of single axes
            ((_, nvec),) = latt.periodic_translation_vectors(ax, latt.primitive)
            check(np.array_equal(np.abs(nvec), np.abs(geo.translation(ax))),
                  "translation vector of axis %s: %s", ax, nvec)


@st.composite
def long_cases(draw):
    case = draw(cells(max_dim=2, max_dist=2, max_atoms=1))
    dim = len(case["latt"]["vectors"])
    ax = draw(st.integers(0, dim - 1))
    num = draw(st.sampled_from([100, 128, 129, 130, 160, 200, 254, 255, 256, 257, 300]))
    back = draw(st.one_of(st.sampled_from([num // 2, num - 100, 128, 0]), st.integers(0, num)))
    case["fill_sites"] = 0
    case["small"] = [True] * dim
    case["extra"] = [0] * dim
    case["strip"] = [ax, num, -back]
    form = draw(st.sampled_from(["list", "auto"]))
    axs = [ax] if case["mode"] == "prim" else [
        int(np.argmax(np.abs(case["latt"]["vectors"][ax])))
    ]
    case["steps"] = [{"op": draw(st.sampled_from(["set", "build"])), "axes": axs,
                      "form": form}]
    return case


@PROP.sub(
    "long",
    long_cases,
    150,
    "strips of up to 300 cells on both sides of the origin, periodic along the strip; "
    "non-trivial: periodic neighbors exist",
)
def long_strips(case, ctx):
    torus(case, ctx)
    ctx.label("negative" if case["strip"][2] < 0 else "positive")


@st.composite
def shape_cases(draw):
    case = draw(gen.built(max_dim=3, max_dist=2, max_atoms=2, cb=False))
    dim = len(case["latt"]["vectors"])
    case["steps"] = draw(steps(dim))
    return case


@PROP.sub(
    "images",
    shape_cases,
    900,
    "random lattices of any basis and shape; the periodic neighbors are those of the "
    "images of the public translation vectors; non-trivial: periodic neighbors exist",
)
def images(case, ctx):
    spec = case["latt"]
    ref = Ref(spec)
    rng = ref.max_range()
    sref = ShapeRef(case["shape"], spec["vectors"])
    must, may = sref.expected(ref)[2:]
    if must.sum() == 0:
        ctx.discard("no site")
    if may.sum() > 300:
        ctx.discard("too many sites")
    latt = make_structure(lp, spec)
    shape, kwargs = make_shape(lp, case["shape"], spec["vectors"])
    latt.build(shape, **kwargs)
    regular = regular_table(ref, latt.indices, latt.positions)
    for step in case["steps"]:
        op = step["op"]
        images_ = []
        if op in ("set", "build"):
            vecs = []
            for ax in step["axes"]:
                ((_, nvec),) = latt.periodic_translation_vectors(ax, latt.primitive)
                vecs.append(np.asarray(nvec, np.int64))
            small = False
            for c in itertools.product(range(-3, 4), repeat=len(vecs)):
                n = np.sum([x * v for x, v in zip(c, vecs)], axis=0)
                if any(c) and np.linalg.norm(n @ ref.vecs) <= 2 * rng + 1e-6:
                    small = True
                if any(c) and max(np.abs(c)) <= 1:
                    images_.append(n)
            if small:
                continue
            arg = axes_arg(step, ref.dim)
            if op == "set":
                latt.set_periodic(arg)
            else:
                latt.build(shape, periodic=arg, **kwargs)
        elif op in ("none", "false"):
            latt.set_periodic(None if op == "none" else False)
        else:
            latt.build(shape, **kwargs)
        periodic = periodic_table(ref, latt.indices, latt.positions, images_, regular)
        if any(i in row for i, row in enumerate(periodic)):
            raise Discard("small lattice")
        judge_periodic(latt, ref, regular, periodic, images_)
        ctx.nontrivial(any(periodic))
        if any(periodic):
            ctx.label(f"axes{len(step['axes'])}", case["shape"]["kind"])


def check_closest(latt, ref, axs, regular):
    """The periodic neighbors of lattices of any size: every other site with an image in
    range which is no regular neighbor, at the distance of the closest image"""
    vecs = []
    for ax in axs:
        ((_, nvec),) = latt.periodic_translation_vectors(ax, latt.primitive)
        vecs.append(np.asarray(nvec, np.int64))
    shifts = []
    for c in itertools.product((-1, 0, 1), repeat=len(vecs)):
        if any(c):
            shifts.append(np.sum([x * v for x, v in zip(c, vecs)], axis=0))
    want = periodic_table(ref, latt.indices, latt.positions, shifts, regular)
    data = latt.data
    for i, row in enumerate(want):
        row = {j: d for j, (d, _) in row.items() if j != i}
        mask = data.neighbor_mask(i, periodic=True)
        dist = data.distvals[data.distances[i, mask]]
        got = {int(j): float(d) for j, d in zip(data.neighbors[i, mask], dist) if j != i}
        check(sorted(got) == sorted(row), "images of site %s: %s != %s", i, got, row)
        for j, d in got.items():
            check(abs(d - row[j]) < 3e-6, "closest image of %s at site %s: %s != %s",
                  j, i, d, row[j])


@st.composite
def restore_cases(draw):
    case = draw(gen.built(max_dim=3, max_dist=3, max_atoms=2, cb=False))
    dim = len(case["latt"]["vectors"])
    case["sets"] = [draw(axes(dim)) for _ in range(draw(st.integers(1, 3)))]
    case["how"] = draw(st.sampled_from(["none", "false", "build", "data"]))
    return case


@PROP.sub(
    "restore",
    restore_cases,
    700,
    "lattices of any size and shape (also smaller than the range of the neighbors): the "
    "regular neighbors stay unchanged and nothing remains after removing the periodic "
    "axes; non-trivial: periodic neighbors existed",
)
def restore(case, ctx):
    spec = case["latt"]
    ref = Ref(spec)
    sref = ShapeRef(case["shape"], spec["vectors"])
    must, may = sref.expected(ref)[2:]
    if must.sum() == 0:
        ctx.discard("no site")
    if may.sum() > 200:
        ctx.discard("too many sites")
    latt = make_structure(lp, spec)
    shape, kwargs = make_shape(lp, case["shape"], spec["vectors"])
    latt.build(shape, **kwargs)
    regular = regular_table(ref, latt.indices, latt.positions)
    sites = rows(latt.indices)
    want = tables(latt)
    compare_tables([set(t) for t in want], [set(r) for r in regular], "regular")
    vals = [float(x) for x in latt.data.distvals]
    for step in case["sets"]:
        latt.set_periodic(axes_arg(step, ref.dim))
        data = latt.data
        check(rows(latt.indices) == sites, "sites changed")
        for i, row in enumerate(regular):
            reg = sorted(int(j) for j in data.get_neighbors(i, periodic=False))
            check(reg == sorted(row), "regular neighbors of site %s", i)
            mask = data.neighbor_mask(i, periodic=False)
            dist = data.distvals[data.distances[i, mask]]
            ok = [row[int(j)] for j in data.neighbors[i, mask]]
            check(np.allclose(dist, ok, rtol=0, atol=3e-6), "regular distances of %s", i)
        if np.any(data.pmask):
            ctx.nontrivial()
            ctx.label("small" if latt.num_sites < 6 else "large")
        check_closest(latt, ref, step["axes"], regular)
    if case["how"] == "build":
        latt.build(shape, **kwargs)
    elif case["how"] == "data":
        latt.data.remove_periodic()
    else:
        latt.set_periodic(None if case["how"] == "none" else False)
    ctx.label(case["how"])
    check(rows(latt.indices) == sites, "sites changed")
    compare_tables(tables(latt), want, "after removing the periodic axes")
    check([float(x) for x in latt.data.distvals] == vals, "distance values")
    check(not np.any(latt.data.pmask) and not np.any(latt.data.pnvecs), "flags")
    for i, row in enumerate(want):
        check(len(latt.data.get_neighbors(i, periodic=True)) == 0, "periodic neighbors")
        check(len(latt.neighbors(i)) == len(row), "number of neighbors of site %s", i)
    check_trace(latt.data, want, [{} for _ in want])
