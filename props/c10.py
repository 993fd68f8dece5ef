"""C10: minimum distances"""

import itertools

import numpy as np
from hypothesis import strategies as st

import lattpy as lp
from vlib import gen
from vlib.core import Property, check
from vlib.neigh import rows
from vlib.ref import Ref, make_structure
from vlib.shapes import ShapeRef, make_shape
from vlib.torus import Cells, axes, axes_arg, cells

PROP = Property(
    "C10",
    [
        "images are the sites translated by at most one period along each combination "
        "of the periodic axes; the period of lattices that are no complete cells is the "
        "one of the public periodic_translation_vectors",
    ],
)


@st.composite
def steps(draw, dim):
    out = []
    for _ in range(draw(st.integers(1, 5))):
        kind = draw(
            st.sampled_from(["set", "set", "set", "none", "false", "rebuild", "build",
                             "remove", "repeat", "sort"])
        )
        step = {"op": kind}
        if kind in ("set", "build"):
            step.update(draw(axes(dim)))
        if kind == "repeat":
            step["ax"] = draw(st.integers(0, dim - 1))
            step["side"] = draw(st.sampled_from([1, -1]))
        if kind in ("remove", "sort"):
            step["num"] = draw(st.integers(0, 1000))
        out.append(step)
    return out


def combos(vecs):
    out = []
    for c in itertools.product([-1, 0, 1], repeat=len(vecs)):
        if any(c):
            out.append(np.sum([x * v for x, v in zip(c, vecs)], axis=0))
    return out


def oracle(pos, vecs):
    """Matrix of minimum distances, vecs: world vectors of the images"""
    diff = pos[:, None, :] - pos[None, :, :]
    best = np.sqrt((diff**2).sum(-1))
    for v in vecs:
        best = np.minimum(best, np.sqrt(((diff + v) ** 2).sum(-1)))
    return best


def judge(latt, vecs, sites):
    pos = np.array(latt.positions)
    want = oracle(pos, vecs)
    tol = 1e-9 * (1 + np.abs(pos).max())
    num = len(pos)
    for s in sites:
        i = s % num
        got = np.asarray(latt.minimum_distances(i))
        check(got.shape == (num,), "shape of the distances")
        err = np.abs(got - want[i])
        j = int(np.argmax(err))
        check(err[j] < tol, "distance of %s and %s: %s != %s", i, j, got[j], want[i, j])
    check(np.array_equal(pos, latt.positions), "modified positions")


@st.composite
def torus_cases(draw):
    case = draw(cells(max_dist=2))
    dim = len(case["latt"]["vectors"])
    case["steps"] = draw(steps(dim))
    case["sites"] = draw(st.lists(st.integers(0, 1000), min_size=1, max_size=6))
    return case


@PROP.sub(
    "torus",
    torus_cases,
    1500,
    "lattices of complete cells with histories of periodic axes, rebuilding, removing "
    "and sorting sites and repeating the lattice; non-trivial: a distance is shorter "
    "than the plain one in at least one state",
)
def torus(case, ctx):
    geo = Cells(case)
    ref, dim = geo.ref, geo.dim
    latt = geo.build(lp)
    ctx.label(f"dim{dim}", case["mode"])
    axs, original = [], True
    judge(latt, [], case["sites"])
    for step in case["steps"]:
        op = step["op"]
        if op in ("set", "build"):
            if op == "set" and not original:
                continue
            arg = axes_arg(step, dim)
            if op == "set":
                latt.set_periodic(arg)
            else:
                geo.build(lp, latt, periodic=arg)
                original = True
            axs = step["axes"]
            if len(latt.periodic_axes) == 0 and not any(
                np.any(latt.data.pmask[i]) for i in range(latt.num_sites)
            ):
                axs = []  # no connection across the boundary
                ctx.label("not connected")
        elif op in ("none", "false"):
            latt.set_periodic(None if op == "none" else False)
            axs = []
        elif op == "rebuild":
            geo.build(lp, latt)
            axs, original = [], True
        elif op == "repeat":
            latt.repeat(1, ax=step["ax"], side=step["side"])
            axs, original = [], False
        elif op == "sort":
            latt.data.sort(step["num"] % (dim + 1), reverse=bool(step["num"] % 2))
        elif op == "remove":
            if latt.num_sites < 3 or not original:
                continue
            i = step["num"] % latt.num_sites
            ind = np.delete(latt.indices, i, axis=0)
            if any(set(ind[:, k]) != set(latt.indices[:, k]) for k in range(dim)):
                continue
            if not geo.prim:
                # keep the cells at the corners
                keep = {r[:-1] for r in rows(ind)}
                if keep != {r[:-1] for r in rows(latt.indices)}:
                    continue
            latt.data.remove(i)
        vecs = [n @ ref.vecs for n in combos([geo.translation(ax) for ax in axs])]
        judge(latt, vecs, case["sites"])
        if axs:
            ctx.label(f"axes{len(axs)}", "after " + op)
            pos = np.array(latt.positions)
            ctx.nontrivial(np.any(oracle(pos, vecs) < oracle(pos, []) - 1e-6))


@st.composite
def shape_cases(draw):
    case = draw(gen.built(max_dim=3, max_dist=2, max_atoms=2, cb=False))
    dim = len(case["latt"]["vectors"])
    case["steps"] = [
        s for s in draw(steps(dim))
        if s["op"] in ("set", "none", "false", "rebuild", "build")
    ]
    case["sites"] = draw(st.lists(st.integers(0, 1000), min_size=1, max_size=6))
    return case


@PROP.sub(
    "images",
    shape_cases,
    1200,
    "random lattices of any basis and shape with the public translation vectors; "
    "non-trivial: a distance is shorter than the plain one",
)
def images(case, ctx):
    spec = case["latt"]
    ref = Ref(spec)
    ref.neighbor_table()
    must, may = ShapeRef(case["shape"], spec["vectors"]).expected(ref)[2:]
    if must.sum() == 0:
        ctx.discard("no site")
    if may.sum() > 400:
        ctx.discard("too many sites")
    latt = make_structure(lp, spec)
    shape, kwargs = make_shape(lp, case["shape"], spec["vectors"])
    latt.build(shape, **kwargs)
    judge(latt, [], case["sites"])
    for step in case["steps"]:
        op = step["op"]
        axs = []
        if op in ("set", "build"):
            arg = axes_arg(step, ref.dim)
            if op == "set":
                latt.set_periodic(arg)
            else:
                latt.build(shape, periodic=arg, **kwargs)
            axs = step["axes"] if np.any(latt.data.pmask) else []
        elif op == "rebuild":
            latt.build(shape, **kwargs)
        else:
            latt.set_periodic(None if op == "none" else False)
        vecs = []
        for ax in axs:
            ((_, n),) = latt.periodic_translation_vectors(ax, latt.primitive)
            vecs.append(np.asarray(n, np.int64) @ ref.vecs)
        vecs = combos(vecs)
        judge(latt, vecs, case["sites"])
        if axs:
            ctx.label(f"axes{len(axs)}", case["shape"]["kind"])
            pos = np.array(latt.positions)
            ctx.nontrivial(np.any(oracle(pos, vecs) < oracle(pos, []) - 1e-6))
