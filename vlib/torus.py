"""Lattices of complete cells and the oracle for periodic boundary conditions."""

import itertools

import numpy as np
from hypothesis import strategies as st

from . import gen
from .core import Discard
from .neigh import level_values
from .ref import Ref, arr, make_structure


def axis_vectors(dim, perm, signs, diag):
    rows = [[0.0] * dim for _ in range(dim)]
    for i in range(dim):
        rows[i][perm[i]] = signs[i] * diag[i]
    return rows


@st.composite
def cells(draw, max_dim=3, max_dist=None, modes=("prim", "prim", "cart", "cart"), max_atoms=3):
    """A lattice of complete cells, large enough for periodic boundary conditions.

    prim: any basis, axes along the basis vectors; cart: basis vectors along the
    cartesian axes in any order and direction, axes along the coordinates.
    """
    mode = draw(st.sampled_from(modes))
    dim = draw(st.sampled_from([d for d in (1, 2, 2, 2, 3) if d <= max_dim]))
    top = max_dist or {1: 4, 2: 3, 3: 2}[dim]
    num_at = min(max_atoms, {1: 3, 2: 3, 3: 2}[dim])
    if mode == "prim":
        latt = draw(gen.lattices(dim=dim, max_dist=top, max_atoms=num_at))
        plain = draw(st.booleans())
    else:
        perm = draw(st.permutations(range(dim)))
        signs = [draw(st.sampled_from([1, 1, 1, -1])) for _ in range(dim)]
        plain = draw(st.booleans())
        if plain:
            signs = [1] * dim
        s = draw(gen.scale())
        diag = [s * draw(gen.grid(0.5, 2.0, 0.25)) for _ in range(dim)]
        ats = draw(gen.atoms(dim, max_atoms=num_at))
        cons = draw(gen.connections(len(ats), max_dist=top))
        latt = {"vectors": axis_vectors(dim, perm, signs, diag), "atoms": ats,
                "cons": cons}
    if plain:
        for a in latt["atoms"]:
            a["frac"] = [x % 1 for x in a["frac"]]
        # boxes with a margin around the cells
        plain = all(x < 0.84 for a in latt["atoms"] for x in a["frac"])
    mag = draw(st.sampled_from([0, 0, 3, 60, 140, 40000]))
    return {
        "mode": mode,
        "plain": plain,
        "latt": latt,
        "start": [draw(st.integers(-mag, mag)) for _ in range(dim)],
        "extra": [draw(st.integers(0, 2)) for _ in range(dim)],
        # axes that are not big enough
        "small": [draw(st.integers(0, 5)) == 0 for _ in range(dim)],
        # number of sites around the limits of the integer types
        "fill_sites": draw(targets()),
        # as many cells on both sides of the origin
        "centre": draw(st.booleans()),
    }


@st.composite
def targets(draw):
    if draw(st.integers(0, 9)) != 9:
        return 0
    return draw(st.sampled_from([120, 126, 127, 128, 129, 250, 253, 254, 255, 256, 257]))


@st.composite
def axes(draw, dim):
    """Argument of set_periodic"""
    num = draw(st.integers(1, dim))
    axs = draw(st.permutations(range(dim)))[:num]
    form = draw(st.sampled_from(["list", "tuple", "array", "auto", "bool"]))
    return {"axes": list(axs), "form": form}


def axes_arg(spec, dim):
    axs, form = spec["axes"], spec["form"]
    if form == "bool" and len(axs) == dim:
        return True
    if form == "auto" and len(axs) == 1:
        return axs[0]
    if form == "tuple":
        return tuple(axs)
    if form == "array":
        return np.array(axs)
    return list(axs)


class Cells:
    """Geometry of a case of `cells`"""

    def __init__(self, case, max_sites=420):
        self.case = case
        self.spec = case["latt"]
        self.ref = Ref(self.spec)
        self.dim = self.ref.dim
        self.prim = case["mode"] == "prim"
        vecs = self.ref.vecs
        self.range = self.ref.max_range()
        self.height = 1 / np.linalg.norm(np.linalg.inv(vecs), axis=0)
        self.num = []
        for i in range(self.dim):
            n = int(np.floor(2 * self.range / self.height[i] + 1e-6)) + 1
            n += case["extra"][i]
            if case["small"][i]:
                n = 1 + case["extra"][i]
            self.num.append(n)
        self.start = list(case["start"])
        if case.get("fill_sites", 0):
            ax = case["extra"][0] % self.dim
            other = int(np.prod(self.num)) // self.num[ax] * self.ref.num
            self.num[ax] = max(self.num[ax], case["fill_sites"] // other)
            if case.get("centre"):
                self.start[ax] = -(self.num[ax] // 2)
        if case.get("strip"):
            # many cells along one axis, on both sides of the origin
            ax, num, start = case["strip"]
            self.num[ax], self.start[ax] = max(num, self.num[ax]), start
        if np.prod(self.num) * self.ref.num > max_sites:
            raise Discard("too many sites")
        # basis vector of each axis
        if self.prim:
            self.vec_of_axis = list(range(self.dim))
        else:
            self.vec_of_axis = [int(np.argmax(np.abs(vecs[:, ax])))
                                for ax in range(self.dim)]

    def large(self, ax):
        i = self.vec_of_axis[ax]
        num, height = self.num[i], self.height[i]
        frac = [a["frac"][i] for a in self.spec["atoms"]]
        # sites of cells at both ends are at most one period apart
        spread = num - 1 + max(frac) - min(frac)
        if (2 * num - spread) * height <= self.range + 1e-6:
            return False
        return num * height > 2 * self.range * (1 + 1e-9) + 1e-6

    def translation(self, ax):
        i = self.vec_of_axis[ax]
        n = np.zeros(self.dim, dtype=np.int64)
        n[i] = self.num[i]
        if not self.prim and self.ref.vecs[i, ax] < 0:
            n[i] *= -1
        return n

    def sites(self):
        rng = [range(s, s + n) for s, n in zip(self.start, self.num)]
        return [(*c, a) for c in itertools.product(*rng) for a in range(self.ref.num)]

    def args(self, lp):
        """Arguments for building the cells"""
        pos = self.ref.position(np.array(self.sites()))
        start, num = np.array(self.start), np.array(self.num)
        if self.case["plain"]:
            if self.prim:
                return dict(shape=tuple(num - 0.05), pos=tuple(start - 0.05),
                            primitive=True)
            diag = np.abs(self.ref.vecs).max(axis=0)
            order = self.vec_of_axis
            shape = (num[order] - 0.1) * diag
            where = (start[order] - 0.05) * diag
            if self.dim == 1:
                return dict(shape=shape[0], pos=where[0])
            return dict(shape=tuple(shape), pos=tuple(where))
        lo, hi = pos.min(axis=0) - 0.1, pos.max(axis=0) + 0.1

        def callback(indices, positions):
            n = np.asarray(indices)[:, :-1].astype(np.int64)
            return np.all((n >= start) & (n < start + num), axis=1)

        return dict(shape=lp.Shape(hi - lo, lo), primitive=self.prim, callback=callback)

    def build(self, lp, latt=None, **kwargs):
        if latt is None:
            latt = make_structure(lp, self.spec)
        args = self.args(lp)
        shape = args.pop("shape")
        latt.build(shape, **args, **kwargs)
        return latt

    def images(self, axs):
        """All combinations of the translations of the periodic axes except zero"""
        vecs = [self.translation(ax) for ax in axs]
        out = []
        for c in itertools.product([-1, 0, 1], repeat=len(axs)):
            if any(c):
                out.append(np.sum([x * v for x, v in zip(c, vecs)], axis=0))
        return out


def regular_table(ref, indices, positions):
    mask, rounded = ref.finite_neighbors(indices, np.asarray(positions, float))
    return [
        {int(j): float(rounded[i, j]) for j in np.nonzero(mask[i])[0]}
        for i in range(len(mask))
    ]


def periodic_table(ref, indices, positions, images, regular=None):
    """List of {neighbor: (distance, nvec)}: site i is connected to the neighbor
    translated by nvec."""
    indices = np.asarray(indices).astype(np.int64)
    positions = np.asarray(positions, float)
    out = [{} for _ in range(len(indices))]
    for nvec in images:
        shifted = positions + nvec @ ref.vecs
        diff = positions[:, None, :] - shifted[None, :, :]
        dist = np.sqrt((diff**2).sum(axis=-1))
        mask, rounded = ref.connected(dist, indices[:, -1])
        for i, j in zip(*np.nonzero(mask)):
            i, j = int(i), int(j)
            if regular is not None and j in regular[i]:
                continue
            d = float(rounded[i, j])
            if j not in out[i] or d < out[i][j][0] - 1e-5:
                out[i][j] = (d, tuple(int(x) for x in nvec))
    return out


def levels_of(regular):
    return level_values(regular)


__all__ = ["Cells", "arr", "axes", "axes_arg", "cells", "levels_of", "periodic_table",
           "regular_table"]
