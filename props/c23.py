"""C23: results do not depend on the description of the lattice"""

import itertools
import math

import numpy as np
import scipy.spatial
from hypothesis import strategies as st

import lattpy as lp
from vlib import gen
from vlib.core import Property, check
from vlib.neigh import compare_tables, tables
from vlib.ref import Ref, arr, make_structure
from vlib.shapes import BAND, ShapeRef, make_shape

PROP = Property(
    "C23",
    [
        "no site between 1e-5 and 4e-3 (times the scale) outside of the shape, where the "
        "tolerance of the boundary decides",
        "distances closer than 2e-5 or on the rounding boundary of the 6 documented "
        "decimals are outside of the domain",
        "at most 250 sites",
    ],
)


@st.composite
def cases(draw):
    dim = draw(st.sampled_from([1, 2, 2, 2, 3, 3]))
    kinds = ["box", "bbox", "circle", "hull"] + (["donut"] if dim > 1 else [])
    if dim == 1:
        kinds = ["box", "bbox", "circle"]
    case = draw(gen.built(dim=dim, max_dist={1: 4, 2: 3, 3: 2}[dim], kinds=kinds, cb=False))
    num = len(case["latt"]["atoms"])
    ops = draw(
        st.lists(
            st.tuples(st.integers(0, dim - 1), st.integers(0, dim - 1), st.integers(-2, 2)),
            max_size=2,
        )
    )
    case["ops"] = [list(x) for x in ops]
    case["rows"] = list(draw(st.permutations(range(dim))))
    case["signs"] = [draw(st.sampled_from([1, 1, -1])) for _ in range(dim)]
    case["order"] = list(draw(st.permutations(range(num))))
    case["cells"] = [
        [draw(st.sampled_from([0, 0, 1, -1, 2])) for _ in range(dim)] for _ in range(num)
    ]
    case["scale"] = draw(st.sampled_from([1.0, 1.0, 2.0, 0.5, 1.3, 0.7, 3.0]))
    case["angles"] = [
        draw(st.one_of(st.sampled_from([0.0, 0.0, math.pi / 2, math.pi]),
                       gen.grid(0.0, 6.25, 0.25)))
        for _ in range({1: 0, 2: 1, 3: 3}[dim])
    ]
    case["mirror"] = draw(st.booleans())
    case["move"] = draw(st.lists(gen.grid(-5.0, 5.0, 0.5), min_size=dim, max_size=dim))
    case["still"] = draw(st.booleans())
    case["jobs"] = draw(st.sampled_from([-1, 1, 2]))
    case["min_neighbors"] = draw(st.sampled_from([None, None, 1, 2, 3]))
    return case


def isometry(case, dim):
    """Orthogonal matrix for row vectors"""
    q = np.eye(dim)
    if dim == 2:
        c, s = math.cos(case["angles"][0]), math.sin(case["angles"][0])
        q = np.array([[c, s], [-s, c]])
    elif dim == 3:
        for i, angle in enumerate(case["angles"]):
            c, s = math.cos(angle), math.sin(angle)
            j, k = [x for x in range(3) if x != i]
            r = np.eye(3)
            r[j, j] = r[k, k] = c
            r[j, k], r[k, j] = s, -s
            q = q @ r
    if case["mirror"]:
        q[:, 0] *= -1
    return q


class Other:
    """The second description of the same lattice"""

    def __init__(self, case):
        spec = case["latt"]
        vecs = arr(spec["vectors"])
        self.dim = dim = len(vecs)
        self.scale = case["scale"]
        self.q = isometry(case, dim)
        self.move = np.zeros(dim) if case["still"] else arr(case["move"])
        u = np.eye(dim)
        for i, j, n in case["ops"]:
            if i != j:
                u[i] += n * u[j]
        u = np.diag(case["signs"]) @ u[case["rows"]]
        new = u @ (self.scale * vecs @ self.q)
        pos = self(arr([a["frac"] for a in spec["atoms"]]) @ vecs)
        frac = pos @ np.linalg.inv(new) + arr(case["cells"])
        order = case["order"]
        self.order = order
        self.spec = {
            "vectors": new.tolist(),
            "atoms": [
                {"frac": frac[i].tolist(), "name": spec["atoms"][i]["name"]} for i in order
            ],
            "cons": [[spec["cons"][i][j] for j in order] for i in order],
        }

    def __call__(self, pos):
        return self.scale * arr(pos) @ self.q + self.move

    def shape(self, spec, vecs):
        kind = spec["kind"]
        if kind == "circle":
            return lp.Circle(self(spec["center"]), self.scale * spec["radius"])
        if kind == "donut":
            radii = self.scale * spec["radius"], self.scale * spec["inner"]
            return lp.Donut(self(spec["center"]), *radii)
        if kind == "hull":
            return lp.ConvexHull(self(spec["points"]))
        basis = np.eye(self.dim) if kind == "box" else arr(vecs)
        basis = self.scale * basis @ self.q
        pos = np.zeros(self.dim) if spec["pos"] is None else arr(spec["pos"])
        if self.dim > 1 and spec.get("flag", True):
            corners = itertools.product(*zip(pos, pos + arr(spec["size"])))
            return lp.ConvexHull(np.array(list(corners)) @ basis + self.move)
        return lp.Shape(spec["size"], pos + self.move @ np.linalg.inv(basis), basis)


@PROP.sub(
    "descriptions",
    cases,
    900,
    "pairs of descriptions of the same lattice: other basis vectors and unit cells, "
    "other order of the atoms, rotated, mirrored, moved and scaled, and the same shape; "
    "non-trivial: the descriptions differ and neighbors exist",
)
def descriptions(case, ctx):
    spec, dim = case["latt"], len(case["latt"]["vectors"])
    other = Other(case)
    ref, ref2 = Ref(spec), Ref(other.spec)
    ref.neighbor_table(), ref2.neighbor_table()  # domain
    sref = ShapeRef(case["shape"], spec["vectors"])
    _, pos, must, may = sref.expected(ref)
    depth = np.minimum(*sref.depths(pos))
    unit = max(1.0, 1 / case["scale"], case["scale"])
    if case["shape"]["kind"] == "bbox":
        # tolerance in units of the basis vectors and of lengths
        size = np.linalg.norm(spec["vectors"], axis=1)
        unit *= max(1.0, size.max(), 1 / size.min(),
                    np.abs(np.linalg.inv(spec["vectors"])).max() * 2)
    if np.any((depth > -2 * BAND * unit) & (depth < -1e-5)):
        ctx.discard("boundary")
    if must.sum() == 0:
        ctx.discard("no site")
    if may.sum() > 250:
        ctx.discard("too many sites")

    one = make_structure(lp, spec)
    two = make_structure(lp, other.spec)
    ctx.label(f"dim{dim}", case["shape"]["kind"])
    # infinite lattice
    check(abs(two.cell_volume - one.cell_volume * case["scale"] ** dim)
          < 1e-9 * two.cell_volume, "volume of the cell")
    for a, b in enumerate(other.order):
        check(two.num_neighbors[a] == one.num_neighbors[b], "number of neighbors")
        got = [x for x in two.distances[a] if x > 0]
        want = [x * case["scale"] for x in one.distances[b] if x > 0]
        check(len(got) == len(want) and np.allclose(got, want, rtol=0, atol=5e-6),
              "distances %s != %s", got, want)

    shape, kwargs = make_shape(lp, case["shape"], spec["vectors"])
    kwargs["min_neighbors"] = case["min_neighbors"]
    try:
        one.build(shape, **kwargs)
    except ValueError:
        check(case["min_neighbors"] is not None, "no sites")
        try:
            two.build(other.shape(case["shape"], spec["vectors"]),
                      min_neighbors=case["min_neighbors"])
        except ValueError:
            return
        check(False, "no sites in one of the descriptions")
    two.build(other.shape(case["shape"], spec["vectors"]), num_jobs=case["jobs"],
              min_neighbors=case["min_neighbors"])
    # sites
    num = one.num_sites
    check(two.num_sites == num, "number of sites: %s != %s", two.num_sites, num)
    want = other(one.positions)
    tol = 1e-8 * (1 + np.abs(want).max())
    dist, site = scipy.spatial.cKDTree(two.positions).query(want)
    check(dist.max() < tol, "positions of the sites")
    check(len(set(site.tolist())) == num, "sites")
    for i in range(num):
        j = int(site[i])
        alpha = other.order[int(two.indices[j, -1])]
        check(alpha == int(one.indices[i, -1]), "atom of site %s", i)
        check(one.atom(i).name == two.atom(j).name, "name of the atom of site %s", i)
    for i in {0, num // 2, num - 1}:
        check(two.superindex_from_pos(want[i]) == site[i], "site at a position")
    check(np.allclose(two.center_of_gravity(), other(one.center_of_gravity()),
                      rtol=0, atol=tol), "center of gravity")
    # neighbors
    table = [{} for _ in range(num)]
    for i, row in enumerate(tables(one)):
        table[site[i]] = {int(site[j]): d for j, d in row.items()}
    compare_tables(tables(two), table, "neighbors")
    val1 = one.data.distvals[np.isfinite(one.data.distvals)]
    val2 = two.data.distvals[np.isfinite(two.data.distvals)]
    check(val1.shape == val2.shape and
          np.allclose(val1 * case["scale"], val2, rtol=0, atol=5e-6), "distances")
    mats = []
    for latt in (one, two):
        dmap = latt.dmap()
        data = dmap.zeros()
        for a in range(ref.num):
            b = other.order[a] if latt is two else a
            data[dmap.onsite(a)] = 1.0 + b
        for d in range(len(val1)):
            data[dmap.hopping(d)] = -1.0 - d
        mats.append(dmap.build_csr(data).toarray())
    check(np.array_equal(mats[1][np.ix_(site, site)], mats[0]), "matrix")
    ctx.nontrivial(any(table) and (
        any(n for i, j, n in case["ops"] if i != j) or any(case["angles"])
        or case["scale"] != 1 or case["order"] != sorted(case["order"])))
    if case["min_neighbors"]:
        ctx.label("filtered")
