"""C22: spectrum of periodic lattices"""

import itertools

import numpy as np
from hypothesis import strategies as st

import lattpy as lp
from vlib.core import Discard, Property, check
from vlib.neigh import rows
from vlib.torus import Cells, axes_arg, cells, periodic_table, regular_table

PROP = Property(
    "C22",
    [
        "fully periodic lattices of complete cells with a thickness of more than twice "
        "the range of the neighbors along every axis, at most 150 sites",
        "hopping amplitudes depend on the distance, onsite energies on the atom",
    ],
)
STEPS = ["sort", "rsort", "copy", "repeat", "rebuild", "partial", "clear", "map"]


@st.composite
def cases(draw):
    case = draw(cells(max_dist=2))
    if case["fill_sites"] > 130:
        case["fill_sites"] = 0
    dim = len(case["latt"]["vectors"])
    case["small"] = [False] * dim
    case["before"] = draw(st.lists(st.sampled_from(STEPS), max_size=3))
    case["after"] = draw(
        st.lists(st.sampled_from(["sort", "rsort", "copy", "map", "again", "neighbors"]), max_size=2)
    )
    case["ax"] = draw(st.integers(0, dim - 1))
    case["side"] = draw(st.sampled_from([1, -1]))
    case["axes"] = {
        "axes": list(draw(st.permutations(range(dim)))),
        "form": draw(st.sampled_from(["list", "array", "auto", "bool"])),
    }
    case["where"] = draw(st.sampled_from(["set", "set", "build"]))
    case["twist"] = draw(st.lists(st.integers(0, 7), min_size=dim, max_size=dim))
    num = len(case["latt"]["atoms"])
    case["energy"] = draw(st.lists(st.integers(-3, 3), min_size=num, max_size=num))
    return case


def amplitude(level):
    return -1.0 / (1 + level) - 0.13 * (level % 3)


def apply(latt, geo, op, case):
    ax = case["ax"]
    if op in ("sort", "rsort"):
        latt.data.sort(ax, reverse=op == "rsort")
    elif op == "copy":
        latt = latt.copy()
    elif op == "neighbors":
        latt.data.sort_neighbors()
    elif op == "map":
        latt.dmap()
    elif op == "rebuild":
        geo.build(lp, latt)
    elif op == "partial":
        latt.set_periodic(ax)
    elif op == "clear":
        latt.set_periodic(None)
    elif op == "again":
        latt.set_periodic(axes_arg(case["axes"], geo.dim))
    elif op == "repeat" and latt.num_sites <= 60:
        i = geo.vec_of_axis[ax]
        latt.repeat(1, ax, case["side"])
        positive = geo.prim or geo.ref.vecs[i, ax] > 0
        if positive != (case["side"] > 0):
            geo.start[i] -= geo.num[i]
        geo.num[i] *= 2
    return latt


def wavevectors(recip, num, shift):
    out = []
    for m in itertools.product(*[range(n) for n in num]):
        frac = [(x + s) / n for x, s, n in zip(m, shift, num)]
        out.append(np.array(frac) @ recip)
    return out


@PROP.sub(
    "bloch",
    cases,
    500,
    "fully periodic random lattices after histories of sorting, copying, repeating, "
    "rebuilding and changing the periodic axes: the eigenvalues of the matrix of the "
    "data map are those of the Bloch matrices at the wavevectors of the lattice, also "
    "with twisted boundary conditions; non-trivial: more than one cell along an axis",
)
def bloch(case, ctx):
    geo = Cells(case, max_sites=150)
    ref, dim = geo.ref, geo.dim
    if not all(geo.large(ax) for ax in range(dim)):
        ctx.discard("small lattice")
    latt = geo.build(lp)
    for op in case["before"]:
        latt = apply(latt, geo, op, case)
        ctx.label(op)
    if case["where"] == "build" and "repeat" not in case["before"]:
        geo.build(lp, latt, periodic=axes_arg(case["axes"], dim))
    else:
        latt.set_periodic(axes_arg(case["axes"], dim))
    for op in case["after"]:
        latt = apply(latt, geo, op, case)
        ctx.label("+" + op)
    ctx.label(f"dim{dim}", case["mode"], f"atoms{ref.num}")
    check(sorted(rows(latt.indices)) == geo.sites(), "sites")

    images = geo.images(range(dim))
    regular = regular_table(ref, latt.indices, latt.positions)
    for i, row in enumerate(periodic_table(ref, latt.indices, latt.positions, images)):
        if i in row or set(row) & set(regular[i]):
            raise Discard("small lattice")

    dists, table = ref.neighbor_table()
    dists = np.array(sorted({d for row in dists for ds in row for d in ds}))

    def level(d):
        n = int(np.argmin(np.abs(dists - d)))
        check(abs(dists[n] - d) < 3e-6, "distance %s is none of the lattice", d)
        return n

    # matrix of the finite lattice
    num = latt.num_sites
    dmap = latt.dmap()
    data = dmap.zeros(dtype=np.complex128)
    for a in range(ref.num):
        data[dmap.onsite(a)] = 0.5 * case["energy"][a] + 0.1 * a
    for d, val in enumerate(latt.data.distvals):
        if np.isfinite(val):
            data[dmap.hopping(d)] = amplitude(level(val))
    ham = dmap.build_csr(data).toarray()
    check(ham.shape == (num, num), "shape of the matrix")
    check(np.allclose(ham, ham.conj().T), "matrix is not hermitian")
    # phase for each crossing of the boundary
    twist = np.array(case["twist"]) / 8
    size = np.array(geo.num)
    shift = np.zeros(dim)
    if np.any(twist):
        ctx.label("twist")
        shift = twist
        for i in range(num):
            mask = latt.data.neighbor_mask(i, periodic=True)
            sites = latt.data.neighbors[i, mask]
            for j, nvec in zip(sites, latt.data.pnvecs[i, mask]):
                # the neighbor is the site j translated by -nvec
                ham[i, j] *= np.exp(-2j * np.pi * np.dot(nvec / size, twist))
        check(np.allclose(ham, ham.conj().T), "twisted matrix is not hermitian")
    got = np.linalg.eigvalsh(ham)

    # reference: neighbors of the infinite lattice
    recip = 2 * np.pi * np.linalg.inv(ref.vecs).T
    want = []
    kvecs = wavevectors(recip, geo.num, shift)
    for k in kvecs:
        mat = np.zeros((ref.num, ref.num), complex)
        for a in range(ref.num):
            mat[a, a] += 0.5 * case["energy"][a] + 0.1 * a
            for site, d in table[a]:
                n, b = np.array(site[:-1], float), int(site[-1])
                mat[a, b] += amplitude(level(d)) * np.exp(1j * np.dot(k, n @ ref.vecs))
        want.extend(np.linalg.eigvalsh(mat))
    check(np.allclose(got, np.sort(want), rtol=0, atol=1e-7),
          "eigenvalues: %s != %s", got, np.sort(want))

    # the same with the library: reciprocal vectors and neighbor vectors or weights
    lib = []
    for k in wavevectors(latt.reciprocal_vectors(), geo.num, shift):
        mat = np.zeros((ref.num, ref.num), complex)
        for a in range(ref.num):
            mat[a, a] += 0.5 * case["energy"][a] + 0.1 * a
            for i, d in enumerate(x for x in latt.distances[a] if x > 0):
                t = amplitude(level(d))
                if ref.num == 1:
                    mat[0, 0] += t * latt.fourier_weights(k, 0, i)
                    continue
                ind = latt.get_neighbors(alpha=a, distidx=i)
                vecs = latt.get_neighbor_vectors(alpha=a, distidx=i)
                for row, vec in zip(ind, vecs):
                    mat[a, int(row[-1])] += t * np.exp(1j * np.dot(k, vec))
        lib.extend(np.linalg.eigvalsh(mat))
    check(np.allclose(np.sort(lib), np.sort(want), rtol=0, atol=1e-7),
          "bands of the neighbor vectors: %s != %s", np.sort(lib), np.sort(want))
    ctx.nontrivial(max(geo.num) > 1)
