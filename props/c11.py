"""C11: data map and sparse matrices"""

import numpy as np
from hypothesis import strategies as st

import lattpy as lp
from vlib.core import Property, check
from vlib.history import ALL, Model, histories
from vlib.neigh import tables

PROP = Property("C11", ["at most 255 distances"])


@st.composite
def cases(draw):
    case = draw(histories(kinds=ALL + ["rebuild", "repeat", "periodic"], max_len=5))
    case["ask"] = draw(st.integers(0, 2**6 - 1))
    case["norb"] = draw(st.integers(1, 3))
    case["complex"] = draw(st.booleans())
    case["long"] = None
    if len(case["latt"]["vectors"]) == 1 and draw(st.integers(0, 3)) == 0:
        case["long"] = draw(st.sampled_from([126, 127, 128, 254, 255, 256, 257]))
    return case


def site_value(alpha, factor):
    return (1.5 + alpha) * factor


def hop_value(dist, factor):
    return (-0.7 - 10 * dist) * factor


def judge_map(latt, case):
    num = latt.num_sites
    table = tables(latt)
    alphas = [int(x) for x in latt.indices[:, -1]]
    pairs = {(i, j): d for i, row in enumerate(table) for j, d in row.items()}
    dmap = latt.dmap()
    check(dmap.size == num + len(pairs), "size of the map: %s != %s", dmap.size,
          num + len(pairs))
    rows = np.asarray(dmap.rows).astype(np.int64)
    cols = np.asarray(dmap.cols).astype(np.int64)
    check(rows.shape == (dmap.size,) and cols.shape == (dmap.size,), "shape")
    ind = np.asarray(dmap.indices).astype(np.int64)
    check(np.array_equal(ind, [rows, cols]), "indices")
    entries = list(zip(rows.tolist(), cols.tolist()))
    check(len(set(entries)) == len(entries), "duplicate entries")
    check(set(entries) == set(pairs) | {(i, i) for i in range(num)}, "entries")
    is_site = np.array([i == j for i, j in entries])
    check(np.array_equal(np.asarray(dmap.onsite(), bool), is_site), "all sites")
    check(np.array_equal(np.asarray(dmap.hopping(), bool), ~is_site), "all pairs")
    num_alpha = latt.num_base
    levels = sorted(set(pairs.values()))
    for a in range(num_alpha + 1):
        want = [i == j and alphas[i] == a for i, j in entries]
        check(np.array_equal(np.asarray(dmap.onsite(a), bool), want), "sites of atom %s", a)
    for d in range((levels[-1] if levels else 0) + 2):
        want = [pairs.get(e) == d for e in entries]
        check(np.array_equal(np.asarray(dmap.hopping(d), bool), want), "pairs of level %s", d)

    factor = 1 + 0.5j if case["complex"] else 1.0
    dtype = np.complex128 if case["complex"] else np.float64
    # single orbital
    data = dmap.zeros(dtype=dtype)
    check(data.shape == (dmap.size,) and data.dtype == dtype and not data.any(), "zeros")
    for a in range(num_alpha):
        data[dmap.onsite(a)] = site_value(a, factor)
    for d in levels:
        data[dmap.hopping(d)] = hop_value(d, factor)
    dense = np.zeros((num, num), dtype=dtype)
    for i in range(num):
        dense[i, i] = site_value(alphas[i], factor)
    for (i, j), d in pairs.items():
        dense[i, j] = hop_value(d, factor)
    csr = dmap.build_csr(data)
    check(csr.shape == (num, num), "shape of the CSR matrix: %s", csr.shape)
    check(np.allclose(csr.toarray(), dense), "CSR matrix")
    csr = dmap.build_csr(data, shape=(num, num), dtype=np.complex128)
    check(csr.dtype == np.complex128 and np.allclose(csr.toarray(), dense), "CSR matrix")
    # blocks
    norb = case["norb"]
    data = dmap.zeros(norb, dtype=dtype)
    check(data.shape == (dmap.size, norb, norb), "shape of the blocks")
    block = np.arange(1, norb**2 + 1).reshape(norb, norb) * 0.25
    for a in range(num_alpha):
        data[dmap.onsite(a)] = site_value(a, factor) * block
    for d in levels:
        data[dmap.hopping(d)] = hop_value(d, factor) * (block + 1)
    big = np.kron(np.diag(np.diag(dense)), block)
    big = big + np.kron(dense - np.diag(np.diag(dense)), block + 1)
    bsr = dmap.build_bsr(data)
    check(bsr.shape == big.shape, "shape of the BSR matrix")
    if num * norb <= 400:
        check(np.allclose(bsr.toarray(), big), "BSR matrix")
    else:
        check(abs(bsr - bsr.__class__(big)).max() < 1e-9, "BSR matrix")
    indices, indptr = dmap.indices_indptr()
    check(len(indptr) == num + 1 and indptr[0] == 0 and indptr[-1] == dmap.size, "indptr")
    for i in range(num):
        got = sorted(int(x) for x in indices[indptr[i]:indptr[i + 1]])
        check(got == sorted([i, *table[i]]), "columns of row %s", i)
    return len(pairs)


@PROP.sub(
    "matrix",
    cases,
    1100,
    "random lattices with histories of up to 5 changes (periodic axes, edits of the "
    "data, repeating and rebuilding), the map is requested before and after; "
    "non-trivial: at least one change after the map was requested",
)
def matrix(case, ctx):
    model = Model(lp, case)
    latt = model.latt
    if case["long"]:
        latt.build((case["long"] - 0.5) * abs(case["latt"]["vectors"][0][0]))
        model.complete = False
        model.model = None
        ctx.label("long")
        judge_map(latt, case)
        return
    judge_map(latt, case)
    for i, step in enumerate(case["ops"]):
        if not model.apply(step):
            continue
        ctx.label(step["op"])
        ctx.nontrivial()
        if case["ask"] >> i & 1 or i == len(case["ops"]) - 1:
            judge_map(latt, case)
    judge_map(latt, case)
    other = latt.copy()
    judge_map(other, case)
    # user-defined changes of the returned matrix or data don't change the map
    dmap = latt.dmap()
    dmap.zeros()[:] = 1
    judge_map(latt, case)


class Plain:
    """Site data without a lattice"""

    def __init__(self, data, num_base):
        self.data, self.num_base = data, num_base

    num_sites = property(lambda self: self.data.num_sites)
    indices = property(lambda self: self.data.indices)

    def dmap(self):
        return self.data.map()

    def iter_neighbors(self, site):
        return self.data.iter_neighbors(site)


@st.composite
def plain_cases(draw):
    num = draw(st.integers(1, 14))
    top = draw(st.sampled_from([1, 3, 6, 20, 130, 300]))
    dists = draw(st.sampled_from([1, 2, 5, 40, 200]))
    pairs = draw(
        st.lists(
            st.tuples(
                st.integers(0, num - 1), st.integers(0, num - 1), st.integers(1, dists)
            ),
            max_size=3 * num,
        )
    )
    return {
        "alphas": draw(st.lists(st.integers(0, top), min_size=num, max_size=num)),
        "pairs": [list(p) for p in pairs],
        "norb": draw(st.integers(1, 2)),
        "complex": False,
        # direct order of the neighbors or shuffled and with unused columns
        "reverse": draw(st.booleans()),
        "pad": draw(st.integers(0, 2)),
        # all sites have the same number of neighbors
        "ring": draw(st.sampled_from([0, 0, 0, 1, 2])),
        "dtype": draw(st.sampled_from(["int8", "int16", "int32", "int64"])),
    }


@PROP.sub(
    "data",
    plain_cases,
    500,
    "site data of arbitrary atoms, neighbors and distances, passed directly to "
    "LatticeData; non-trivial: at least two atoms and distances",
)
def plain(case, ctx):
    num = len(case["alphas"])
    table = [{} for _ in range(num)]
    for i, j, d in case["pairs"]:
        if i != j:
            table[i][j] = table[j][i] = d * 0.5
    if case["ring"] and num > 2:
        table = [{} for _ in range(num)]
        for i in range(num):
            for n in range(1, case["ring"] + 1):
                j = (i + n) % num
                if j != i:
                    table[i][j] = table[j][i] = n * 0.5
    dtype = case["dtype"]
    if dtype == "int8" and max(case["alphas"]) > 127:
        dtype = "int16"
    indices = np.array([[i, a] for i, a in enumerate(case["alphas"])], dtype=dtype)
    cols = max(max((len(r) for r in table), default=0) + case["pad"], 1)
    neighbors = np.full((num, cols), num)
    dists = np.full((num, cols), np.inf)
    for i, row in enumerate(table):
        items = sorted(row.items(), reverse=case["reverse"])
        for n, (j, d) in enumerate(items):
            neighbors[i, n], dists[i, n] = j, d
    data = lp.LatticeData(indices, np.arange(num)[:, None] * 1.0, neighbors, dists)
    latt = Plain(data, max(case["alphas"]) + 1)
    vals = sorted({d for row in table for d in row.values()})
    want = [{j: vals.index(d) for j, d in row.items()} for row in table]
    check(tables(latt) == want, "neighbors")
    judge_map(latt, case)
    ctx.label(f"alpha{max(case['alphas']) // 128}", f"dists{len(vals) // 8}")
    ctx.nontrivial(len(set(case["alphas"])) > 1 and len(vals) > 1)
