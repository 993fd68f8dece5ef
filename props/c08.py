"""C08: neighbors of finite lattices"""

import numpy as np
from hypothesis import strategies as st

import lattpy as lp
from vlib import gen
from vlib.core import Property, check
from vlib.neigh import compare_tables, expected_tables, tables, to_levels
from vlib.ref import Ref, make_structure
from vlib.shapes import ShapeRef, make_callback, make_shape

PROP = Property(
    "C08",
    [
        "distances closer than 2e-5 or on the rounding boundary of the 6 documented "
        "decimals are outside of the domain",
    ],
)


@st.composite
def cases(draw):
    case = draw(gen.built(max_dim=4, max_dist=4, max_atoms=4))
    dim = len(case["latt"]["vectors"])
    case["jobs"] = draw(st.sampled_from([1, 1, 2, -1]))
    if draw(st.integers(0, 4)) == 0 and dim == 1:
        shape = {"kind": "tuple", "primitive": True, "pos": None, "scalar": False}
        num = draw(st.sampled_from([63, 64, 126, 127, 128, 129, 254, 255, 256, 257]))
        shape["size"] = [num]
        case["shape"] = shape
        case["callback"] = None
    case["sites"] = draw(st.lists(st.integers(0, 10**6), min_size=1, max_size=6))
    return case


def distance_table(neighbors, distances, num):
    """Padded arrays to list of {neighbor: distance}"""
    neighbors, distances = np.asarray(neighbors), np.asarray(distances)
    check(neighbors.shape == distances.shape, "shapes of neighbors and distances")
    check(len(neighbors) == num, "number of rows")
    out = []
    for i in range(num):
        row = {}
        for j, d in zip(neighbors[i], distances[i]):
            check((j == num) == np.isinf(d), "invalid neighbors of site %s", i)
            if j != num:
                check(int(j) not in row, "duplicate neighbor")
                row[int(j)] = float(d)
        out.append(row)
    return out


def check_views(latt, want, vals, sites, ctx):
    """want: list of {neighbor: distance index}"""
    num = latt.num_sites
    compare_tables(tables(latt), want, "neighbors")
    for i, row in enumerate(want):
        for j in row:
            check(i != j, "self neighbor")
            check(want[j].get(i) == row[j], "oracle")
    pairs = sorted((i, j, d) for i, row in enumerate(want) for j, d in row.items())
    idx, dist = latt.neighbor_pairs()
    got = sorted((int(i), int(j), int(d)) for (i, j), d in zip(idx, dist))
    check(got == pairs, "neighbor pairs: %s", sorted(set(got) ^ set(pairs))[:6])
    idx, dist = latt.neighbor_pairs(unique=True)
    got = sorted((int(i), int(j), int(d)) for (i, j), d in zip(idx, dist))
    check(got == [p for p in pairs if p[0] < p[1]], "unique neighbor pairs")
    adj = latt.adjacency_matrix()
    check(adj.shape == (num, num), "shape of the adjacency matrix")
    dense = np.zeros((num, num), dtype=int)
    for i, j, d in pairs:
        dense[i, j] = d + 1
    check(np.array_equal(adj.toarray(), dense), "adjacency matrix")
    data = latt.data
    chosen = sorted({s % num for s in sites} | {0, num - 1})
    for i in chosen:
        row = want[i]
        everything = sorted(row)
        check(sorted(int(j) for j in latt.neighbors(i)) == everything, "all neighbors")
        check(
            sorted(int(j) for j in latt.neighbors(i, unique=True))
            == [j for j in everything if j > i],
            "unique neighbors",
        )
        check(
            sorted(int(j) for j in latt.nearest_neighbors(i))
            == sorted(j for j in row if row[j] == 0),
            "nearest neighbors",
        )
        check(
            sorted(int(j) for j in latt.nearest_neighbors(i, unique=True))
            == sorted(j for j in row if row[j] == 0 and j > i),
            "unique nearest neighbors",
        )
        for d in range(len(vals) + 1):
            level_ = sorted(j for j in row if row[j] == d)
            if d <= len(vals):
                check(sorted(int(j) for j in latt.neighbors(i, d)) == level_,
                      "neighbors of level %s", d)
                check(
                    sorted(int(j) for j in latt.neighbors(i, d, True))
                    == [j for j in level_ if j > i],
                    "unique neighbors of level %s", d,
                )
                check(
                    sorted(int(j) for j in data.get_neighbors(i, d, periodic=False))
                    == level_, "regular neighbors of level %s", d,
                )
                check(len(data.get_neighbors(i, d, periodic=True)) == 0,
                      "periodic neighbors")
        levels = [int(d) for d, _ in latt.iter_neighbors(i)]
        check(len(set(levels)) == len(levels), "iteration repeats a level")
        check(set(levels) == set(row.values()), "levels of the iteration")
        for d, ns in latt.iter_neighbors(i, unique=True):
            check(
                sorted(int(j) for j in ns)
                == sorted(j for j in row if row[j] == d and j > i),
                "unique iteration",
            )
        check(sorted(int(j) for j in data.get_neighbors(i)) == everything, "data")
        check(int(np.sum(data.neighbor_mask(i))) == len(row), "neighbor mask")
        check(
            sorted(int(j) for j in data.get_neighbors(i, unique=True, periodic=False))
            == [j for j in everything if j > i], "unique regular neighbors",
        )
        step = max(1, num // 40)
        for j in sorted({*range(0, num, step), *row}):
            res = latt.check_neighbors(i, j)
            if j in row:
                check(res is not None and int(res) == row[j], "check_neighbors")
            else:
                check(res is None, "check_neighbors of no neighbors %s %s: %s", i, j, res)


@PROP.sub(
    "finite",
    cases,
    1300,
    "random lattice, connections with up to 4 distances, shape and callback; all views "
    "of the neighbors; non-trivial: at least 4 sites, two distances or two atoms and "
    "sites with different numbers of neighbors",
    corpus=[],
)
def finite(case, ctx):
    spec = case["latt"]
    ref = Ref(spec)
    ref.neighbor_table()
    sref = ShapeRef(case["shape"], spec["vectors"])
    must, may = sref.expected(ref)[2:]
    if must.sum() == 0:
        ctx.discard("no site")
    if may.sum() > 900:
        ctx.discard("too many sites")
    latt = make_structure(lp, spec)
    shape, kwargs = make_shape(lp, case["shape"], spec["vectors"])
    callback = make_callback(case["callback"])
    latt.build(shape, num_jobs=case["jobs"], **kwargs)
    if callback is not None:
        keep = np.asarray(callback(latt.indices, latt.positions))
        if keep.any():
            latt.build(shape, num_jobs=case["jobs"], callback=callback, **kwargs)
            ctx.label("callback")
    num = latt.num_sites
    want, vals = expected_tables(ref, latt.indices, latt.positions)
    counts = {len(w) for w in want}
    ctx.label(f"dim{ref.dim}", f"levels{len(vals)}",
              "sites>" + str([n for n in (0, 1, 4, 20, 100, 255) if num > n][-1]))
    ctx.nontrivial(num >= 4 and (len(vals) > 1 or ref.num > 1) and len(counts) > 1)
    levels = to_levels(want, vals)
    check_views(latt, levels, vals, case["sites"], ctx)

    # stored distance values
    for i in {s % num for s in case["sites"]}:
        mask = latt.data.neighbor_mask(i)
        for j, d in zip(latt.data.neighbors[i, mask], latt.data.distances[i, mask]):
            check(abs(latt.data.distvals[d] - want[i][int(j)]) < 3e-6, "distance value")

    # neighbors of given points
    ind, pos = latt.indices.copy(), latt.positions.copy()
    for jobs in (1, 2):
        neighbors, dists = latt.compute_neighbors(ind, pos, num_jobs=jobs)
        got = distance_table(neighbors, dists, num)
        for i in range(num):
            check(set(got[i]) == set(want[i]), "computed neighbors of site %s", i)
            check(all(abs(got[i][j] - want[i][j]) < 3e-6 for j in got[i]), "distances")
    check(np.array_equal(ind, latt.indices) and np.array_equal(pos, latt.positions),
          "modified arguments")


@st.composite
def large_cases(draw):
    base = draw(st.sampled_from([127, 255, 256, 1000, 32767, 65535, 65536]))
    return {
        "num": base + draw(st.integers(-1, 2)),
        "range": draw(st.integers(1, 3)) if base not in (255, 256) or draw(st.booleans()) else
        draw(st.sampled_from([126, 127, 128, 129, 200])),
        "a": draw(st.sampled_from([1.0, 0.5, 2.5])),
        "start": draw(st.sampled_from([0, -70, -40000, 33000])),
    }


@PROP.sub(
    "large",
    large_cases,
    120,
    "chains around the limits of the integer types with 1-3 distances; all cases are "
    "non-trivial",
)
def large(case, ctx):
    num, a = case["num"], case["a"]
    latt = lp.Lattice.chain(a)
    latt.add_atom(neighbors=case["range"])
    start = case["start"]
    latt.build((num - 1) * a, pos=start * a)
    ctx.nontrivial()
    check(latt.num_sites == num, "number of sites: %s != %s", latt.num_sites, num)
    x = latt.indices[:, 0].astype(np.int64)
    check(np.array_equal(np.sort(x), np.arange(start, start + num)), "indices")
    check(np.allclose(latt.positions[:, 0], x * a), "positions")
    idx, dist = latt.neighbor_pairs()
    idx = idx.astype(np.int64)
    check(idx.min() >= 0 and idx.max() < num, "range of the pairs")
    delta = x[idx[:, 0]] - x[idx[:, 1]]
    check(np.array_equal(np.abs(delta), dist.astype(int) + 1), "distances of the pairs")
    codes = idx[:, 0] * num + idx[:, 1]
    check(len(np.unique(codes)) == len(codes), "duplicate pairs")
    total = sum(2 * (num - d) for d in range(1, case["range"] + 1))
    check(len(idx) == total, "number of pairs: %s != %s", len(idx), total)
    adj = latt.adjacency_matrix()
    check(adj.shape == (num, num) and adj.nnz == total, "adjacency matrix")
    check((adj != adj.T).nnz == 0, "symmetry")
    coo = adj.tocoo()
    check(np.array_equal(np.abs(x[coo.row] - x[coo.col]), coo.data.astype(int)),
          "distances of the adjacency matrix")
    dmap = latt.dmap()
    check(dmap.size == total + num, "size of the map")
