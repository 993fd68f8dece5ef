"""C17: lookups and geometric queries"""

import numpy as np
from hypothesis import strategies as st
from scipy.spatial import cKDTree

import lattpy as lp
from vlib import gen
from vlib.core import Discard, Property, check
from vlib.neigh import rows
from vlib.ref import Ref, arr, expect_close, make_structure
from vlib.shapes import make_shape

PROP = Property(
    "C17",
    ["sites closer than 1e-9 to the width of an outer slice are not judged",
     "connections are computed between lattices with the same structure"],
)


@st.composite
def long_chain(draw):
    """Many cells on both sides of the origin: indices close to the limits of a dtype"""
    dim = draw(st.sampled_from([1, 1, 2]))
    vecs = [[float(i == j) for j in range(dim)] for i in range(dim)]
    size = draw(st.integers(120, 320))
    start = draw(st.integers(-200, 20))
    return {
        "latt": {"vectors": vecs, "atoms": [{"frac": [0.0] * dim, "name": "A"}],
                 "cons": [[1]]},
        "shape": {"kind": "tuple", "primitive": False, "size": [size] + [1] * (dim - 1),
                  "pos": [start] + [0] * (dim - 1), "scalar": False},
    }


@st.composite
def lookup_cases(draw):
    if draw(st.integers(0, 7)) == 0:
        case = draw(long_chain())
    else:
        case = draw(gen.built(max_dist=2, size=0.8, cb=False))
    dim = len(case["latt"]["vectors"])
    num = st.integers(0, 10**4)
    case["masses"] = draw(st.lists(st.one_of(st.none(), gen.grid(0.5, 3, 0.5)), min_size=4,
                                   max_size=4))
    case["sites"] = draw(st.lists(num, min_size=1, max_size=4))
    case["shift"] = draw(st.lists(st.integers(-3, 3), min_size=dim, max_size=dim))
    case["delta"] = draw(st.lists(gen.grid(-1, 1, 0.25), min_size=dim, max_size=dim))
    case["atol"] = draw(st.sampled_from([None, None, 1e-4, 1e-2, 1e-6]))
    case["form"] = draw(st.sampled_from(["row", "list", "tuple", "int64"]))
    case["fractions"] = draw(st.lists(gen.grid(-0.5, 1.5, 0.125), min_size=dim, max_size=dim))
    bound = st.one_of(st.none(), st.tuples(num, st.sampled_from([0.0, 0.0, 0.13, -0.13])),
                      st.just("zero"))
    case["mins"] = draw(st.one_of(st.none(), st.lists(bound, min_size=1, max_size=dim)))
    case["maxs"] = draw(st.one_of(st.none(), st.lists(bound, min_size=1, max_size=dim)))
    case["invert"] = draw(st.booleans())
    case["ax"] = draw(st.integers(0, dim - 1))
    case["offset"] = draw(gen.grid(0.05, 2.5, 0.1))
    case["edit"] = draw(st.sampled_from([None, None, "remove", "permute", "sort"]))
    case["seed"] = draw(st.integers(0, 1000))
    return case


def build(case, latt):
    shape, kw = make_shape(lp, case["shape"], case["latt"]["vectors"])
    latt.build(shape, **kw)


def make(case, max_sites=700):
    spec = case["latt"]
    ref = Ref(spec)
    ref.neighbor_table()
    latt = make_structure(lp, spec)
    for at, m in zip(latt.atoms, case.get("masses", [])):
        if m is not None:
            at["mass"] = m
    shape, kw = make_shape(lp, case["shape"], spec["vectors"])
    ind, pos = latt.build_indices(shape, kw.get("primitive", False) and not
                                  isinstance(shape, lp.AbstractShape), kw.get("pos"),
                                  return_pos=True)
    if not 1 <= len(ind) <= max_sites:
        raise Discard("number of sites")
    latt.build(shape, **kw)
    return ref, latt


@PROP.sub(
    "lookup",
    lookup_cases,
    1500,
    "built and edited lattices: lookup of sites by position and index, limits, centers, "
    "volume, masks and searches compared with the stored positions; non-trivial: at least "
    "two sites",
)
def lookup(case, ctx):
    ref, latt = make(case)
    data = latt.data
    if case["edit"] and latt.num_sites > 3:
        ctx.label(case["edit"])
        rng = np.random.RandomState(case["seed"])
        if case["edit"] == "remove":
            data.remove(sorted(rng.permutation(latt.num_sites)[: latt.num_sites // 3 + 1]))
        elif case["edit"] == "permute":
            data.sort(indices=rng.permutation(latt.num_sites))
        else:
            data.sort(case["ax"], reverse=bool(case["seed"] % 2))
    num, dim = latt.num_sites, ref.dim
    ctx.nontrivial(num >= 2)
    ind = np.array(latt.indices).astype(np.int64)
    pos = np.array(latt.positions)
    check(len(ind) == num == len(pos), "number of sites")
    backup = data.indices.copy(), data.positions.copy(), data.neighbors.copy()
    expect_close(pos, ref.position(ind), "positions", 1e-8)
    expect_close(latt.get_positions(latt.indices), pos, "positions of the indices", 1e-8)
    spread = np.abs(pos).max()
    known = {r: i for i, r in enumerate(rows(ind))}
    atol = case["atol"]
    if atol is not None and num > 1:
        # the tolerance is clearly smaller than the distances of the sites
        space = cKDTree(pos).query(pos, 2)[0][:, 1].min()
        atol = atol if atol < 0.25 * space / np.sqrt(dim) else None
    kw = {} if atol is None else {"atol": atol}
    tol = atol or 1e-4
    for s in case["sites"]:
        i = s % num
        p = pos[i]
        # -- by position
        for arg in (p, p.tolist(), tuple(p)):
            check(latt.superindex_from_pos(arg, **kw) == i, "site of position %s", p)
        q = p + 0.4 * tol * np.sign(arr(case["delta"]))
        check(latt.superindex_from_pos(q, **kw) == i, "site close to position %s", p)
        q = p + 0.3 * arr(case["delta"])
        dist = np.abs(pos - q).max(axis=1)
        if dist.min() > 2 * tol + 1e-9 * spread:
            check(latt.superindex_from_pos(q, **kw) is None, "%s is no site", q)
            ctx.label("no site at position")
        # -- by index
        row = latt.indices[i]
        arg = {"row": row, "list": row.tolist(), "tuple": tuple(row.tolist()),
               "int64": row.astype(np.int64)}[case["form"]]
        got = latt.superindex_from_index(arg)
        check(got == i, "site of index %s: %s != %s", row.tolist(), got, i)
        other = ind[i].copy()
        other[:-1] += case["shift"]
        for a in range(ref.num):
            other[-1] = a
            got = latt.superindex_from_index(other.tolist())
            want = known.get(tuple(int(x) for x in other))
            check(got == want, "site of index %s: %s != %s", other.tolist(), got, want)
            if want is None:
                ctx.label("no site at index")
        # -- properties of the site
        alpha = int(ind[i, -1])
        check(int(latt.alpha(i)) == alpha, "atom index")
        check(latt.atom(i) is latt.atoms[alpha], "atom")
        check(latt.get_atom(latt.alpha(i)) is latt.atoms[alpha], "atom of the atom index")
        check(np.array_equal(latt.position(i), p), "position")
        expect_close(latt.get_position(ind[i, :-1], alpha), p, "position of the index", 1e-8)
    for a in range(ref.num):
        check(np.array_equal(data.get_positions(a), pos[ind[:, -1] == a]), "sublattice")
    # -- geometry
    low, high = pos.min(axis=0), pos.max(axis=0)
    expect_close(latt.limits(), np.array([low, high]), "limits")
    expect_close(data.get_limits(), np.array([low, high]), "limits of the data")
    lims = np.array([ind.min(axis=0), ind.max(axis=0)])
    check(np.array_equal(data.get_index_limits(), lims), "limits of the indices")
    check(np.array_equal(data.get_cell_limits(), lims[:, :-1]), "limits of the cells")
    check(np.array_equal(data.get_translation_limits(), lims[:, :-1]), "limits of the cells")
    expect_close(latt.center(), (low + high) / 2, "center")
    f = arr(case["fractions"])
    expect_close(latt.relative_position(f), low + f * (high - low), "relative position")
    expect_close(latt.relative_position(case["fractions"]), low + f * (high - low),
                 "relative position")
    expect_close(latt.relative_position(f[0]), low + f[0] * (high - low), "relative position")
    w = np.array([(case["masses"] + [None] * 9)[a] or 1.0 for a in ind[:, -1]])
    expect_close(latt.center_of_gravity(), w @ pos / w.sum(), "center of gravity", 1e-8)
    cells = len({r[:-1] for r in rows(ind)})
    check(latt.num_cells == cells, "number of cells")
    expect_close(latt.volume(), cells * abs(np.linalg.det(ref.vecs)), "volume")
    if not case["edit"]:
        expect_close(latt.shape, high - low, "shape")
        expect_close(latt.pos, low, "pos")
    # -- bounds

    def bounds(spec, default):
        if spec is None:
            return None, np.full(dim, default)
        out = [None if b is None else 0.0 if b == "zero" else float(pos[b[0] % num, k] + b[1])
               for k, b in enumerate(spec)]
        full = [default if b is None else b for b in out] + [default] * (dim - len(out))
        return out, np.array(full)

    mins, lo = bounds(case["mins"], -np.inf)
    maxs, hi = bounds(case["maxs"], np.inf)
    want = np.all((lo <= pos) & (pos <= hi), axis=1)
    if case["invert"]:
        want = ~want
    mask = data.site_mask(mins, maxs, case["invert"])
    check(np.asarray(mask).dtype == bool and mask.shape == (num,), "mask %s", mask)
    check(np.array_equal(mask, want), "mask of %s, %s", mins, maxs)
    check(np.array_equal(data.find_sites(mins, maxs, case["invert"]), np.where(want)[0]),
          "sites in %s, %s", mins, maxs)
    if not case["invert"]:
        check(np.array_equal(data.site_mask(mins=mins, maxs=maxs), want), "mask")
    ax, offset = case["ax"], case["offset"] * np.linalg.norm(ref.vecs, axis=1).max()
    x = pos[:, ax]
    depth = np.minimum(x - low[ax], high[ax] - x) - offset
    got = np.zeros(num, dtype=bool)
    got[data.find_outer_sites(ax, offset)] = True
    clear = np.abs(depth) > 1e-9 * (1 + spread)
    check(np.array_equal(got[clear], (depth < 0)[clear]), "outer sites")
    ctx.label("outer sites" if 0 < got.sum() < num else "all or no outer sites")
    # -- search tree: holds every neighbor of the sites
    points = pos if case["seed"] % 3 else pos[::-1] + 0.25
    tree = latt.kdtree() if case["seed"] % 3 else latt.kdtree(points)
    expect_close(tree.data, points, "points of the search tree")
    near, dists = tree.query()
    table, _ = ref.neighbor_table()
    longest = max(d for row in table for col in row for d in col)
    order = range(num) if case["seed"] % 3 else range(num)[::-1]
    for s in case["sites"]:
        i = s % num
        dist = np.sqrt(((points - points[i]) ** 2).sum(axis=1))
        got = set(int(j) for j in near[i][np.isfinite(dists[i])])
        need = set(np.where((dist < longest * (1 + 1e-9)) & (dist > 1e-9))[0].tolist())
        check(need <= got, "search tree: sites close to site %s: %s", i, need - got)
        mask = data.neighbor_mask(order[i])
        real = set(int(j) for j in data.neighbors[order[i], mask])
        check(real <= set(order[j] for j in got), "search tree: neighbors of site %s", i)
    for a, b in zip(backup, (data.indices, data.positions, data.neighbors)):
        check(np.array_equal(a, b), "queries changed the data")


@st.composite
def connection_cases(draw):
    case = draw(gen.built(max_dist=2, size=0.8, cb=False, far=False))
    dim = len(case["latt"]["vectors"])
    case["shape2"] = draw(gen.shapes(case["latt"]["vectors"], size=0.6, far=False))
    case["shift"] = draw(st.lists(st.integers(-3, 3), min_size=dim, max_size=dim))
    case["same"] = draw(st.booleans())
    return case


@PROP.sub(
    "connections",
    connection_cases,
    1200,
    "connections between two lattices of the same structure compared with all pairs of "
    "sites; non-trivial: at least one connection",
)
def connections(case, ctx):
    ref, latt = make(case, 400)
    second = dict(case, shape=case["shape"] if case["same"] else case["shape2"])
    _, other = make(second, 400)
    # sites are moved by lattice vectors
    data = other.data
    data.indices = np.array(data.indices, dtype=np.int64)
    data.indices[:, :-1] += case["shift"]
    data.positions = data.positions + np.array(case["shift"]) @ ref.vecs
    state = [latt.data.copy(), other.data.copy()]
    pairs, dists = latt.compute_connections(other)
    pairs = np.asarray(pairs).reshape(-1, 2)
    check(len(pairs) == len(dists), "number of distances")
    got = {}
    for (i, j), d in zip(pairs.tolist(), np.asarray(dists).tolist()):
        check((i, j) not in got, "pair %s is listed twice", (i, j))
        got[i, j] = d
    p1, p2 = latt.positions, other.positions
    a1, a2 = latt.indices[:, -1].astype(int), other.indices[:, -1].astype(int)
    table, _ = ref.neighbor_table()
    dist = np.sqrt(((p1[:, None] - p2[None]) ** 2).sum(axis=-1))
    want = {}
    for i in range(len(p1)):
        for j in range(len(p2)):
            for d in table[a1[i]][a2[j]]:
                if abs(dist[i, j] - d) < 2e-6:
                    want[i, j] = d
    ctx.nontrivial(len(want) > 0)
    check(set(got) == set(want), "connected pairs: %s", sorted(set(got) ^ set(want))[:5])
    for k in want:
        check(abs(got[k] - want[k]) < 2e-6, "distance of pair %s", k)
    # the other way around
    pairs2, dists2 = other.compute_connections(latt)
    check(sorted((j, i) for i, j in np.asarray(pairs2).reshape(-1, 2).tolist())
          == sorted(got), "connections are not symmetric")
    for old, new in zip(state, (latt.data, other.data)):
        for name in ("indices", "positions", "neighbors", "distances"):
            check(np.array_equal(getattr(old, name), getattr(new, name)), "%s changed", name)
