"""C24: the state of a lattice does not depend on its history"""

import numpy as np
from hypothesis import strategies as st

import lattpy as lp
from vlib import gen
from vlib.core import Discard, Property, check
from vlib.neigh import tables
from vlib.ref import Ref, arr, make_structure
from vlib.shapes import ShapeRef, make_shape
from vlib.torus import axes, axes_arg

PROP = Property(
    "C24",
    [
        "distances closer than 2e-5 or on the rounding boundary of the 6 documented "
        "decimals are outside of the domain",
        "at most 150 sites",
    ],
)
EDITS = ["remove", "sort", "rsort", "repeat", "extend", "append", "add", "periodic",
         "clear", "neighbors"]


@st.composite
def stages(draw, latt):
    vecs = latt["vectors"]
    dim = len(vecs)
    out = []
    num = len(latt["atoms"])
    for n in range(draw(st.integers(2, 3))):
        stage = {"config": "none" if n == 0 else draw(
            st.sampled_from(["none", "none", "cons", "cons", "atom", "all", "error"]))}
        if stage["config"] == "atom":
            # another atom on a finer grid than those of the other atoms
            stage["frac"] = [draw(st.integers(0, 10)) / 11 + 1 / 97 for _ in range(dim)]
            num += 1
        if stage["config"] in ("cons", "atom"):
            stage["cons"] = draw(gen.connections(num, max_dist=2))
        if stage["config"] == "all":
            stage["num"] = draw(st.integers(1, 2))
        stage["queries"] = draw(st.lists(st.integers(0, 10**4), max_size=5))
        stage["shape"] = draw(gen.shapes(vecs, far=False, size=0.7))
        stage["min_neighbors"] = draw(st.sampled_from([None, None, None, 1]))
        stage["periodic"] = draw(axes(dim)) if draw(st.booleans()) else None
        stage["edits"] = draw(st.lists(st.sampled_from(EDITS), max_size=3))
        stage["seed"] = draw(st.integers(0, 1000))
        stage["axes"] = draw(axes(dim))
        out.append(stage)
    return out


@st.composite
def cases(draw):
    latt = draw(gen.lattices(max_dim=3, max_atoms=2, max_dist=2))
    return {"latt": latt, "stages": draw(stages(latt))}


def view(latt):
    """Everything that can be observed of a lattice"""
    out = {
        "vectors": arr(latt.vectors).tolist(),
        "dim": latt.dim,
        "names": [a.name for a in latt.atoms],
        "atoms": arr(latt.atom_positions).tolist(),
        "num_neighbors": [int(x) for x in latt.num_neighbors],
        "distances": arr(latt.distances).tolist(),
        "base": [
            {float(d): sorted(tuple(int(x) for x in r) for r in np.asarray(v))
             for d, v in row.items()}
            for row in latt.base_neighbors
        ],
        "text": latt.dumps(),
        "hash": hash(latt),
        "shape": arr(latt.shape).tolist(),
        "pos": arr(latt.pos).tolist(),
        "primitive": bool(latt.primitive),
        "axes": [int(x) for x in latt.periodic_axes],
    }
    data = latt.data
    num = latt.num_sites
    out["indices"] = np.asarray(latt.indices).astype(int).tolist()
    out["positions"] = arr(latt.positions).tolist()
    vals = arr(data.distvals)
    out["distvals"] = vals[np.isfinite(vals)].tolist()
    rows = []
    for i in range(num):
        row = {}
        for flag in (False, True):
            mask = np.asarray(data.neighbor_mask(i, periodic=flag))
            for j, d, n in zip(data.neighbors[i, mask], data.distances[i, mask],
                               data.pnvecs[i, mask]):
                row[int(j)] = (int(d), flag, tuple(int(x) for x in n))
        rows.append(row)
    out["neighbors"] = rows
    out["tables"] = tables(latt)
    pairs, dist = latt.neighbor_pairs()
    out["pairs"] = sorted((int(i), int(j), int(d)) for (i, j), d in zip(pairs, dist))
    out["adjacency"] = latt.adjacency_matrix().toarray().astype(int).tolist()
    dmap = latt.dmap()
    out["map"] = sorted(
        (int(i), int(j), [bool(dmap.onsite(a)[n]) for a in range(latt.num_base)])
        for n, (i, j) in enumerate(zip(dmap.rows, dmap.cols))
    ) if dmap.size < 150 else dmap.size
    for d in range(len(out["distvals"])):
        out[f"hopping{d}"] = int(np.count_nonzero(dmap.hopping(d)))
    out["limits"] = arr(latt.limits()).tolist()
    out["center"] = arr(latt.center_of_gravity()).tolist()
    out["cells"] = int(latt.num_cells)
    out["volume"] = float(latt.volume())
    out["minimum"] = arr(latt.minimum_distances(num // 2)).tolist()
    return out


def flat(x):
    if isinstance(x, (list, tuple)):
        for y in x:
            yield from flat(y)
    elif isinstance(x, dict):
        for k in sorted(x):
            yield from flat(k)
            yield from flat(x[k])
    else:
        yield x


def compare(got, want, what):
    check(set(got) == set(want), "%s: %s", what, sorted(set(got) ^ set(want)))
    for key in want:
        if got[key] == want[key]:
            continue
        a, b = list(flat(got[key])), list(flat(want[key]))
        ok = len(a) == len(b) and all(
            x == y or (isinstance(x, float) and isinstance(y, float)
                       and abs(x - y) <= 1e-9 * (1 + abs(x)))
            for x, y in zip(a, b)
        )
        check(ok, "%s: %s: %s != %s", what, key, got[key], want[key])


def q_copy(latt, rnd):
    latt.copy().data.sort(0, reverse=True)


def q_infinite(latt, rnd):
    a = rnd.randint(latt.num_base)
    for d in range(int(np.count_nonzero(latt.distances[a]))):
        latt.get_neighbors(rnd.randint(-9, 9, latt.dim), a, d)
        latt.get_neighbor_positions(alpha=a, distidx=d)
        latt.get_neighbor_vectors(a, d, include_zero=True)
        latt.fourier_weights(rnd.rand(latt.dim), a, d)


def q_basis(latt, rnd):
    latt.reciprocal_vectors()
    latt.reciprocal_lattice()
    latt.get_neighbor_cells(0)
    latt.transform(rnd.rand(3, latt.dim))
    latt.itransform(rnd.rand(3, latt.dim))
    latt.itranslate(rnd.rand(latt.dim))
    latt.cell_size, latt.cell_volume, latt.norms, latt.vectors3d


def q_zone(latt, rnd):
    latt.wigner_seitz_cell()
    latt.brillouin_zone()


def q_lookup(latt, rnd):
    i = rnd.randint(latt.num_sites)
    latt.superindex_from_pos(latt.positions[i])
    latt.superindex_from_pos(rnd.rand(latt.dim))
    latt.superindex_from_index(latt.indices[i])
    latt.position(i), latt.atom(i), latt.alpha(i)
    latt.relative_position(rnd.rand(latt.dim))
    latt.center()


def q_neighbors(latt, rnd):
    i, j = rnd.randint(latt.num_sites, size=2)
    latt.neighbors(i), latt.neighbors(i, 0), latt.nearest_neighbors(i)
    latt.neighbors(i, unique=True)
    latt.check_neighbors(i, j)
    list(latt.iter_neighbors(j))
    latt.neighbor_pairs(unique=True)


def q_data(latt, rnd):
    data = latt.data
    data.get_limits()
    data.site_mask([0.0] * latt.dim)
    data.find_sites([0.0] * latt.dim)
    data.find_outer_sites(0, 1)
    data.get_positions(0)
    data.neighbor_mask(0, 0, unique=True)
    data.copy().remove(0)


def q_map(latt, rnd):
    dmap = latt.dmap()
    values = dmap.zeros()
    values[dmap.hopping(0)] = 1
    values[dmap.onsite(0)] = 2
    dmap.build_csr(values)
    dmap.indices_indptr()


def q_minimum(latt, rnd):
    latt.minimum_distances(rnd.randint(latt.num_sites))
    latt.periodic_translation_vectors(list(range(latt.dim)), latt.primitive)


def q_build(latt, rnd):
    latt.build_indices((2.5,) * latt.dim, primitive=True)
    latt.build_translation_vectors((2.5,) * latt.dim)
    latt.compute_neighbors(latt.indices, latt.positions)
    latt.compute_connections(latt.copy())
    latt.kdtree()


def q_text(latt, rnd):
    repr(latt), str(latt), latt.todict(), latt.dumps(), hash(latt), latt == latt.copy()
    lp.Lattice.fromdict(latt.todict())


QUERIES = [q_copy, q_infinite, q_basis, q_zone, q_lookup, q_neighbors, q_data, q_map,
           q_minimum, q_build, q_text]


def configure(latt, spec, stage):
    """Changes the configuration of the lattice and returns the new specification"""
    kind = stage["config"]
    if kind == "none":
        return spec
    if kind == "error":
        for call in (
            lambda: latt.add_atom(latt.atom_positions[0], "X"),
            lambda: latt.add_atom([0.1] * (latt.dim + 1), "X"),
            lambda: latt.add_connection("A", "missing", 1, analyze=True),
        ):
            try:
                call()
            except Exception:  # noqa
                pass
        return spec
    if kind == "all":
        num = len(spec["atoms"])
        new = dict(spec, cons=[[stage["num"]] * num] * num)
        Ref(new).neighbor_table()  # domain
        latt.add_connections(stage["num"])
        return new
    new = dict(spec, cons=stage["cons"])
    if kind == "atom":
        new["atoms"] = spec["atoms"] + [{"frac": stage["frac"], "name": "N"}]
    Ref(new).neighbor_table()
    if kind == "atom":
        latt.add_atom(arr(stage["frac"]) @ arr(spec["vectors"]), "N")
    num = len(new["atoms"])
    for i in range(num):
        for j in range(i, num):
            latt.add_connection(i, j, new["cons"][i][j])
    latt.analyze()
    return new


def fresh(latt, spec):
    """New lattice of the same atoms and configuration"""
    new = lp.Lattice(np.array(spec["vectors"]))
    for atom, item in zip(latt.atoms, spec["atoms"]):
        new.add_atom(arr(item["frac"]) @ arr(spec["vectors"]), atom)
    num = len(spec["atoms"])
    for i in range(num):
        for j in range(i, num):
            if spec["cons"][i][j]:
                new.add_connection(i, j, spec["cons"][i][j])
    new.analyze()
    return new


def build(latt, spec, stage, ctx):
    shape, kwargs = make_shape(lp, stage["shape"], spec["vectors"])
    per = stage["periodic"]
    latt.build(shape, min_neighbors=stage["min_neighbors"],
               periodic=None if per is None else axes_arg(per, latt.dim), **kwargs)


def edit(latt, op, stage):
    rnd = np.random.RandomState(stage["seed"])
    ax, num, data = rnd.randint(latt.dim), latt.num_sites, latt.data
    if op == "remove" and num > 2:
        data.remove(rnd.choice(num, size=max(1, num // 4), replace=False))
    elif op in ("sort", "rsort"):
        data.sort(ax, reverse=op == "rsort")
    elif op == "repeat" and num < 100:
        latt.repeat(1, ax, rnd.choice([-1, 1]))
    elif op == "extend" and num < 100:
        try:
            latt.extend(1.5, ax)
        except ValueError:  # no sites
            pass
    elif op == "append" and num < 100:
        latt.append(latt.copy(), ax, rnd.choice([-1, 1]))
    elif op == "add" and num > 2:
        i, j = rnd.choice(num, size=2, replace=False)
        if j not in data.get_neighbors(i):
            data.add_neighbors(i, j, 0.123456)
            data.add_neighbors(j, i, 0.123456)
    elif op == "periodic":
        latt.set_periodic(axes_arg(stage["axes"], latt.dim))
    elif op == "clear":
        latt.set_periodic(None)
    elif op == "neighbors":
        data.sort_neighbors()


@PROP.sub(
    "rebuild",
    cases,
    500,
    "histories of configuring, building, querying and editing one lattice: after each "
    "build it equals a new lattice of the same configuration, and queries change "
    "nothing; non-trivial: edits or another configuration before a build",
)
def rebuild(case, ctx):
    spec = case["latt"]
    Ref(spec).neighbor_table()
    for stage in case["stages"]:
        may = ShapeRef(stage["shape"], spec["vectors"]).expected(Ref(spec))[3]
        if may.sum() > 150:
            ctx.discard("too many sites")
    latt = make_structure(lp, spec)
    changed = False
    for stage in case["stages"]:
        spec = configure(latt, spec, stage)
        changed = changed or stage["config"] != "none"
        new = fresh(latt, spec)
        ctx.label(stage["config"])
        try:
            build(new, spec, stage, ctx)
        except ValueError:
            # no sites: the used lattice also fails
            try:
                build(latt, spec, stage, ctx)
            except ValueError:
                return
            check(False, "build without sites")
        build(latt, spec, stage, ctx)
        ctx.nontrivial(changed)
        want = view(new)
        compare(view(latt), want, "used lattice")
        check(latt == new and new == latt, "used lattice is not equal")
        rnd = np.random.RandomState(stage["seed"])
        for n in stage["queries"]:
            func = QUERIES[n % len(QUERIES)]
            try:
                func(latt, rnd)
            except Discard:
                raise
            except (lp.ConfigurationError, NotImplementedError):
                pass
            ctx.label(func.__name__)
            compare(view(latt), want, func.__name__)
        for op in stage["edits"]:
            edit(latt, op, stage)
            ctx.label(op)
            changed = True
        if stage["edits"] and stage["queries"]:
            before = view(latt)
            for n in stage["queries"][:2]:
                func = QUERIES[n % len(QUERIES)]
                func(latt, rnd)
                compare(view(latt), before, func.__name__ + " after an edit")
