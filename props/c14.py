"""C14: copies, pickles and dictionaries"""

import os
import pickle
import tempfile

import numpy as np
from hypothesis import strategies as st

import lattpy as lp
from vlib import gen
from vlib.core import Property, check
from vlib.history import ALL, Model, histories, op, snapshot
from vlib.ref import Ref, arr, make_structure

PROP = Property(
    "C14",
    ["lattices are compared with copies or lattices restored with the same atoms"],
)

STAGES = ["empty", "atoms", "connected", "analyzed", "built", "built", "edited", "edited",
          "edited"]
MUTATIONS = ["attr", "weight", "add_atom", "connections", "connection", "build", "positions",
             "indices", "neighbors", "vectors", "periodic_axes", "reset", "atom_pos",
             "analyze"]


@st.composite
def cases(draw):
    case = draw(histories(max_len=3, max_dist=2))
    dim = len(case["latt"]["vectors"])
    case["stage"] = draw(st.sampled_from(STAGES))
    case["cls"] = draw(st.sampled_from(["Lattice", "Lattice", "LatticeStructure"]))
    case["how"] = draw(
        st.sampled_from(["copy", "copy", "dump", "dump_hash", "pickle", "deepcopy"])
    )
    case["target"] = draw(st.sampled_from(["copy", "original"]))
    case["mutations"] = draw(
        st.lists(
            st.one_of(
                st.sampled_from(MUTATIONS).map(lambda m: {"op": m}),
                op(dim, [k for k in ALL if k != "append"]),
            ),
            min_size=1, max_size=4,
        )
    )
    case["attrs"] = draw(
        st.lists(
            st.fixed_dictionaries(
                {"mass": gen.grid(0.5, 3, 0.5), "tags": st.just([1, 2]),
                 "color": st.sampled_from([None, "red"])}
            ),
            max_size=2,
        )
    )
    return case


def structure_state(latt):
    d = latt.todict()
    out = {
        "class": type(latt).__name__,
        "dim": latt.dim,
        "vectors": np.array(latt.vectors).tolist(),
        "num_base": latt.num_base,
        "atoms": [
            (a.name, a.weight, a.index, sorted((k, str(v)) for k, v in a.items()))
            for a in latt.atoms
        ],
        "positions": [np.array(p).tolist() for p in latt.atom_positions],
        "connections": None if d["connections"] is None else
        np.array(d["connections"]).tolist(),
        "neighbors": None,
    }
    if latt.base_neighbors:
        out["neighbors"] = [
            sorted(
                (round(float(k), 5), sorted(tuple(int(x) for x in r) for r in v))
                for k, v in row.items()
            )
            for row in latt.base_neighbors
        ]
        out["num_neighbors"] = [int(x) for x in latt.num_neighbors]
        out["distances"] = np.array(latt.distances).tolist()
    return out


def state(latt):
    out = structure_state(latt)
    if isinstance(latt, lp.Lattice):
        data = latt.data
        out["built"] = latt.shape is not None
        out["shape"] = None if latt.shape is None else np.array(latt.shape).tolist()
        out["pos"] = None if latt.pos is None else np.array(latt.pos).tolist()
        out["primitive"] = latt.primitive
        out["axes"] = [int(x) for x in latt.periodic_axes]
        out["num_sites"] = latt.num_sites
        if latt.num_sites:
            out["indices"] = np.array(latt.indices).astype(int).tolist()
            out["site_positions"] = np.array(latt.positions).tolist()
            out["data"] = snapshot(data)
            vecs = []
            for i in range(latt.num_sites):
                m = data.neighbor_mask(i, periodic=True)
                vecs.append(
                    sorted(
                        (int(j), tuple(int(x) for x in v))
                        for j, v in zip(data.neighbors[i, m], data.pnvecs[i, m])
                    )
                )
            out["pnvecs"] = vecs
            dmap = latt.dmap()
            out["map"] = sorted(
                zip(
                    np.asarray(dmap.rows).tolist(), np.asarray(dmap.cols).tolist(),
                    np.asarray(dmap.hopping()).tolist(),
                )
            )
    return out


def differing(a, b):
    return [k for k in a if a.get(k) != b.get(k)] + [k for k in b if k not in a]


def stage_lattice(case, ctx):
    """Lattice in the requested state and the model of its history"""
    spec, stage = case["latt"], case["stage"]
    cls = lp.Lattice if stage in ("built", "edited") else getattr(lp, case["cls"])
    latt = cls(arr(spec["vectors"]))
    model = None
    if stage in ("built", "edited"):
        model = Model(lp, case)
        latt = model.latt
        if stage == "edited":
            for step in case["ops"]:
                model.apply(step)
    elif stage == "analyzed":
        latt = make_structure(lp, spec, cls)
    elif stage != "empty":
        pos = arr([a["frac"] for a in spec["atoms"]]) @ arr(spec["vectors"])
        for p, a in zip(pos, spec["atoms"]):
            latt.add_atom(p, a["name"])
        if stage == "connected":
            latt.add_connections(2, analyze=False)
    for at, attrs in zip(latt.atoms, case["attrs"]):
        for k, v in attrs.items():
            at[k] = v
    return latt, model


def hash_name(latt):
    """The full hash of the lattice (the builtin ``hash`` truncates it)"""
    return latt.__hash__()


def duplicate(latt, how):
    if how == "copy":
        return latt.copy()
    if how == "pickle":
        return pickle.loads(pickle.dumps(latt))
    if how == "deepcopy":
        import copy

        return copy.deepcopy(latt)
    folder = os.environ.get("LATTPY_VERIF_SCRATCH") or None
    with tempfile.TemporaryDirectory(dir=folder) as tmp:
        if how == "dump_hash":
            # no file name: the hash is used in the working directory
            cwd = os.getcwd()
            os.chdir(tmp)
            try:
                latt.dump(None)
            finally:
                os.chdir(cwd)
            check(os.listdir(tmp) == [f"{hash_name(latt)}.latt"], "file %s", os.listdir(tmp))
            file = os.path.join(tmp, os.listdir(tmp)[0])
        else:
            file = os.path.join(tmp, "lattice.latt")
            latt.dump(file)
        return type(latt).load(file)


def mutate(latt, step, case, model):
    """Changes the lattice, returns False if not applicable"""
    kind = step["op"]
    dim = latt.dim
    built = isinstance(latt, lp.Lattice) and latt.num_sites > 0
    if kind == "attr":
        if not latt.num_base:
            return False
        latt.atoms[0]["radius"] = 0.987
        latt.atoms[-1]["extra"] = "new"
        if "tags" in latt.atoms[0]:
            latt.atoms[0]["tags"].append(3)
    elif kind == "weight":
        if not latt.num_base:
            return False
        latt.atoms[-1].color = "blue"
    elif kind == "add_atom":
        latt.add_atom([0.1234] * dim, "Z")
    elif kind == "connections":
        if not latt.num_base:
            return False
        latt.add_connections(1)
    elif kind == "connection":
        if not latt.num_base:
            return False
        latt.add_connection(0, 0, 3)
    elif kind == "analyze":
        if not latt.num_base:
            return False
        latt.add_connections(2, analyze=False)
        latt.analyze()
    elif kind == "atom_pos":
        if not latt.num_base:
            return False
        latt.atom_positions[0][:] = 5.5
    elif kind == "vectors":
        latt.vectors[:] = np.asarray(latt.vectors) * 2
    elif not built:
        return False
    elif kind == "build":
        if not latt.base_neighbors:
            return False
        latt.build(lp.Circle(np.array(latt.positions)[0], 1e-2) if dim > 1 else
                   lp.Shape([1e-2], np.array(latt.positions)[0] - 5e-3))
    elif kind == "positions":
        latt.positions[:] = 17.5
    elif kind == "indices":
        latt.indices[:] = 7
    elif kind == "neighbors":
        latt.data.neighbors[:] = 0
        latt.data.pmask[:] = False
        latt.data.distvals[:] = 0.5
    elif kind == "periodic_axes":
        latt.data.remove_periodic()
        latt.set_periodic(0)
    elif kind == "reset":
        latt.data.reset()
    else:
        if model is None:
            return False
        # edit of the data
        return model.apply(step)
    return True


@PROP.sub(
    "independent",
    cases,
    1500,
    "lattices in all stages (empty, configured, analyzed, built, edited, periodic) that "
    "are copied, pickled or dumped and loaded, followed by changes of one of both; "
    "non-trivial: at least one change was applied",
)
def independent(case, ctx):
    latt, model = stage_lattice(case, ctx)
    before = state(latt)
    value = hash(latt)
    other = duplicate(latt, case["how"])
    check(type(other) is type(latt), "type of the copy")
    ctx.label(case["stage"], case["how"])
    for x, what in ((other, "copy"), (latt, "original")):
        diff = differing(state(x), before)
        check(not diff, "%s: state of the %s differs: %s", case["how"], what, diff)
        check(hash(x) == value, "%s: hash of the %s", case["how"], what)
    check(other == latt and latt == other and not (other != latt), "not equal")
    check(other is not latt, "same object")
    for a, b in zip(latt.atoms, other.atoms):
        check(a is not b, "atoms are shared")
    changed, fixed = (other, latt) if case["target"] == "copy" else (latt, other)
    if model is not None:
        edit = Model.__new__(Model)
        edit.__dict__.update(model.__dict__)
        edit.latt, edit.applied, model = changed, [], edit
    for step in case["mutations"]:
        destroyed = step["op"] in ("positions", "indices", "neighbors", "reset", "vectors",
                                   "atom_pos", "build", "add_atom", "connections",
                                   "connection", "analyze", "periodic_axes")
        if not mutate(changed, step, case, model):
            continue
        ctx.nontrivial()
        ctx.label(step["op"])
        diff = differing(state(fixed), before)
        check(not diff, "%s of the %s changes the other one: %s", step["op"],
              case["target"], diff)
        check(hash(fixed) == value, "%s changes the hash of the other one", step["op"])
        if destroyed:
            break


@st.composite
def dict_cases(draw):
    latt = draw(gen.lattices(max_dim=3, max_dist=2, max_atoms=3))
    return {
        "latt": latt,
        "cls": draw(st.sampled_from(["Lattice", "LatticeStructure"])),
        "change": draw(st.sampled_from(["vector", "position", "connection", "atom",
                                        "swap"])),
        "i": draw(st.integers(0, 100)),
        "j": draw(st.integers(0, 100)),
        "num": draw(st.integers(1, 3)),
        "size": [draw(st.integers(2, 3)) for _ in latt["vectors"]],
    }


@PROP.sub(
    "dict",
    dict_cases,
    1200,
    "lattices restored from their dictionary and lattices that differ in one vector "
    "component, position, connection, atom or size; all cases are non-trivial",
)
def dictionary(case, ctx):
    spec = case["latt"]
    ref = Ref(spec)
    ref.neighbor_table()
    cls = getattr(lp, case["cls"])
    latt = make_structure(lp, spec, cls)
    ctx.nontrivial()
    dim, num = ref.dim, ref.num
    before = state(latt)
    value = hash(latt)
    d = latt.todict()
    check(np.allclose(d["vectors"], ref.vecs), "vectors of the dictionary")
    check(np.allclose(np.array(d["positions"]), ref.pos), "positions of the dictionary")
    check([a.name for a in d["atoms"]] == [a["name"] for a in spec["atoms"]], "atoms")
    check(np.array_equal(d["connections"], spec["cons"]), "connections of the dictionary")
    restored = cls.fromdict(d)
    diff = differing(state(restored), before)
    check(not diff, "restored lattice differs: %s", diff)
    check(restored == latt and hash(restored) == value, "restored lattice is not equal")
    # changes of the restored lattice don't affect the original
    other = cls.fromdict(latt.todict())
    other.add_connection(case["i"] % num, case["j"] % num, case["num"] + 3)
    other.add_atom(np.full(dim, 0.1234), "Z")
    check(not differing(state(latt), before), "restored lattice shares state")
    check(hash(latt) == value, "hash changed")

    # lattices that differ are not equal
    d = dict(latt.todict())
    i, j = case["i"], case["j"]
    ctx.label(case["change"])
    if case["change"] == "vector":
        d["vectors"] = np.array(d["vectors"], dtype=float)
        k = i % dim
        d["vectors"][k, k] += 0.05 * (1 if d["vectors"][k, k] > 0 else -1)
        if abs(np.linalg.det(d["vectors"])) < 1e-2:
            ctx.discard("singular basis")
    elif case["change"] == "position":
        d["positions"] = [np.array(p, dtype=float) for p in d["positions"]]
        d["positions"][i % num][j % dim] += 0.017
    elif case["change"] == "connection":
        cons = np.array(d["connections"])
        a, b = i % num, j % num
        cons[a, b] = cons[b, a] = cons[a, b] + 1
        d["connections"] = cons
    elif case["change"] == "atom":
        d["atoms"] = list(d["atoms"])
        at = d["atoms"][i % num]
        new = at.copy()
        new["radius"] = 0.777
        d["atoms"][i % num] = new
    else:
        a, b = i % num, j % num
        pos = [np.array(p) for p in d["positions"]]
        if a == b:
            ctx.discard("same atom")
        pos[a], pos[b] = pos[b], pos[a]
        d["positions"] = pos
    changed = cls.fromdict(d)
    check(not (changed == latt) and changed != latt, "%s: lattices are equal", case["change"])
    # different size
    if case["cls"] == "Lattice":
        one = latt.copy()
        two = latt.copy()
        size = np.array(case["size"]) - 0.05
        one.build(lp.Shape(size, basis=ref.vecs), primitive=True)
        check(one != latt, "built and unbuilt lattices are equal")
        size[i % dim] += 2
        two.build(lp.Shape(size, basis=ref.vecs), primitive=True)
        if not np.allclose(one.shape, two.shape):
            check(not (one == two), "lattices of different size are equal")
        two.build(lp.Shape(np.array(case["size"]) - 0.05, basis=ref.vecs), primitive=True)
        check(one == two, "lattices of the same size are not equal")
