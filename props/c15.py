"""C15: configuration of lattices"""

import math

import itertools

import numpy as np
from hypothesis import strategies as st

import lattpy as lp
from lattpy import utils
from vlib import gen
from vlib.core import Property, check
from vlib.neigh import tables
from vlib.ref import Ref, arr, expect_close, make_structure
from props.c14 import structure_state

PROP = Property(
    "C15",
    ["adding an atom resets the configured connections",
     "an atom object refers to the first atom that is equal to it (same name)",
     "a position is occupied if it is exactly the position of another atom"],
)

IDX = st.integers(0, 50)


@st.composite
def pair(draw):
    return {
        "i": draw(IDX), "j": draw(IDX), "num": draw(st.integers(0, 3)),
        "by": draw(st.sampled_from(["index", "index", "name", "name", "object", "npint",
                                    "mixed"])),
    }


@st.composite
def step(draw, dim):
    kind = draw(
        st.sampled_from(
            ["atom"] * 6 + ["pair"] * 4 + ["all", "all", "analyze", "analyze", "build",
                                         "build", "occupied", "wrong_dim", "periodic",
                                         "unknown", "wrong_shape"]
        )
    )
    out = {"op": kind}
    if kind == "atom":
        out["frac"] = [draw(gen.grid(-1, 2, 1 / 6)) if draw(st.booleans()) else
                       draw(st.sampled_from([0.0, 0.5, 0.25])) for _ in range(dim)]
        out["form"] = draw(st.sampled_from(["world", "world", "primitive", "list", "tuple",
                                            "scalar"]))
        out["atom"] = draw(st.sampled_from(["name", "name", "object", "none", "same"]))
        out["name"] = draw(st.sampled_from(["A", "A", "B", "AB", "a", "BA", "Na"]))
        out["kwargs"] = draw(st.sampled_from([{}, {}, {"mass": 2.5}, {"color": "r"},
                                              {"radius": 0.5, "mass": 3}, {"weight": 2.0}]))
        out["neighbors"] = draw(st.sampled_from([0, 0, 0, 1, 2]))
    elif kind == "pair":
        out.update(draw(pair()))
        out["analyze"] = draw(st.booleans()) and draw(st.booleans())
    elif kind == "all":
        out["num"] = draw(st.integers(1, 3))
        out["analyze"] = draw(st.sampled_from([True, False, None]))
    elif kind in ("occupied", "wrong_dim", "wrong_shape"):
        out["i"] = draw(IDX)
        out["primitive"] = draw(st.booleans())
        out["object"] = draw(st.booleans())
    return out


@st.composite
def config_cases(draw):
    vecs = draw(gen.vectors(max_dim=3))
    return {
        "vectors": vecs,
        "cls": draw(st.sampled_from(["Lattice", "Lattice", "LatticeStructure"])),
        "steps": draw(st.lists(step(len(vecs)), min_size=1, max_size=9)),
    }


def raises(errors, func, what):
    try:
        func()
    except errors as e:
        text = str(e)
        check(isinstance(text, str) and len(text) > 5, "%s: message %r", what, text)
        return e
    check(False, "%s: no error", what)


def config_state(latt):
    out = structure_state(latt)
    out["analyzed"] = bool(latt.base_neighbors)
    if isinstance(latt, lp.Lattice):
        out["sites"] = latt.num_sites
        out["built"] = latt.shape is not None
        out["axes"] = [int(x) for x in latt.periodic_axes]
        if latt.num_sites:
            out["indices"] = np.array(latt.indices).tolist()
            out["site_positions"] = np.array(latt.positions).tolist()
            out["table"] = repr(tables(latt))
    return out


class Config:
    def __init__(self, case):
        self.vecs = arr(case["vectors"])
        self.dim = len(self.vecs)
        self.latt = getattr(lp, case["cls"])(self.vecs)
        self.names, self.pos, self.objects, self.attrs = [], [], [], []
        self.cons = np.zeros((0, 0), dtype=int)
        self.analyzed = None  # connections that were analyzed

    def verify(self, what):
        latt = self.latt
        n = len(self.names)
        check(latt.num_base == n, "%s: number of atoms", what)
        check([a.name for a in latt.atoms] == self.names, "%s: names of the atoms", what)
        for a, obj, attrs in zip(latt.atoms, self.objects, self.attrs):
            if obj is not None:
                check(a is obj, "%s: atom object", what)
            for k, v in attrs.items():
                check(getattr(a, k) == v, "%s: attribute %s", what, k)
        check(len(latt.atom_positions) == n, "%s: number of positions", what)
        for i in range(n):
            expect_close(latt.atom_positions[i], self.pos[i], "%s: position" % what)
            expect_close(latt.get_position(None, i), self.pos[i], "%s: position" % what)
            check(latt.get_alpha(i) == i, "%s: index", what)
            check(latt.get_atom(i) is latt.atoms[i], "%s: atom by index", what)
            check(latt.get_atom(np.int64(i)) is latt.atoms[i], "%s: atom by index", what)
            name = self.names[i]
            first = self.names.index(name)
            same = [k for k, x in enumerate(self.names) if x == name]
            check([int(x) for x in np.atleast_1d(latt.get_alpha(name))] == same,
                  "%s: indices of the name", what)
            check(latt.get_atom(name) is latt.atoms[first], "%s: atom by name", what)
            check(latt.get_atom(latt.atoms[i]) is latt.atoms[i], "%s: atom object", what)
            check(latt.get_alpha(latt.atoms[i]) == first, "%s: index of the object", what)
        if n:
            got = latt.todict()["connections"]
            check(np.array_equal(got, self.cons), "%s: connections %s != %s", what,
                  np.array(got).tolist(), self.cons.tolist())
            check(np.array_equal(got, np.array(got).T), "%s: not symmetric", what)
            for flag in (True, False):
                d = latt.get_base_atom_dict(atleast2d=flag)
                check([a.name for a in d] == list(dict.fromkeys(self.names)),
                      "%s: keys of the atom dictionary", what)
                for a, ps in d.items():
                    want = [p for p, x in zip(self.pos, self.names) if x == a.name]
                    if flag and self.dim == 1:
                        want = [np.append(p, 0) for p in want]
                    expect_close(np.array(ps), np.array(want), "%s: dictionary" % what)
        check(bool(latt.base_neighbors) == (self.analyzed is not None),
              "%s: analyzed state", what)
        if self.analyzed is not None:
            check(len(latt.base_neighbors) == n, "%s: base neighbors", what)
            check(latt.num_distances == self.cons.max(), "%s: number of distances", what)

    def spec(self):
        inv = np.linalg.inv(self.vecs)
        return {
            "vectors": self.vecs.tolist(),
            "atoms": [{"frac": (p @ inv).tolist(), "name": x}
                      for p, x in zip(self.pos, self.names)],
            "cons": self.cons.tolist(),
        }

    def analyzable(self):
        """Atoms that are equivalent or too close are outside the domain"""
        if not len(self.names):
            return True
        f = np.array(self.pos) @ np.linalg.inv(self.vecs)
        d = f[:, None] - f[None]
        d = np.abs(d - np.round(d)).max(axis=-1) + np.eye(len(f))
        return d.min() > 1e-2

    # -- operations ----------------------------------------------------------------
    def op_atom(self, step):
        pos = arr(step["frac"]) @ self.vecs
        if any(np.max(np.abs(pos - p)) < 1e-6 for p in self.pos):
            return
        if len(self.names) >= 4:
            return
        arg, kw = pos.copy(), {}
        form = step["form"]
        if form == "primitive":
            arg, kw["primitive"] = arr(step["frac"]), True
        elif form == "list":
            arg = arg.tolist()
        elif form == "tuple":
            arg = tuple(arg.tolist())
        elif form == "scalar" and self.dim == 1:
            arg = float(arg[0])
        if not np.any(pos) and form == "scalar":
            arg = None
        name, attrs, obj = step["name"], step["kwargs"], None
        kind = step["atom"]
        if kind == "object":
            obj = lp.Atom(name, **attrs)
            atom = obj
        elif kind == "same" and self.objects and self.objects[-1] is not None:
            atom = obj = self.objects[-1]
            name, attrs = obj.name, self.attrs[-1]
        elif kind == "none":
            atom, name = None, "A"
        else:
            atom = name
        if obj is None:
            kw.update(attrs)
        neighbors = step["neighbors"]
        backup = np.array(self.pos)
        self.pos.append(pos)
        if neighbors and not self.analyzable():
            neighbors = 0
        if neighbors:
            kw["neighbors"] = neighbors
        res = self.latt.add_atom(arg, atom, **kw)
        if isinstance(arg, np.ndarray):
            arg += 3.5  # the lattice has its own copy
        check(res is self.latt.atoms[-1], "returned atom")
        self.names.append(name)
        self.objects.append(obj)
        self.attrs.append(attrs)
        n = len(self.names)
        self.cons = np.full((n, n), neighbors, dtype=int)
        self.analyzed = self.cons.copy() if neighbors else None
        check(len(backup) + 1 == n, "number of atoms")

    def _ref(self, i, by):
        if by == "name":
            return self.names[i]
        if by == "object":
            return self.latt.atoms[i]
        if by == "npint":
            return np.int64(i)
        return i

    def op_pair(self, step):
        n = len(self.names)
        num = step["num"]
        if not n:
            raises(utils.NoAtomsError, lambda: self.latt.add_connection("A", "A", 1),
                   "connection without atoms")
            return
        i, j = step["i"] % n, step["j"] % n
        by = step["by"]
        first, second = (by, by) if by != "mixed" else ("name", "index")
        args = self._ref(i, first), self._ref(j, second)

        def sites(k, how):
            if how == "name":
                return [x for x in range(n) if self.names[x] == self.names[k]]
            if how == "object":
                return [self.names.index(self.names[k])]
            return [k]

        for a in sites(i, first):
            for b in sites(j, second):
                self.cons[a, b] = self.cons[b, a] = num
        analyze = step["analyze"] and self.analyzable() and self.cons.max() > 0
        self.latt.add_connection(*args, num, analyze=analyze) if analyze else \
            self.latt.add_connection(*args, num_distances=num)
        self.analyzed = self.cons.copy() if analyze else None

    def op_all(self, step):
        n = len(self.names)
        if not n:
            raises(utils.NoAtomsError, lambda: self.latt.add_connections(step["num"]),
                   "connections without atoms")
            return
        analyze = step["analyze"]
        if not self.analyzable():
            analyze = False
        kw = {} if analyze is None else {"analyze": analyze}
        self.latt.add_connections(step["num"], **kw)
        self.cons[:] = step["num"]
        self.analyzed = None if analyze is False else self.cons.copy()

    def op_analyze(self, step):
        if not self.names:
            raises(utils.NoAtomsError, self.latt.analyze, "analyze without atoms")
        elif not self.cons.any():
            raises(utils.NoConnectionsError, self.latt.analyze, "analyze without connections")
        elif self.analyzable():
            self.latt.analyze()
            self.analyzed = self.cons.copy()
            # same as a lattice that is set up in one go
            fresh = make_structure(lp, self.spec(), type(self.latt))
            check(list(self.latt.num_neighbors) == list(fresh.num_neighbors),
                  "number of neighbors after analyzing")
            expect_close(self.latt.distances, fresh.distances, "distances")

    def op_build(self, step):
        latt = self.latt
        if not isinstance(latt, lp.Lattice):
            if self.analyzed is None:
                raises(utils.NotAnalyzedError, latt.get_neighbors, "neighbors")
                raises(utils.NotAnalyzedError, latt.get_neighbor_positions, "positions")
                raises(utils.NotAnalyzedError, latt.get_neighbor_vectors, "vectors")
            return
        size = np.full(self.dim, 2)
        if not self.names:
            raises(lp.ConfigurationError, lambda: latt.build(size), "build without atoms")
        elif not self.cons.any():
            raises(utils.NoConnectionsError, lambda: latt.build(size), "build")
        elif self.analyzed is None:
            raises(utils.NotAnalyzedError, lambda: latt.build(size), "build")
            raises(utils.NotAnalyzedError, latt.get_neighbors, "neighbors")
        else:
            latt.build(size, primitive=True)
            fresh = make_structure(lp, self.spec())
            fresh.build(size, primitive=True)
            check(latt.num_sites == fresh.num_sites, "built lattice")
            check(tables(latt) == tables(fresh), "neighbors of the built lattice")

    def op_occupied(self, step):
        if not self.names:
            return
        pos = np.array(self.latt.atom_positions[step["i"] % len(self.names)])
        atom = lp.Atom("X") if step["object"] else "X"
        before = config_state(self.latt)
        raises(lp.SiteOccupiedError, lambda: self.latt.add_atom(pos, atom), "occupied")
        check(config_state(self.latt) == before, "failed add_atom changed the lattice")

    def op_wrong_dim(self, step):
        pos = np.full(self.dim + (1 if step["i"] % 2 or self.dim == 1 else -1), 0.321)
        before = config_state(self.latt)
        raises(ValueError, lambda: self.latt.add_atom(pos, "X", primitive=step["primitive"]),
               "wrong dimension")
        check(config_state(self.latt) == before, "failed add_atom changed the lattice")

    def op_wrong_shape(self, step):
        latt = self.latt
        if not isinstance(latt, lp.Lattice) or self.analyzed is None:
            return
        size = np.full(self.dim + (1 if step["i"] % 2 or self.dim == 1 else -1), 2.0)
        arg = lp.Shape(size) if step["object"] else size
        before = config_state(latt)
        raises(ValueError, lambda: latt.build(arg, primitive=step["primitive"]
                                              and not step["object"]), "wrong shape")
        check(config_state(latt) == before, "failed build changed the lattice")

    def op_unknown(self, step):
        raises(ValueError, lambda: self.latt.get_atom("unknown"), "unknown atom")

    def op_periodic(self, step):
        latt = self.latt
        if not isinstance(latt, lp.Lattice):
            return
        if latt.shape is None:
            raises(utils.NotBuiltError, lambda: latt.set_periodic(0), "periodic")
            raises(utils.NotBuiltError, lambda: latt.set_periodic(True), "periodic")


@PROP.sub(
    "config",
    config_cases,
    1600,
    "sequences of configuration calls (atoms, connections, analysis, build, and calls that "
    "have to fail) checked against a model after every call; non-trivial: at least one "
    "atom was added",
)
def config(case, ctx):
    model = Config(case)
    for n, step in enumerate(case["steps"]):
        ctx.label(step["op"])
        kind = step["op"]
        before = None
        missing = (
            kind in ("analyze", "build", "periodic", "unknown")
            and (not model.names or not model.cons.any() or model.analyzed is None
                 or kind in ("periodic", "unknown"))
        )
        if missing:
            before = config_state(model.latt)
        built = isinstance(model.latt, lp.Lattice) and model.latt.num_sites > 0
        getattr(model, "op_" + kind)(step)
        if missing and not (kind == "analyze" and model.analyzed is not None):
            check(config_state(model.latt) == before, "%s changed the lattice", kind)
            if built:
                ctx.label("failed on a built lattice")
        model.verify("step %d (%s)" % (n, kind))
    ctx.nontrivial(len(model.names) > 0)


# -- keywords --------------------------------------------------------------------------
@st.composite
def keyword_cases(draw):
    latt = draw(gen.lattices(max_dim=3, max_dist=2, max_atoms=3))
    dim = len(latt["vectors"])
    return {
        "latt": latt,
        "cons": draw(st.sampled_from(["int", "index", "name"])),
        "num": draw(st.sampled_from([1, 2, 1, 2, 3, 4, 6])),
        "atoms": draw(st.sampled_from(["name", "object", "none"])),
        "cls": draw(st.sampled_from(["Lattice", "Lattice", "LatticeStructure"])),
        "shape": draw(st.sampled_from([None, "tuple", "shape"])),
        "size": [draw(st.integers(1, 3)) for _ in range(dim)],
        "periodic": draw(st.sampled_from([None, 0, True, [0]])),
    }


def comparable(latt):
    out = config_state(latt)
    out["atoms"] = [(a[0], a[1], a[3]) for a in out["atoms"]]
    return out


def occupied(vecs, pos, size):
    """Some site lies clearly inside of the box from the origin to the size"""
    corners = np.array(list(itertools.product(*[(0.0, x) for x in size])))
    for r in pos:
        n = (corners - r) @ np.linalg.inv(vecs)
        lo, hi = np.floor(n.min(axis=0)).astype(int), np.ceil(n.max(axis=0)).astype(int)
        cells = itertools.product(*[range(a, b + 1) for a, b in zip(lo, hi)])
        x = r + np.array(list(cells)) @ vecs
        if np.any(np.all((x > -1e-6) & (x < np.array(size) + 1e-6), axis=1)):
            return True
    return False


@PROP.sub(
    "keywords",
    keyword_cases,
    800,
    "quick setup through keywords compared with the individual calls; non-trivial: always",
)
def keywords(case, ctx):
    spec = case["latt"]
    vecs = arr(spec["vectors"])
    pos = arr([a["frac"] for a in spec["atoms"]]) @ vecs
    names = [a["name"] for a in spec["atoms"]]
    n = len(names)
    cls = getattr(lp, case["cls"])
    ctx.nontrivial()
    kind = case["atoms"]
    if kind == "none":
        names = ["A"] * n

    def atom(i):
        if kind == "object":
            return lp.Atom(names[i], radius=0.3, mass=1.5 + i)
        return None if kind == "none" else names[i]

    kw = {"atoms": {tuple(p): atom(i) for i, p in enumerate(pos.tolist())}}
    table = np.zeros((n, n), dtype=int)
    if case["cons"] == "int":
        kw["cons"] = case["num"]
        table[:] = case["num"]
    else:
        cons = {}
        for i in range(n):
            for j in range(i, n):
                num = spec["cons"][i][j]
                if case["cons"] == "index":
                    cons[(i, j)] = num
                    table[i, j] = table[j, i] = num
                elif num:
                    cons[(names[i], names[j])] = num
        if case["cons"] == "name":
            for (a, b), num in cons.items():
                for i in range(n):
                    for j in range(n):
                        if names[i] == a and names[j] == b:
                            table[i, j] = table[j, i] = num
        kw["cons"] = cons
    check(table.any(), "invalid case")
    Ref(dict(spec, cons=table.tolist())).neighbor_table()  # distinct distances
    if case["cls"] == "Lattice" and case["shape"]:
        size = (arr(case["size"]) * np.abs(vecs).max() + 0.01).tolist()
        if not occupied(vecs, pos, size):
            ctx.discard("no site in the shape")
        kw["shape"] = tuple(size) if case["shape"] == "tuple" else lp.Shape(size)
        if len(size) == 1 and case["shape"] == "tuple":
            kw["shape"] = size[0]
        kw["periodic"] = case["periodic"]
        if case["periodic"] is None:
            del kw["periodic"]
        ctx.label("built", "periodic %s" % (case["periodic"],))
    quick = cls(vecs, **kw)
    latt = cls(vecs)
    for i in range(n):
        latt.add_atom(pos[i], atom(i))
    for i in range(n):
        for j in range(i, n):
            latt.add_connection(i, j, int(table[i, j]))
    latt.analyze()
    if "shape" in kw:
        latt.build(kw["shape"], periodic=kw.get("periodic"))
    a, b = comparable(quick), comparable(latt)
    for k in b:
        check(a[k] == b[k], "%s of the quick setup: %s != %s", k, a[k], b[k])
    ref = Ref(dict(spec, cons=table.tolist()))
    _, neighbors = ref.neighbor_table()
    check([int(x) for x in quick.num_neighbors] == [len(x) for x in neighbors],
          "number of neighbors")


# -- predefined lattices ---------------------------------------------------------------
PREFABS = ["simple_chain", "alternating_chain", "simple_square", "simple_rectangular",
           "simple_hexagonal", "honeycomb", "graphene", "simple_cubic", "nacl_structure",
           "finite_hypercubic"]


@st.composite
def prefab_cases(draw):
    name = draw(st.sampled_from(PREFABS))
    out = {
        "name": name,
        "a": draw(st.one_of(st.sampled_from([None, 1.0, 2, 0.5, 1.42, 3.0, 10.0, 0.246]),
                            gen.floats(0.2, 12))),
        "a2": draw(gen.grid(0.5, 3, 0.25)),
        "neighbors": draw(st.sampled_from([None, 1, 2, 3])),
        "atom": draw(st.sampled_from([None, "A", "Cu", "object"])),
        "atom2": draw(st.sampled_from([None, "B", "object"])),
        "x0": draw(st.sampled_from([0.0, 0.25, 0.1, 1.0, -0.3])),
    }
    if name == "finite_hypercubic":
        dim = draw(st.integers(1, 3))
        out["size"] = [draw(st.integers(1, 4)) for _ in range(dim)]
        out["scalar"] = dim == 1 and draw(st.booleans())
        out["primitive"] = draw(st.sampled_from([None, True, False]))
        out["periodic"] = draw(st.sampled_from([None, None, 0, True]))
        out["shape"] = draw(st.booleans()) and not out["scalar"]
    return out


@PROP.sub(
    "prefabs",
    prefab_cases,
    900,
    "predefined lattices with arbitrary lattice constants, atoms and neighbor ranges, "
    "compared with the reference model; non-trivial: lattice constant is not 1",
)
def prefabs(case, ctx):
    name, a = case["name"], case["a"]
    ctx.label(name)
    ctx.nontrivial(a not in (None, 1.0))
    kw = {}
    if a is not None:
        kw["a1" if name == "simple_rectangular" else "a"] = a
    const = 1.0 if a is None else a
    atom = lp.Atom("Obj", mass=4.0) if case["atom"] == "object" else case["atom"]
    atom2 = lp.Atom("Two", mass=5.0) if case["atom2"] == "object" else case["atom2"]
    label = lambda x, d="A": d if x is None else (x.name if isinstance(x, lp.Atom) else x)
    num = case["neighbors"]
    s3 = math.sqrt(3)
    names, cons = [label(atom)], None
    frac_pos = None
    if name == "graphene":
        names, num = ["C1", "C2"], 1
    else:
        if name in ("alternating_chain", "nacl_structure"):
            if atom is not None:
                kw["atom1"] = atom
            if atom2 is not None:
                kw["atom2"] = atom2
            nacl = name == "nacl_structure"
            names = [label(atom, "Na" if nacl else "A"), label(atom2, "Cl" if nacl else "A")]
        elif atom is not None:
            kw["atom"] = atom
        if name == "honeycomb":
            names, num = names * 2, 1
        elif num is not None:
            kw["neighbors"] = num
    if num is None:
        num = 2 if name == "simple_rectangular" else 1
    if name == "simple_rectangular":
        const = 1.5 if a is None else a
        kw["a2"] = case["a2"]
        vecs = [[const, 0], [0, case["a2"]]]
        pos = [[0, 0]]
    elif name in ("simple_chain", "alternating_chain"):
        vecs, pos = [[const]], [[0.0]]
        if name == "alternating_chain":
            kw["x0"] = case["x0"]
            pos = [[case["x0"] * const], [(case["x0"] + 0.5) * const]]
    elif name == "simple_square":
        vecs, pos = const * np.eye(2), [[0, 0]]
    elif name in ("simple_hexagonal", "honeycomb", "graphene"):
        vecs = const * np.array([[1.5, s3 / 2], [1.5, -s3 / 2]])
        pos = [[0, 0]]
        if name != "simple_hexagonal":
            pos = [[0, 0], [const, 0]]
            cons = [[0, 1], [1, 0]]
    elif name == "simple_cubic":
        vecs, pos = const * np.eye(3), [[0, 0, 0]]
    elif name == "nacl_structure":
        vecs = const / 2 * np.array([[1, 1, 0], [1, 0, 1], [0, 1, 1]])
        pos = [[0, 0, 0], [const / 2] * 3]
    else:
        dim = len(case["size"])
        vecs, pos = const * np.eye(dim), [[0] * dim]
        if case["primitive"] is not None:
            kw["primitive"] = case["primitive"]
        if case["periodic"] is not None:
            kw["periodic"] = case["periodic"]
    vecs, pos = arr(vecs), arr(pos)
    n = len(names)
    frac_pos = pos @ np.linalg.inv(vecs)
    if cons is None:
        cons = [[num] * n for _ in range(n)]
    spec = {"vectors": vecs.tolist(), "cons": cons,
            "atoms": [{"frac": f, "name": x} for f, x in zip(frac_pos.tolist(), names)]}
    ref = Ref(spec)
    dists, neighbors = ref.neighbor_table()
    func = getattr(lp, name)
    if name == "finite_hypercubic":
        size = case["size"]
        if case["primitive"] is False:
            size = [x * const for x in size]
        arg = size[0] if case["scalar"] else tuple(size)
        if case["shape"]:
            arg = lp.Shape(arr(case["size"]) * const + 0.01 * const)
        latt = func(arg, **kw)
    else:
        latt = func(**kw)
    check(isinstance(latt, lp.Lattice), "type")
    expect_close(latt.vectors, vecs, "vectors")
    expect_close(np.array(latt.atom_positions), pos, "atom positions")
    check([x.name for x in latt.atoms] == names, "names %s != %s",
          [x.name for x in latt.atoms], names)
    if isinstance(atom, lp.Atom) and name != "graphene":
        check(latt.atoms[0].get("mass") == 4.0, "attributes of the atom")
    check([int(x) for x in latt.num_neighbors] == [len(x) for x in neighbors],
          "number of neighbors")
    for i in range(n):
        want = sorted({d for x, d in neighbors[i]})
        for k, d in enumerate(want):
            got = {tuple(int(x) for x in r) for r in latt.get_neighbors(alpha=i, distidx=k)}
            check(got == {x for x, y in neighbors[i] if y == d}, "neighbors of atom %s", i)
    if name == "finite_hypercubic":
        same = make_structure(lp, spec)
        if case["shape"]:
            same.build(arg, primitive=kw.get("primitive", True), periodic=case["periodic"])
        else:
            same.build(arg, primitive=kw.get("primitive", True), periodic=case["periodic"])
        check(np.array_equal(latt.indices, same.indices), "sites")
        expect_close(latt.positions, same.positions, "positions")
        check(tables(latt) == tables(same), "neighbors")
        want = int(np.prod(case["size"]))
        if kw.get("primitive", True) and not case["shape"]:
            check(latt.num_sites == want, "number of sites")
        else:
            check(latt.num_sites == int(np.prod([x + 1 for x in case["size"]])),
                  "number of sites")
    else:
        check(latt.num_sites == 0 and latt.shape is None, "lattice is built")


ERRORS = [
    ("SiteOccupiedError", ["atom", "pos"]), ("NoAtomsError", []), ("NoConnectionsError", []),
    ("NotAnalyzedError", []), ("NotBuiltError", []),
]


@st.composite
def error_cases(draw):
    return {
        "i": draw(st.integers(0, len(ERRORS) - 1)),
        "name": draw(st.sampled_from(["A", "Cu", None])),
        "pos": draw(gen.points(draw(st.integers(1, 3)))),
        "msg": draw(st.text(min_size=1, max_size=10)),
        "hint": draw(st.one_of(st.none(), st.text(min_size=1, max_size=10))),
    }


@PROP.sub(
    "errors",
    error_cases,
    300,
    "messages of the documented errors; non-trivial: always",
)
def errors(case, ctx):
    name, args = ERRORS[case["i"]]
    ctx.nontrivial()
    ctx.label(name)
    cls = getattr(utils, name)
    err = cls(*(lp.Atom(case["name"]), arr(case["pos"]))) if args else cls()
    check(isinstance(err, lp.ConfigurationError) and isinstance(err, lp.LatticeError), "type")
    text = str(err)
    check(err.msg and err.msg in text, "message")
    check(isinstance(err.hint, str) and err.hint in text, "hint")
    if args:
        check(str(arr(case["pos"])) in text, "position is missing")
    own = lp.ConfigurationError(*[x for x in (case["msg"], case["hint"]) if x])
    check(case["msg"] in str(own), "message")
    check(own.msg == case["msg"], "message")
    if case["hint"]:
        check(case["hint"] in str(own) and own.hint == case["hint"], "hint")
    else:
        check(str(own) == case["msg"], "message without a hint")
