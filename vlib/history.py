"""Histories of edits of a built lattice and a model of its sites and neighbors."""

import numpy as np
from hypothesis import strategies as st

from .core import check
from .torus import Cells, axes, axes_arg, cells, periodic_table

NUM = st.integers(0, 10**4)


@st.composite
def op(draw, dim, kinds):
    kind = draw(st.sampled_from(kinds))
    out = {"op": kind}
    if kind == "remove":
        out["sites"] = draw(st.lists(NUM, min_size=1, max_size=4))
        out["scalar"] = draw(st.booleans())
        # remove every n-th site (starting at the first one given)
        out["every"] = draw(st.sampled_from([0, 0, 0, 0, 2, 3, 7]))
        out["form"] = draw(st.sampled_from(["list", "list", "array", "negative",
                                            "repeated", "mask"]))
    elif kind == "sort":
        out["ax"] = draw(st.integers(0, dim))
        out["reverse"] = draw(st.booleans())
    elif kind == "permute":
        out["seed"] = draw(NUM)
        out["reverse"] = draw(st.booleans())
    elif kind == "append":
        out["num"] = draw(st.lists(st.integers(1, 4), min_size=dim, max_size=dim))
        out["form"] = draw(st.sampled_from(["data", "args", "copy", "periodic"]))
        out["nn"] = draw(st.booleans())
    elif kind == "add":
        out["pairs"] = draw(st.lists(st.tuples(NUM, NUM), min_size=1, max_size=4))
        out["dist"] = draw(st.sampled_from([None, None, 0.123456, 0.777777, 99.5]))
        out["scalar"] = draw(st.booleans())
        # sites that lost neighbors before
        out["lost"] = draw(st.booleans())
    elif kind == "periodic":
        out.update(draw(axes(dim)))
    return out


ALL = ["remove", "remove", "sort", "permute", "sort_neighbors", "append", "add",
       "periodic", "periodic", "unperiodic", "data_unperiodic"]


@st.composite
def histories(draw, kinds=None, max_len=6, **kw):
    case = draw(cells(**kw))
    dim = len(case["latt"]["vectors"])
    case["ops"] = draw(
        st.lists(op(dim, kinds or ALL), min_size=1, max_size=max_len)
    )
    return case


def site_keys(data):
    return [
        (tuple(int(x) for x in i), tuple(round(float(x), 6) + 0.0 for x in p))
        for i, p in zip(data.indices, data.positions)
    ]


def snapshot(data):
    """Sites and neighbors of the data: key -> {key: (distance, periodic)}"""
    keys = site_keys(data)
    num = len(keys)
    check(len(set(keys)) == num, "sites are not unique")
    check(data.num_sites == num, "number of sites")
    vals = np.asarray(data.distvals)
    out = {}
    for i, k in enumerate(keys):
        row = {}
        for flag in (False, True):
            mask = np.asarray(data.neighbor_mask(i, periodic=flag))
            for j, d in zip(data.neighbors[i, mask], data.distances[i, mask]):
                check(0 <= j < num, "invalid neighbor %s of site %s", j, i)
                check(keys[j] not in row, "neighbor is listed twice")
                check(np.isfinite(vals[d]), "invalid distance")
                row[keys[j]] = (round(float(vals[d]), 5), flag)
        every = sorted(int(j) for j in data.get_neighbors(i))
        check(len(every) == len(row), "number of neighbors")
        out[k] = row
    return out


def same_snapshot(got, want, what):
    check(set(got) == set(want), "%s: sites differ: %s", what,
          sorted(set(got) ^ set(want))[:4])
    for k in want:
        if got[k] == want[k]:
            continue
        ok = set(got[k]) == set(want[k]) and all(
            abs(got[k][j][0] - want[k][j][0]) < 2.5e-5 and got[k][j][1] == want[k][j][1]
            for j in got[k]
        )
        check(ok, "%s: neighbors of %s: %s != %s", what, k, got[k], want[k])


class Model:
    """Applies operations to a lattice and to the model"""

    def __init__(self, lp, case):
        self.lp = lp
        self.geo = Cells(case, max_sites=270)
        self.latt = self.geo.build(lp)
        self.model = snapshot(self.latt.data)
        self.complete = True  # the original sites
        self.appended = 0
        self.applied = []
        self.lost = []  # sites that lost (periodic) neighbors

    def drop_periodic(self):
        self.model = {
            k: {j: v for j, v in row.items() if not v[1]} for k, row in self.model.items()
        }

    def apply(self, step):
        """Returns False if the operation is not applicable"""
        func = getattr(self, "op_" + step["op"])
        ok = func(step) is not False
        if ok:
            self.applied.append(step["op"])
        return ok

    def op_remove(self, step):
        num = self.latt.num_sites
        sites = {s % num for s in step["sites"]}
        if step["every"]:
            sites = set(range(min(sites) % step["every"], num, step["every"]))
        sites = sorted(sites, reverse=bool(step["scalar"]))
        if len(sites) >= num - 1:
            return False
        keys = site_keys(self.latt.data)
        form = step["form"]
        arg = np.array(sites)
        if form == "negative":
            arg[::2] -= num
        elif form == "repeated":
            arg = np.append(arg, arg[::2])
        elif form == "mask":
            arg = np.isin(np.arange(num), sites)
        elif form == "list":
            arg = list(sites)
        if step["scalar"] and len(sites) == 1 and form in ("list", "negative"):
            arg = int(arg[0])
        kept = np.array(arg)
        self.latt.data.remove(arg)
        check(np.array_equal(kept, arg), "removing sites changes the argument")
        gone = {keys[s] for s in sites}
        self.lost = [
            k for k, row in self.model.items()
            if k not in gone and any(j in gone and v[1] for j, v in row.items())
        ] or self.lost
        self.model = {
            k: {j: v for j, v in row.items() if j not in gone}
            for k, row in self.model.items() if k not in gone
        }
        self.complete = False

    def op_sort(self, step):
        self.latt.data.sort(step["ax"], reverse=step["reverse"])
        x = np.asarray(self.latt.indices[:, step["ax"]]).astype(int)
        diff = np.diff(x)
        check(np.all(diff <= 0 if step["reverse"] else diff >= 0), "order of the sites")

    def op_permute(self, step):
        num = self.latt.num_sites
        perm = np.random.RandomState(step["seed"]).permutation(num)
        keys = site_keys(self.latt.data)
        self.latt.data.sort(indices=perm, reverse=step["reverse"])
        want = [keys[i] for i in perm]
        if step["reverse"]:
            want = want[::-1]
        check(site_keys(self.latt.data) == want, "order of the sites")

    def op_sort_neighbors(self, step):
        self.latt.data.sort_neighbors()
        data = self.latt.data
        vals = data.distvals[data.distances]
        check(np.all(vals[:, 1:] >= vals[:, :-1]), "neighbors are not sorted")

    def op_append(self, step):
        lp, geo = self.lp, self.geo
        if self.latt.num_sites > 400:
            return False
        from .ref import make_structure

        other = make_structure(lp, geo.spec)
        if step["nn"] and geo.ref.num > 0:
            other = make_structure(
                lp, dict(geo.spec, cons=[[1] * geo.ref.num] * geo.ref.num)
            )
        case = dict(geo.case, plain=False, start=[0] * geo.dim, fill_sites=0)
        sub = Cells(case, max_sites=10**6)
        sub.num = list(step["num"])
        other = sub.build(lp, other)
        # unique indices and positions
        self.appended += 1
        shift = np.array([50000 + 300 * self.appended] + [0] * (geo.dim - 1))
        data2 = other.data
        if step["form"] == "periodic":
            if not sub.large(0):
                return False
            other.set_periodic(0)
        ind = np.array(data2.indices, dtype=np.int64)
        ind[:, :-1] += shift
        data2.indices = ind
        data2.positions = data2.positions + shift @ geo.ref.vecs
        new = snapshot(data2)
        before = {k: dict(v) for k, v in new.items()}
        if step["form"] == "args":
            neighbors = np.array(data2.neighbors)
            dists = np.array(data2.distvals[data2.distances])
            self.latt.data.append(ind, data2.positions, neighbors, dists)
        elif step["form"] == "copy":
            res = self.latt.data.append(data2, copy=True)
            same_snapshot(snapshot(self.latt.data), self.model, "append(copy=True)")
            self.latt.data = res
        else:
            self.latt.data.append(data2)
        same_snapshot(snapshot(data2), before, "appended data")
        self.drop_periodic()
        for k, row in new.items():
            self.model[k] = {j: v for j, v in row.items() if not v[1]}
        self.complete = False

    def op_add(self, step):
        self.model = {k: dict(row) for k, row in self.model.items()}
        data = self.latt.data
        keys = site_keys(data)
        num = len(keys)
        vals = [x for x in data.distvals if np.isfinite(x)]
        lost = sorted(keys.index(k) for k in self.lost if k in self.model)
        for n, (i, j) in enumerate(step["pairs"]):
            i, j = i % num, j % num
            if lost and step["lost"]:
                # a few sites get all pairs
                i = lost[i % min(2, len(lost))]
            if i == j or keys[j] in self.model[keys[i]] or keys[i] in self.model[keys[j]]:
                continue
            d = step["dist"]
            if d is None:
                if not vals:
                    continue
                d = vals[n % len(vals)]
            if any(0 < abs(d - x) < 1e-4 for x in vals):
                continue
            for a, b in ((i, j), (j, i)):
                if step["scalar"]:
                    data.add_neighbors(a, b, d)
                else:
                    data.add_neighbors(a, [b], [d])
                self.model[keys[a]][keys[b]] = (round(float(d), 5), False)

    def op_periodic(self, step):
        geo = self.geo
        if not self.complete or not all(geo.large(ax) for ax in step["axes"]):
            return False
        latt = self.latt
        keys = site_keys(latt.data)
        number = {k: i for i, k in enumerate(keys)}
        images = geo.images(step["axes"])
        table = periodic_table(geo.ref, latt.indices, latt.positions, images)
        self.drop_periodic()
        for i, row in enumerate(table):
            have = {number[k] for k in self.model[keys[i]]}
            if i in row or set(row) & have:
                latt.set_periodic(None)
                return False  # pairs that are added or too close
        latt.set_periodic(axes_arg(step, geo.dim))
        for i, row in enumerate(table):
            for j, (d, _) in row.items():
                self.model[keys[i]][keys[j]] = (round(d, 5), True)

    def op_unperiodic(self, step):
        self.latt.set_periodic(None)
        self.drop_periodic()

    def op_data_unperiodic(self, step):
        self.latt.data.remove_periodic()
        self.drop_periodic()

    def op_rebuild(self, step):
        self.geo.build(self.lp, self.latt)
        self.model = snapshot(self.latt.data)
        self.complete = True
        self.appended = 0

    def op_repeat(self, step):
        if not self.complete or self.latt.num_sites > 150:
            return False
        self.latt.repeat(1, ax=0)
        self.model = snapshot(self.latt.data)
        self.complete = False
