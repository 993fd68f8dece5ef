"""C13: append, extend and repeat"""

import itertools

import numpy as np
from hypothesis import strategies as st

import lattpy as lp
from vlib.core import Property, check
from vlib.history import snapshot
from vlib.neigh import compare_tables, expected_tables, rows, tables, to_levels
from vlib.ref import Ref, expect_close, make_structure
from vlib.torus import axes, axes_arg, cells

PROP = Property(
    "C13",
    [
        "complete cells; any basis for lattices built in lattice coordinates, basis "
        "vectors along the cartesian axes otherwise; appended lattices start at the "
        "same cell as the lattice; sections of extend contain complete cells",
    ],
)


@st.composite
def steps(draw, dim):
    kind = draw(
        st.sampled_from(["append", "append", "extend", "extend", "repeat", "repeat",
                         "periodic", "smaller"])
    )
    out = {"op": kind}
    if kind == "periodic":
        out.update(draw(axes(dim)))
        return out
    out["ax"] = draw(st.integers(0, dim - 1))
    out["side"] = draw(st.sampled_from([1, 1, -1]))
    out["sort"] = draw(st.sampled_from([None, None, *range(dim)]))
    out["reverse"] = draw(st.booleans())
    out["num"] = draw(st.integers(1, 4))
    out["frac"] = draw(st.sampled_from([0.0, 0.0, 0.3]))
    out["default"] = draw(st.booleans())
    out["jobs"] = draw(st.sampled_from([1, 1, 2]))
    return out


@st.composite
def cases(draw):
    case = draw(cells(max_dist=2))
    dim = len(case["latt"]["vectors"])
    case["num"] = [draw(st.integers(1, {1: 8, 2: 4, 3: 3}[dim])) for _ in range(dim)]
    if case["fill_sites"]:
        other = int(np.prod(case["num"][1:])) * len(case["latt"]["atoms"])
        case["num"][0] = max(1, case["fill_sites"] // draw(st.sampled_from([1, 2])) // other)
    case["steps"] = draw(st.lists(steps(dim), min_size=1, max_size=4))
    return case


class Grid:
    """Cells along the axes: lo[ax] <= m < lo[ax] + num[ax]"""

    def __init__(self, case):
        self.case = case
        self.spec = case["latt"]
        self.ref = Ref(self.spec)
        self.dim = self.ref.dim
        self.prim = case["mode"] == "prim"
        vecs = self.ref.vecs
        if self.prim:
            self.vec = list(range(self.dim))
            self.sign = [1] * self.dim
        else:
            self.vec = [int(np.argmax(np.abs(vecs[:, ax]))) for ax in range(self.dim)]
            self.sign = [int(np.sign(vecs[i, ax])) for ax, i in enumerate(self.vec)]

    def sites(self, lo, num):
        out = []
        for m in itertools.product(*[range(a, a + n) for a, n in zip(lo, num)]):
            n = [0] * self.dim
            for ax in range(self.dim):
                n[self.vec[ax]] = self.sign[ax] * m[ax]
            out.extend((*n, a) for a in range(self.ref.num))
        return out

    def build(self, latt, lo, num):
        want = set(self.sites(lo, num))
        pos = self.ref.position(np.array(sorted(want)))
        low, high = pos.min(axis=0) - 0.1, pos.max(axis=0) + 0.1

        def callback(indices, positions):
            return np.array([r in want for r in rows(indices)], dtype=bool)

        latt.build(lp.Shape(high - low, low), primitive=self.prim, callback=callback)
        check(set(rows(latt.indices)) == want, "sites of the cells")


@PROP.sub(
    "join",
    cases,
    1500,
    "random lattices of complete cells with histories of up to 4 operations (append, "
    "extend, repeat at either side, sorted or not, periodic axes in between); "
    "non-trivial: at least one operation was applied",
)
def join(case, ctx):
    grid = Grid(case)
    ref, dim = grid.ref, grid.dim
    ref.neighbor_table()
    lo, num = list(case["start"]), list(case["num"])
    latt = make_structure(lp, case["latt"])
    grid.build(latt, lo, num)
    want = set(grid.sites(lo, num))
    ctx.label(f"dim{dim}", case["mode"])
    fracs = np.array([a["frac"] for a in case["latt"]["atoms"]])
    last = False
    for step in case["steps"]:
        if last:
            break
        op = step["op"]
        if op == "periodic":
            latt.set_periodic(axes_arg(step, dim))
            ctx.label("periodic")
            continue
        ax, side = step["ax"], step["side"]
        kwargs = {} if step["default"] and ax == 0 and side == 1 else dict(ax=ax, side=side)
        if step["sort"] is not None:
            kwargs.update(sort_ax=step["sort"], sort_reverse=step["reverse"])
        count = step["num"]
        size = int(np.prod(num)) * ref.num
        if op == "repeat":
            if size * (count + 1) > 350:
                count = 1
            if size * 2 > 350:
                continue
            if count == 1 and step["default"]:
                latt.repeat(**kwargs)
            else:
                latt.repeat(count, **kwargs)
            added = num[ax] * count
            if side < 0:
                lo[ax] -= added
            num[ax] += added
            want = set(grid.sites(lo, num))
        elif op == "extend":
            if size // num[ax] * (num[ax] + count) > 350:
                continue
            if fracs.min() < 0 or fracs.max() >= 1:
                continue
            gaps = [
                (1 - np.ptp(fracs[:, i])) * (1 if grid.prim else np.abs(ref.vecs[i]).max())
                for i in range(dim)
            ]
            if min(gaps) < 2.5e-3:
                continue  # the next sites are within the tolerance of the section
            f = fracs[:, grid.vec[ax]]
            length = count - 1 + f.max() - f.min()
            if f.max() == f.min():
                length += step["frac"]
            if not grid.prim:
                length *= abs(ref.vecs[grid.vec[ax], ax])
            latt.extend(length, num_jobs=step["jobs"], **kwargs)
            if side < 0:
                lo[ax] -= count
            num[ax] += count
            want = set(grid.sites(lo, num))
        else:
            other = make_structure(lp, case["latt"])
            num2 = list(num)
            num2[ax] = count
            if op == "smaller":
                num2 = [max(1, n - 1) if i != ax else n for i, n in enumerate(num2)]
                last = True
            if size + np.prod(num2) * ref.num > 350:
                continue
            grid.build(other, lo, num2)
            if step["reverse"] and all(n > 2 for n in num2):
                other.set_periodic(True)
            before = snapshot(other.data)
            latt.append(other, **kwargs)
            check(snapshot(other.data) == before, "appended lattice is modified")
            start = list(lo)
            start[ax] = lo[ax] + num[ax] if side > 0 else lo[ax] - count
            want = want | set(grid.sites(start, num2))
            if side < 0:
                lo[ax] -= count
            num[ax] += count
        ctx.label(op, f"side{side}")
        ctx.nontrivial()
        got = rows(latt.indices)
        check(len(set(got)) == len(got), "%s: sites are not unique", op)
        check(set(got) == want, "%s: sites differ: missing %s, extra %s", op,
              sorted(want - set(got))[:4], sorted(set(got) - want)[:4])
        expect_close(latt.positions, ref.position(np.array(got)), f"{op}: positions")
        table, vals = expected_tables(ref, np.array(got), latt.positions)
        compare_tables(tables(latt), to_levels(table, vals), op)
        check(len(latt.periodic_axes) == 0, "%s: periodic axes", op)
        for i in range(latt.num_sites):
            check(len(latt.data.get_neighbors(i, periodic=True)) == 0,
                  "%s: periodic neighbors", op)
        pos = np.asarray(latt.positions)
        expect_close(latt.shape, pos.max(axis=0) - pos.min(axis=0), f"{op}: shape")
        expect_close(latt.pos, pos.min(axis=0), f"{op}: pos")
        check(latt.num_sites == len(want) and latt.num_cells == len({g[:-1] for g in want}),
              "number of sites and cells")
        if step["sort"] is not None:
            diff = np.diff(np.array(got)[:, step["sort"]])
            check(np.all(diff <= 0 if step["reverse"] else diff >= 0), "%s: order", op)
            ctx.label("sorted")
