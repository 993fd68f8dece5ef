"""C06: neighbors of the infinite lattice"""

import numpy as np
from hypothesis import strategies as st

import lattpy as lp
from vlib import gen
from vlib.core import Property, check
from vlib.ref import Ref, expect_close, make_structure

PROP = Property(
    "C06",
    [
        "distances closer than 2e-5 or on the rounding boundary of the 6 documented "
        "decimals are outside of the domain",
    ],
)


@st.composite
def cases(draw):
    dim = draw(st.sampled_from([1, 2, 2, 2, 3, 3, 4]))
    top = {1: 6, 2: 5, 3: 3, 4: 2}[dim]
    if draw(st.integers(0, 5)) == 0:
        top = {1: 12, 2: 9, 3: 5, 4: 2}[dim]
    latt = draw(
        gen.lattices(
            dim=dim, max_atoms={1: 4, 2: 4, 3: 3, 4: 2}[dim], max_dist=top
        )
    )
    if draw(st.integers(0, 3)) == 0 and dim in (2, 3):
        # anisotropic cells: many neighbors along one direction first
        i = draw(st.integers(0, dim - 1))
        f = draw(st.sampled_from([3.0, 4.5, 7.0]))
        latt["vectors"][i] = [f * x for x in latt["vectors"][i]]
        if draw(st.booleans()):
            j = draw(st.integers(0, dim - 1))
            if i != j:
                # same lattice, but a long oblique cell vector
                n = draw(st.integers(-4, 4))
                latt["vectors"][i] = [
                    x + n * y for x, y in zip(latt["vectors"][i], latt["vectors"][j])
                ]
    mag = draw(st.sampled_from([3, 40, 200, 40000]))
    num = len(latt["atoms"])
    return {
        "latt": latt,
        "cls": draw(st.sampled_from(["LatticeStructure", "Lattice"])),
        "nvec": draw(st.lists(st.integers(-mag, mag), min_size=dim, max_size=dim)),
        "form": draw(st.sampled_from(["list", "int64", "int16", "float", "tuple"])),
        "k": draw(gen.points(dim, -4, 4)),
        "cons2": draw(
            st.one_of(
                st.none(),
                gen.connections(num, max_dist=min(3, top)),
            )
        ),
    }


def key(rows):
    return sorted(tuple(int(x) for x in row) for row in rows)


def judge_structure(latt, spec, case, ctx):
    ref = Ref(spec)
    dists, table = ref.neighbor_table()
    dim = ref.dim
    nvec = np.array(case["nvec"], dtype=np.int64)
    form = case["form"]
    if form == "list":
        arg = case["nvec"]
    elif form == "tuple":
        arg = tuple(case["nvec"])
    elif form == "int16":
        arg = np.clip(nvec, -30000, 30000).astype(np.int16)
        nvec = arg.astype(np.int64)
    else:
        arg = nvec.astype(np.float64 if form == "float" else np.int64)
    arg0 = np.array(arg)
    if dim == 1 and form == "list":
        arg = case["nvec"][0]
    every = sorted({d for row in dists for ds in row for d in ds})
    check(latt.distances.shape == (ref.num, len(every)), "shape of the distances")
    check(len(latt.num_neighbors) == ref.num, "size of num_neighbors")
    check(len(latt.base_neighbors) == ref.num, "size of base_neighbors")
    check(latt.num_distances == int(np.max(ref.cons)), "num_distances")
    pairs = set()
    for a in range(ref.num):
        levels = sorted({d for d in (x for ds in dists[a] for x in ds)})
        got = latt.distances[a]
        want = levels + [0.0] * (len(every) - len(levels))
        expect_close(got, want, "distances of an atom", 2e-6)
        check(int(latt.num_neighbors[a]) == len(table[a]), "number of neighbors: %s != %s",
              latt.num_neighbors[a], len(table[a]))
        check(len(latt.base_neighbors[a]) == len(levels), "levels of the base neighbors")
        p0 = ref.pos[a]
        for i, d in enumerate(levels):
            want = sorted(ind for ind, x in table[a] if x == d)
            base = [v for x, v in latt.base_neighbors[a].items() if abs(x - d) < 2e-6]
            check(len(base) == 1 and key(base[0]) == want, "base neighbors")
            ind = latt.get_neighbors(alpha=a, distidx=i)
            check(key(ind) == want, "neighbors of atom %s, level %s: %s != %s", a, i,
                  key(ind), want)
            check(np.issubdtype(np.asarray(ind).dtype, np.integer), "integer indices")
            pairs.update((a, i, w) for w in want)
            shifted = sorted(
                (*[int(x) for x in np.array(w[:-1]) + nvec], w[-1]) for w in want
            )
            ind2 = latt.get_neighbors(arg, alpha=a, distidx=i)
            check(key(ind2) == shifted, "translated neighbors of %s", case["nvec"])
            check(np.array_equal(np.array(arg).ravel(), arg0.ravel()), "modified nvec")
            pos = latt.get_neighbor_positions(arg, alpha=a, distidx=i)
            expect_close(pos, ref.position(np.array(ind2)), "neighbor positions")
            check(
                np.allclose(
                    np.linalg.norm(pos - (p0 + nvec @ ref.vecs), axis=1), d,
                    atol=2e-6 + 1e-9 * np.abs(pos).max(), rtol=0,
                ),
                "distances of the neighbor positions",
            )
            pos = latt.get_neighbor_positions(alpha=a, distidx=i)
            vecs = latt.get_neighbor_vectors(alpha=a, distidx=i)
            want_vecs = ref.position(np.array(ind)) - p0
            expect_close(pos, want_vecs + p0, "neighbor positions at the origin")
            expect_close(vecs, want_vecs, "neighbor vectors")
            zero = latt.get_neighbor_vectors(alpha=a, distidx=i, include_zero=True)
            check(len(zero) == len(vecs) + 1, "number of vectors with zero")
            iz = np.where(np.all(np.abs(zero) < 1e-9, axis=1))[0]
            check(len(iz) == 1, "zero vector: %s", zero.tolist())
            expect_close(np.delete(zero, iz, axis=0), vecs, "vectors with zero")
            w = latt.fourier_weights(np.array(case["k"]), alpha=a, distidx=i)
            want_w = np.sum(np.exp(1j * want_vecs @ np.array(case["k"])))
            check(np.ndim(w) == 0 and abs(w - want_w) < 1e-6 * (1 + len(vecs)),
                  "fourier weight %s != %s", w, want_w)
            # results are no views of the stored neighbors
            ind[:] = 99
            ind2[:] = 99
            pos[:] = 99
            vecs[:] = 99
            check(key(latt.get_neighbors(alpha=a, distidx=i)) == want, "aliased result")
        try:
            extra = latt.get_neighbors(alpha=a, distidx=len(levels))
        except (IndexError, ValueError, KeyError):
            pass
        else:
            check(len(extra) == 0, "level %s of atom %s has neighbors", len(levels), a)
    for a, i, w in pairs:
        # the site is a neighbor of its neighbors
        d = sorted({d for ds in dists[a] for d in ds})[i]
        j = sorted({d for ds in dists[w[-1]] for d in ds}).index(d)
        back = latt.get_neighbors(list(w[:-1]), w[-1], j)
        check((*(0,) * dim, a) in key(back), "neighbors are not mutual")
        if len(pairs) > 150:
            break
    return sum(len(t) for t in table)


@PROP.sub(
    "infinite",
    cases,
    1500,
    "random basis (1D-4D, oblique, anisotropic), atoms in and outside of the cell and "
    "connection tables with up to 12 distances, each re-analyzed with a second table; "
    "non-trivial: several atoms or at least two distances",
)
def infinite(case, ctx):
    spec = case["latt"]
    Ref(spec).neighbor_table()  # domain
    cls = getattr(lp, case["cls"])
    latt = make_structure(lp, spec, cls)
    ctx.label(f"dim{len(spec['vectors'])}", f"atoms{len(spec['atoms'])}",
              f"max{np.max(spec['cons'])}")
    ctx.nontrivial(len(spec["atoms"]) > 1 or np.max(spec["cons"]) > 1)
    judge_structure(latt, spec, case, ctx)
    if case["cons2"]:
        spec2 = dict(spec, cons=case["cons2"])
        Ref(spec2).neighbor_table()
        num = len(spec["atoms"])
        for i in range(num):
            for j in range(i, num):
                latt.add_connection(i, j, spec2["cons"][i][j])
        latt.analyze()
        ctx.label("reanalyzed")
        judge_structure(latt, spec2, case, ctx)
