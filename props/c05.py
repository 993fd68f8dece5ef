"""C05: cell index and super index"""

import itertools
import math

import numpy as np
from hypothesis import strategies as st

import lattpy as lp
from vlib.core import Property, check

PROP = Property("C05", ["grids of at most 2^62 cells, so that the super index is a 64 bit integer"])


@st.composite
def cases(draw):
    dim = draw(st.sampled_from([1, 2, 3, 4, 4, 5, 6]))
    big = draw(st.sampled_from([0, 0, 0, 1, 1, 2]))
    top = {1: 5000, 2: 300, 3: 60, 4: 20, 5: 9, 6: 6}[dim] if big else {1: 40, 2: 9, 3: 5, 4: 4, 5: 3, 6: 3}[dim]
    sizes = st.integers(1, top)
    if big == 2:
        # sizes around the limits of the integer types, up to 10^18 cells
        huge = st.sampled_from([120, 130, 255, 300, 32767, 33000, 65000, 70000])
        if dim < 3:
            huge = st.one_of(huge, st.sampled_from([10**6, 2**31 - 1, 2**31 + 9]))
        if dim == 1:
            huge = st.one_of(huge, st.sampled_from([2**32 + 5, 10**15]))
        sizes = st.one_of(huge, huge, sizes) if dim < 4 else st.one_of(huge, sizes, sizes)
    return {
        "shape": draw(st.lists(sizes, min_size=dim, max_size=dim)),
        "form": draw(st.sampled_from(["tuple", "list", "array"])),
        "cell": [draw(st.integers(0, 10**18)) for _ in range(dim)],
    }


@PROP.sub(
    "bijection",
    cases,
    2500,
    "random grid shapes, all cells of small grids and sampled cells of large ones; "
    "non-trivial: at least two axes with more than one cell of different size",
)
def bijection(case, ctx):
    sizes = case["shape"]
    dim = len(sizes)
    latt = lp.LatticeBasis(np.eye(dim))
    shape = {"tuple": tuple, "list": list, "array": np.array}[case["form"]](sizes)
    total = math.prod(sizes)
    if total > 2**62:
        ctx.discard("super index exceeds 64 bit")
    ctx.nontrivial(len({s for s in sizes if s > 1}) > 1)
    ctx.label(f"dim{dim}")
    if total <= 700:
        cells = list(itertools.product(*[range(s) for s in sizes]))
    else:
        cells = [
            tuple((c + k * 7) % s for c, s in zip(case["cell"], sizes))
            for k in range(40)
        ]
        cells.append(tuple(s - 1 for s in sizes))
        cells.append((0,) * dim)
    strides = [math.prod(sizes[d + 1:]) for d in range(dim)]
    expected = [sum(i * n for i, n in zip(c, strides)) for c in cells]
    got = latt.get_cell_superindex(np.array(cells), shape)
    check(np.array_equal(got, expected), "array: %s != %s", got, expected)
    if total <= 700:
        check(sorted(int(i) for i in got) == list(range(total)), "not a bijection")
    back = latt.get_cell_index(np.array(expected), shape)
    check(np.array_equal(back, cells), "inverse of array")
    for c, e in list(zip(cells, expected))[:25]:
        si = latt.get_cell_superindex(list(c), shape)
        check(np.ndim(si) == 0 and int(si) == e, "single: %s of %s != %s", si, c, e)
        si = latt.get_cell_superindex(c, shape)
        check(np.ndim(si) == 0 and int(si) == e, "single: %s of %s != %s", si, c, e)
        ci = latt.get_cell_index(e, shape)
        check(np.array_equal(ci, c), "single inverse: %s of %s != %s", ci, e, c)
        ci = latt.get_cell_index(si, shape)
        check(np.array_equal(ci, c), "round trip: %s of %s != %s", ci, si, c)
    if dim == 1:
        e = expected[-1]
        check(latt.get_cell_superindex(cells[-1][0], shape) == e, "scalar index")
