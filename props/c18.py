"""C18: numerical helpers"""

import itertools
import math

import numpy as np
from hypothesis import strategies as st

import lattpy as lp
from lattpy import spatial, utils
from vlib import gen
from vlib.core import Property, check
from vlib.ref import arr, expect_close

PROP = Property(
    "C18",
    ["points are row vectors: rotating a point multiplies it with the rotation matrix from "
     "the right",
     "lookup tables of at most 256 values, as documented",
     "points at the cutoff radius or with the same distance as the last neighbor are not "
     "judged"],
)

FLOATS = st.one_of(
    gen.grid(-5, 5, 0.5), gen.floats(-50, 50), st.sampled_from([0.0, 1e6, -1e6, 1e-8])
)


def unchanged(func, *arrays):
    """Calls the function and checks that the arguments are not modified"""
    before = [np.array(a, copy=True) for a in arrays]
    res = func(*arrays)
    for a, b in zip(arrays, before):
        check(np.array_equal(np.asarray(a), b), "argument was modified")
    return res


# -- distances -------------------------------------------------------------------------
@st.composite
def distance_cases(draw):
    dim = draw(st.integers(1, 4))
    num = draw(st.integers(1, 5))
    pts = st.lists(st.lists(FLOATS, min_size=dim, max_size=dim), min_size=num, max_size=num)
    return {"a": draw(pts), "b": draw(pts), "single": draw(st.booleans()),
            "decimals": draw(st.sampled_from([None, None, 0, 2, 6])),
            "int": draw(st.booleans()) and draw(st.booleans())}


@PROP.sub(
    "distances",
    distance_cases,
    1500,
    "distances of points compared with the Euclidean norm; non-trivial: distinct points",
)
def distance_judge(case, ctx):
    a, b, dec = arr(case["a"]), arr(case["b"]), case["decimals"]
    if case["int"]:
        a, b = a.astype(np.int64), b.astype(np.int64)
    kw = {} if dec is None else {"decimals": dec}
    first = a[0] if case["single"] else a
    got = unchanged(lambda x, y: spatial.distances(x, y, **kw), first, b)
    want = []
    for k in range(len(b)):
        p = a[0] if case["single"] else a[k]
        d = math.sqrt(math.fsum((float(x) - float(y)) ** 2 for x, y in zip(p, b[k])))
        one = unchanged(lambda x, y: lp.distance(x, y, **kw), p, b[k])
        tol = 1e-9 * (1 + d) + (0 if dec is None else 0.5 * 10.0**-dec * (1 + 1e-9))
        check(abs(one - d) <= tol, "distance %s != %s", one, d)
        if dec is not None:
            check(abs(one - round(one, dec)) < 1e-9 * (1 + d), "not rounded")
        want.append((d, tol))
        ctx.nontrivial(d > 0)
    check(np.shape(got) == (len(b),), "shape of the distances")
    for g, (d, tol) in zip(got, want):
        check(abs(g - d) <= tol, "distance %s != %s", g, d)
        if dec is not None:
            check(abs(g - round(float(g), dec)) < 1e-9 * (1 + d), "not rounded")
    expect_close(spatial.distances(b, first), spatial.distances(first, b), "not symmetric")


# -- interweave / chain / lookup table ---------------------------------------------------
@st.composite
def array_cases(draw):
    num = draw(st.integers(1, 4))
    rows = draw(st.integers(0, 5))
    cols = draw(st.sampled_from([None, 1, 2, 3]))
    count = num * rows * (cols or 1)
    return {"num": num, "rows": rows, "cols": cols,
            "vals": draw(st.lists(st.one_of(st.integers(-9, 9), gen.floats(-5, 5)),
                                  min_size=count, max_size=count)),
            "dtype": draw(st.sampled_from(["float64", "int64", "int8", "mixed"])),
            "items": draw(st.lists(st.one_of(st.integers(0, 5), st.sampled_from("xyz")),
                                   min_size=1, max_size=7)),
            "cycle": draw(st.sampled_from([None, True, False])),
            "table": draw(st.lists(st.sampled_from([0.0, 1.0, -1.0, 2.5, 1e-7, math.pi,
                                                    "inf", 1e9]), min_size=1,
                                   max_size=12)),
            "unique": draw(st.sampled_from([0, 0, 3, 200, 256])),
            "shape": draw(st.booleans())}


@PROP.sub(
    "arrays",
    array_cases,
    1500,
    "interweaved arrays, chains and lookup tables; non-trivial: at least two items",
)
def arrays(case, ctx):
    n, r, c = case["num"], case["rows"], case["cols"]
    shape = (r,) if c is None else (r, c)
    mixed = case["dtype"] == "mixed"
    dtype = "float64" if mixed else case["dtype"]
    vals = arr(case["vals"]).astype(dtype).reshape((n,) + shape)
    if mixed:
        # the first array contains integers
        vals[0] = np.round(vals[0])
    parts = [vals[i].copy() for i in range(n)]
    if mixed:
        parts[0] = parts[0].astype(np.int64)
    got = unchanged(lambda *a: lp.interweave(a), *parts)
    check(got.shape == (n * r,) + shape[1:], "shape")
    check(got.dtype == vals.dtype or mixed, "data type")
    for i in range(n):
        for k in range(r):
            check(np.array_equal(got[k * n + i], parts[i][k]), "order of the items")
    got[...] = 99
    check(all(np.array_equal(a, b) for a, b in zip(parts, vals)), "arrays are shared")
    # chain
    items = case["items"]
    ctx.nontrivial(len(items) > 1)
    copy = list(items)
    res = lp.chain(items) if case["cycle"] is None else lp.chain(items, case["cycle"])
    want = [[items[i], items[i + 1]] for i in range(len(items) - 1)]
    if case["cycle"]:
        want.append([items[-1], items[0]])
    check([list(x) for x in res] == want, "chain: %s", res)
    check(items == copy, "items changed")
    # lookup table
    table = np.array([np.inf if x == "inf" else x for x in case["table"]])
    if case["unique"]:
        table = np.concatenate([table[:0], np.arange(case["unique"])[::-1] * 0.5,
                                np.arange(case["unique"])[:3] * 0.5])
    if case["shape"]:
        table = np.stack([table, table[::-1]])
    values, indices = unchanged(utils.create_lookup_table, table)
    check(indices.shape == table.shape, "shape of the indices")
    check(np.all(np.diff(values) > 0), "values are not sorted and unique")
    check(set(values.tolist()) == set(table.ravel().tolist()), "values")
    check(np.array_equal(values[indices], table), "table does not restore the input")
    check(indices.dtype == np.uint8, "data type of the indices")
    _, indices = utils.create_lookup_table(table, dtype=np.int32)
    check(np.array_equal(values[indices], table) and indices.dtype == np.int32, "data type")


# -- index and vector grids --------------------------------------------------------------
@st.composite
def grid_cases(draw):
    dim = draw(st.sampled_from([1, 2, 2, 3, 4]))
    top = {1: 400, 2: 18, 3: 7, 4: 4}[dim]
    mag = draw(st.sampled_from([5, 5, 130, 40000, 2**31 + 10]))
    limits, start, num, step = [], [], [], []
    for _ in range(dim):
        lo = draw(st.integers(-mag, mag))
        limits.append([lo, lo + draw(st.integers(1, top))])
        start.append(draw(gen.grid(-5, 5, 0.25)))
        num.append(draw(st.integers(1, min(top, 12))))
        step.append(draw(st.sampled_from([1.0, 0.5, 0.25, 2.0, 0.1, 0.3])))
    return {"limits": limits, "axis": draw(st.sampled_from([None, "default", 0, dim - 1])),
            "dtype": draw(st.sampled_from([None, None, "int64", "float64"])),
            "start": start, "num": num, "step": step,
            "frac": draw(st.sampled_from([0.5, 0.25, 0.75])),
            "form": draw(st.sampled_from(["full", "full", "kw", "scalar", "stop", "ones"]))}


def rows_of(x):
    return [tuple(float(v) for v in r) for r in x]


@PROP.sub(
    "grids",
    grid_cases,
    1200,
    "grids of indices and vectors compared with the product of the ranges; non-trivial: "
    "more than one point",
)
def grids(case, ctx):
    limits = case["limits"]
    dim = len(limits)
    kw = {}
    if case["axis"] != "default":
        kw["sort_axis"] = case["axis"]
    axis = 0 if case["axis"] == "default" else case["axis"]
    extra = {} if case["dtype"] is None else {"dtype": case["dtype"]}
    got = unchanged(lambda x: lp.vindices(x, **kw, **extra), np.array(limits))
    want = list(itertools.product(*[range(a, b) for a, b in limits]))
    ctx.nontrivial(len(want) > 1)
    check(np.shape(got) == (len(want), dim), "shape of the indices")
    have = [tuple(int(v) for v in r) for r in got]
    check(len(set(have)) == len(have), "indices are not unique")
    check(set(have) == set(want), "indices of %s", limits)
    if axis is not None:
        check(np.all(np.diff(np.asarray(got)[:, axis].astype(float)) >= 0), "order")
    if case["dtype"]:
        check(got.dtype == np.dtype(case["dtype"]), "data type")
    same = lp.vindices([list(x) for x in limits], **kw, **extra)
    check(np.array_equal(same, got), "list of limits")
    # vectors
    start, num, step = arr(case["start"]), np.array(case["num"]), arr(case["step"])
    form = case["form"]
    if form == "scalar":
        step = np.full(dim, step[0])
    elif form in ("stop", "ones"):
        step = np.ones(dim)
    if form == "stop":
        start = np.zeros(dim)
    stop = start + (num - 1 + case["frac"]) * step
    whole = np.all(start == np.round(start)) and case["dtype"] is None
    if whole:
        # integer start values with any step
        start = start.astype(int)
        ctx.label("integer start")
    if form == "full":
        res = unchanged(lambda a, b, c: lp.vrange(a, b, c, **kw, **extra), start, stop, step)
    elif form == "kw":
        res = unchanged(lambda a, b, c: lp.vrange(a, b, step=c, **kw, **extra), start, stop,
                        step)
    elif form == "scalar":
        res = lp.vrange(start, stop, float(step[0]), **kw, **extra)
    elif form == "stop":
        res = unchanged(lambda b: lp.vrange(b, **kw, **extra), stop)
    else:
        res = unchanged(lambda a, b: lp.vrange(a, b, **kw, **extra), start, stop)
    axes = [a + np.arange(n) * s for a, n, s in zip(start, num, step)]
    want = np.array(list(itertools.product(*axes)))
    check(np.shape(res) == want.shape, "number of vectors: %s != %s", len(res), len(want))
    if case["dtype"] == "int64":
        return
    order = lambda x: x[np.lexsort(np.round(np.asarray(x, float), 6).T[::-1])]
    expect_close(order(res), order(want), "vectors")
    if axis is not None:
        check(np.all(np.diff(res[:, axis]) >= -1e-12), "order")


# -- search tree -------------------------------------------------------------------------
@st.composite
def tree_cases(draw):
    dim = draw(st.integers(1, 3))
    if draw(st.booleans()):
        coord = gen.grid(-3, 3, 1.0)
    else:
        coord = gen.grid(-3, 3, 0.125)
    point = st.lists(coord, min_size=dim, max_size=dim)
    pts = draw(st.lists(point, min_size=2, max_size=25, unique_by=tuple))
    if draw(st.integers(0, 19)) == 7:
        # number of points around the limits of the integer types, a gap at the end
        num = draw(st.sampled_from([127, 128, 255, 256, 257]))
        pts = [[float(i)] + [0.0] * (dim - 1) for i in range(num - 1)]
        pts.append([num + 3.0] + [0.0] * (dim - 1))
    return {"points": pts, "k": draw(st.integers(1, 12)),
            "max_dist": draw(st.sampled_from([None, None, 0.77, 1.13, 2.31, 4.57])),
            "p": draw(st.sampled_from([2, 2, 2, 1, "inf"])),
            "x": draw(st.one_of(st.none(), st.lists(point, min_size=1, max_size=6))),
            "shift": draw(st.booleans()),
            "zero": draw(st.sampled_from([None, True, False])),
            "compact": draw(st.sampled_from([None, True, False])),
            "decimals": draw(st.sampled_from([None, 3, 6])),
            "jobs": draw(st.sampled_from([1, 1, 1, -1]))}


@PROP.sub(
    "tree",
    tree_cases,
    1500,
    "queries of the search tree compared with all distances; non-trivial: a neighbor was "
    "found",
)
def tree(case, ctx):
    pts = arr(case["points"])
    n = len(pts)
    p = np.inf if case["p"] == "inf" else case["p"]
    cut = np.inf if case["max_dist"] is None else case["max_dist"]
    kw = {} if case["p"] == 2 else {"p": p}
    if case["max_dist"] is not None:
        kw["max_dist"] = cut
    tr = spatial.KDTree(pts.copy(), k=case["k"], **kw)
    x = pts if case["x"] is None else arr(case["x"])
    if case["x"] is not None and case["shift"]:
        x = x + 0.0321
    q = {"num_jobs": case["jobs"], "decimals": case["decimals"]}
    if case["zero"] is not None:
        q["include_zero"] = case["zero"]
    if case["compact"] is not None:
        q["compact"] = case["compact"]
    if case["x"] is None:
        neighbors, dists = tr.query(**q)
    else:
        neighbors, dists = unchanged(lambda a: tr.query(a, **q), x)
    neighbors, dists = np.asarray(neighbors).astype(int), np.asarray(dists)
    check(neighbors.shape == dists.shape and len(dists) == len(x), "shape")
    diff = np.abs(x[:, None] - pts[None])
    full = diff.max(-1) if p == np.inf else (diff**p).sum(-1) ** (1.0 / p)
    k = case["k"]
    # the points themselves are removed if every query point is one of the points
    same = full.min(axis=1) < 1e-12
    drop = not case["zero"] and bool(np.all(same))
    for i in range(len(x)):
        valid = neighbors[i] < n
        check(np.array_equal(valid, np.isfinite(dists[i])), "invalid entries")
        ids, ds = neighbors[i][valid], dists[i][valid]
        check(len(set(ids.tolist())) == len(ids), "neighbor is listed twice")
        check(np.all(np.diff(ds) >= 0), "neighbors are not sorted by distance")
        tol = 1e-9 + (0 if case["decimals"] is None else 0.5 * 10.0 ** -case["decimals"])
        check(np.all(np.abs(full[i][ids] - ds) <= tol), "distances")
        order = np.sort(full[i][full[i] < cut - 1e-9])
        want = order[:k]
        if drop:
            want = want[1:]
            check(not np.any(full[i][ids] < 1e-12), "point is its own neighbor")
        check(len(ds) == len(want), "number of neighbors: %s != %s", len(ds), len(want))
        check(np.all(np.abs(np.sort(full[i][ids]) - want) <= 1e-9), "nearest neighbors")
        ctx.nontrivial(len(want) > 0)
    if case["compact"] in (None, True) and dists.shape[1]:
        check(np.all(np.any(np.isfinite(dists), axis=0)), "empty columns")
    # balls and pairs
    r = 1.37 if cut == np.inf else cut
    if np.abs(full - r).min() > 1e-9:
        res = tr.query_ball_point(x, r)
        for i in range(len(x)):
            check(sorted(res[i]) == np.where(full[i] < r)[0].tolist(), "ball")
        other = spatial.KDTree(x.copy(), p=p)
        res = other.query_ball_tree(tr, r)
        for i in range(len(x)):
            check(sorted(res[i]) == np.where(full[i] < r)[0].tolist(), "ball of trees")
    diff = np.abs(pts[:, None] - pts[None])
    inner = diff.max(-1) if p == np.inf else (diff**p).sum(-1) ** (1.0 / p)
    if np.abs(inner - r).min() > 1e-9:
        want = {(i, j) for i in range(n) for j in range(i + 1, n) if inner[i, j] < r}
        check({tuple(sorted(map(int, t))) for t in tr.query_pairs(r)} == want, "pairs")


# -- rotations ---------------------------------------------------------------------------
@st.composite
def rotation_cases(draw):
    angle = st.one_of(gen.grid(-6.5, 6.5, 0.25), st.sampled_from([0.0, math.pi / 2, math.pi]))
    dim = draw(st.sampled_from([2, 3]))
    return {"t": [draw(angle) for _ in range(3)],
            "points": draw(st.lists(gen.points(3), min_size=1, max_size=4)),
            "degree": draw(st.sampled_from([None, True, False])),
            "single": draw(st.booleans()), "dim": dim}


def axis_rotation(axis, t):
    """Rotation matrix from Rodrigues' formula"""
    k = np.zeros(3)
    k[axis] = 1
    m = np.array([[0, -k[2], k[1]], [k[2], 0, -k[0]], [-k[1], k[0], 0]])
    return np.eye(3) + math.sin(t) * m + (1 - math.cos(t)) * m @ m


@PROP.sub(
    "rotations",
    rotation_cases,
    1500,
    "rotation matrices and rotated points; non-trivial: non-zero angle",
)
def rotations(case, ctx):
    t = case["t"]
    ctx.nontrivial(any(t))
    for axis, func in enumerate([spatial.rx, spatial.ry, spatial.rz]):
        m = func(t[axis])
        expect_close(m, axis_rotation(axis, t[axis]), "rotation about axis %d" % axis)
        expect_close(m @ m.T, np.eye(3), "not orthogonal")
        expect_close(np.linalg.det(m), 1.0, "not proper")
        expect_close(m @ func(0.7), func(t[axis] + 0.7), "composition")
    want = axis_rotation(2, t[2]) @ axis_rotation(1, t[1]) @ axis_rotation(0, t[0])
    expect_close(spatial.rot(*t), want, "general rotation")
    expect_close(spatial.rot(thetay=t[1]), axis_rotation(1, t[1]), "rotation about y")
    # points
    pts = arr(case["points"])[:, : case["dim"]]
    if case["single"]:
        pts = pts[0]
    kw = {} if case["degree"] is None else {"degree": case["degree"]}
    scale = 1.0 if case["degree"] is False else 180 / math.pi
    if case["dim"] == 2:
        got = unchanged(lambda a: spatial.rotate2d(a, t[0] * scale, **kw), pts)
        expect_close(got, pts @ axis_rotation(2, t[0])[:2, :2], "rotated point")
        back = spatial.rotate2d(got, -t[0] * scale, **kw)
    else:
        a, b, c = [x * scale for x in t]
        got = unchanged(lambda x: spatial.rotate3d(x, a, b, c, **kw), pts)
        expect_close(got, pts @ want, "rotated point")
        one = spatial.rotate3d(pts, thetaz=c, **kw)
        expect_close(one, pts @ axis_rotation(2, t[2]), "rotated about z")
        back = spatial.rotate3d(got, thetax=-a, **kw)
        back = spatial.rotate3d(back, thetay=-b, **kw)
        back = spatial.rotate3d(back, thetaz=-c, **kw)
    expect_close(back, pts, "rotated back")
    expect_close(np.linalg.norm(got, axis=-1), np.linalg.norm(pts, axis=-1), "length")


# -- integer types -----------------------------------------------------------------------
EDGES = [2**k + d for k in (7, 8, 15, 16, 31, 32) for d in (-2, -1, 0, 1)]


@st.composite
def dtype_cases(draw):
    value = st.one_of(st.integers(0, 300), st.sampled_from(EDGES), st.integers(0, 2**40))
    vals = draw(st.lists(st.tuples(value, st.booleans()), min_size=1, max_size=4))
    sign = draw(st.booleans())
    return {"vals": [-v if neg and sign else v for v, neg in vals],
            "form": draw(st.sampled_from(["list", "array", "small", "scalar"])),
            "signed": draw(st.sampled_from([None, True, False]))}


@PROP.sub(
    "dtypes",
    dtype_cases,
    1200,
    "minimal integer types of values around the limits of the types; non-trivial: always",
)
def dtypes(case, ctx):
    vals = case["vals"]
    ctx.nontrivial()
    form = case["form"]
    arg = list(vals)
    if form == "array":
        arg = np.array(vals)
    elif form == "small":
        lo, hi = min(vals), max(vals)
        arg = np.array(vals, dtype=np.min_scalar_type(hi if lo >= 0 else min(lo, -hi - 1)))
        ctx.label(str(arg.dtype))
    elif form == "scalar":
        vals = vals[:1]
        arg = vals[0]
    kw = {} if case["signed"] is None else {"signed": case["signed"]}
    got = lp.min_dtype(arg, **kw)
    check(isinstance(got, np.dtype) and got.kind in "iu", "type %s", got)
    info = np.iinfo(got)
    check(info.min <= min(vals) and max(vals) <= info.max, "%s doesn't hold %s", got, vals)
    signed = case["signed"] is not False
    if signed or min(vals) < 0:
        check(got.kind == "i", "not signed")
    else:
        check(got.kind == "u", "signed type for unsigned values")
    # no smaller type of the kind
    top = max(abs(v) for v in vals)
    smaller = [np.iinfo("%s%d" % (got.kind, b)) for b in (1, 2, 4) if b < got.itemsize]
    for s in smaller:
        if signed:
            check(top > s.max, "%s is not the minimal type of %s", got, vals)
        else:
            check(min(vals) < s.min or max(vals) > s.max, "%s is not minimal", got)


# -- formatting --------------------------------------------------------------------------
PREFIX = ["", "k", "M", "G", "T", "P", "E", "Z", "Y"]


@st.composite
def format_cases(draw):
    mant = draw(gen.floats(-1500, 1500))
    return {"num": mant * 10.0 ** draw(st.integers(-3, 15)),
            "dec": draw(st.sampled_from([None, 0, 1, 3])),
            "unit": draw(st.sampled_from(["", "m", "Hz"])),
            "div": draw(st.sampled_from([None, 1000.0, 1024])),
            "seconds": draw(st.one_of(gen.floats(0.0, 200.0), gen.floats(0.0, 4e5),
                                      gen.floats(0, 1e-3), gen.floats(0, 1.0),
                                      st.sampled_from([0.0, 1e-3, 1.0, 59.94, 60.0, 3600.0,
                                                       3661.0, 86399.0, 3659.6]))),
            "width": draw(st.sampled_from([0, 0, 6, 15]))}


@PROP.sub(
    "format",
    format_cases,
    1500,
    "formatted numbers and times are parsed and compared with the value; non-trivial: "
    "number needs a prefix or time is longer than a minute",
)
def formatting(case, ctx):
    num, unit = case["num"], case["unit"]
    dec = 1 if case["dec"] is None else case["dec"]
    div = case["div"] or 1000.0
    kw = {}
    if case["dec"] is not None:
        kw["dec"] = case["dec"]
    if case["div"]:
        kw["div"] = case["div"]
    text = lp.frmt_num(num, unit=unit, **kw)

    def number(text, unit, div):
        check(text.endswith(unit), "unit of %r", text)
        body = text[: len(text) - len(unit)]
        exp = PREFIX.index(body[-1]) if body[-1] in PREFIX[1:] else 0
        body = body[:-1] if exp else body
        digits = body.split(".")[1] if "." in body else ""
        return float(body), div**exp, exp, len(digits)

    val, factor, exp, digits = number(text, unit, div)
    check(digits == dec, "decimals of %r", text)
    check(abs(val * factor - num) <= 0.5001 * 10.0**-dec * factor, "%r is not %s", text, num)
    check(abs(num) / factor < div * (1 + 1e-12), "prefix of %r", text)
    check(exp == 0 or abs(num) / factor >= 1 - 1e-12, "prefix of %r", text)
    val, factor, _, _ = number(lp.frmt_bytes(num), "iB", 1024)
    check(abs(val * factor - num) <= 0.05001 * factor, "bytes of %s", num)
    # times
    s, width = case["seconds"], case["width"]
    ctx.nontrivial(exp > 0 or s > 60)
    text = lp.frmt_time(s)
    if text.endswith("μs"):
        val, tol = float(text[:-2]) * 1e-6, 0.5e-6
        check(s < 1e-3, "unit of %r", text)
    elif text.endswith("ms"):
        val, tol = float(text[:-2]) * 1e-3, 0.05e-3
        check(s < 1, "unit of %r", text)
    elif text.endswith("min"):
        m, x = text[:-3].split(":")
        val, tol = int(m) * 60 + float(x), 0.05
        check(60 <= s < 3600, "unit of %r", text)
    elif text.endswith("h"):
        h, m, x = text[:-1].split(":")
        val, tol = int(h) * 3600 + int(m) * 60 + float(x), 0.5
        check(s >= 3600, "unit of %r", text)
    else:
        check(text.endswith("s"), "unit of %r", text)
        val, tol = float(text[:-1]), 0.05
        check(s < 60, "unit of %r", text)
    check(abs(val - s) <= tol * 1.0001 + 1e-9 * s, "%r is not %s s", text, s)
    short = lp.frmt_time(s, short=True)
    if short.endswith("h"):
        h, m = short[:-1].split(":")
        check(abs(int(h) * 3600 + int(m) * 60 - s) <= 60.001, "%r is not %s s", short, s)
    else:
        m, x = short.split(":")
        check(abs(int(m) * 60 + int(x) - s) <= 0.5001, "%r is not %s s", short, s)
    for flag in (True, False):
        base = lp.frmt_time(s, short=flag)
        wide = lp.frmt_time(s, short=flag, width=width)
        check(wide.strip() == base and len(wide) == max(width, len(base)), "width")
