"""C19: dispersion paths"""

import math

import numpy as np
from hypothesis import strategies as st

from lattpy import disptools
from vlib import gen
from vlib.core import Property, check
from vlib.ref import arr, expect_close

PROP = Property(
    "C19",
    ["points have at least the dimension of the path",
     "ticks are positions in the last built path: multiples of the section size",
     "scales are relative to the first section, which has a finite length"],
)

COORD = st.one_of(gen.grid(-4, 4, 0.5), gen.floats(-20, 20), st.integers(-3, 3))


@st.composite
def histories(draw):
    dim = draw(st.integers(0, 4))
    base = draw(st.integers(1, 4)) if dim == 0 else dim
    a = st.sampled_from([None, 1.0, 2.0, 0.5, 1.42, 3, math.pi])
    point = st.lists(COORD, min_size=base, max_size=base + (2 if dim else 0))
    ops = []
    start = draw(st.sampled_from(["new", "new", "new", "chain", "square", "cubic"]))
    names = st.sampled_from(["", "", "G", "X", "$K$", "M", "0"])
    kinds = ["add", "add", "add", "addn", "cycle", "build", "build", "ticks", "edges"]
    presets = (dim or 9) <= 3 and start == "new"
    if presets:
        kinds += ["gamma", "x", "m", "r"]
    for _ in range(draw(st.integers(1, 8))):
        kind = draw(st.sampled_from(kinds))
        if kind == "add":
            ops.append([kind, draw(point), draw(names), draw(st.booleans())])
        elif kind == "addn":
            num = draw(st.integers(0, 3))
            pts = [draw(st.lists(COORD, min_size=base, max_size=base)) for _ in range(num)]
            ops.append([kind, pts,
                        draw(st.one_of(st.none(), st.lists(names, min_size=num,
                                                           max_size=num))),
                        draw(st.booleans())])
        elif kind in ("x", "m", "r"):
            ops.append([kind, draw(a)])
        elif kind == "build":
            ops.append([kind, draw(st.sampled_from([None, 2, 3, 5, 10, 37, 1]))])
        else:
            ops.append([kind])
    return {"dim": dim, "start": start, "a": draw(a), "ops": ops}


class Model:
    def __init__(self, dim):
        self.dim = dim
        self.points = []
        self.labels = []
        self.n = 0

    def add(self, point, name=""):
        point = [float(x) for x in point]
        self.dim = self.dim or len(point)
        self.labels.append(name or str(len(self.points)))
        self.points.append(point[: self.dim])

    def preset(self, kind, a):
        a = 1.0 if a is None else a
        p = math.pi / a
        table = {"gamma": ([0, 0, 0], r"$\Gamma$"), "x": ([p, 0, 0], "$X$"),
                 "m": ([p, p, 0], "$M$"), "r": ([p, p, p], "$R$")}
        self.add(*table[kind])

    def cycle(self):
        self.points.append(list(self.points[0]))
        self.labels.append(self.labels[0])


START = {"chain": (1, ["x", "gamma"], True), "square": (2, ["gamma", "x", "m"], True),
         "cubic": (3, ["gamma", "x", "m", "gamma", "r"], False)}


def compare(path, model):
    check(path.num_points == len(model.points), "number of points: %s != %s",
          path.num_points, len(model.points))
    check(list(path.labels) == model.labels, "labels %s != %s", path.labels, model.labels)
    check(path.dim == model.dim, "dimension: %s != %s", path.dim, model.dim)
    check(len(path.points) == len(model.points), "number of stored points")
    for p, q in zip(path.points, model.points):
        expect_close(p, q, "point", 1e-12)


def compare_build(path, model, n, built):
    n = 1000 if n is None else n
    sects = len(model.points) - 1
    check(built.shape == (max(0, sects) * n, model.dim), "shape of the path: %s",
          built.shape)
    for s in range(sects):
        p0, p1 = arr(model.points[s]), arr(model.points[s + 1])
        part = built[s * n: (s + 1) * n]
        t = np.arange(n)[:, None] / max(1, n - 1)
        expect_close(part, p0 + t * (p1 - p0), "section %d" % s, 1e-12)


def compare_ticks(path, model, built=None):
    ticks, labels = path.get_ticks()
    check(list(labels) == model.labels, "tick labels: %s != %s", labels, model.labels)
    check(np.array_equal(np.asarray(ticks), np.arange(len(model.points)) * model.n),
          "ticks: %s", ticks)
    if built is not None and model.n > 1:
        for t, p in zip(list(ticks)[:-1], model.points[:-1]):
            expect_close(built[int(t)], arr(p), "tick marks its point", 1e-12)


def compare_edges(path, model):
    pairs = list(zip(model.points[:-1], model.points[1:]))
    edges = path.edges()
    check(len(edges) == len(pairs), "number of edges: %s", len(edges))
    for (a, b), (p, q) in zip(edges, pairs):
        expect_close(a, p, "start of the edge", 1e-12)
        expect_close(b, q, "end of the edge", 1e-12)
    dists = [math.dist(p, q) for p, q in pairs]
    expect_close(path.distances(), np.array(dists), "distances", 1e-12)
    if dists and dists[0] > 1e-6:
        expect_close(path.scales(), np.array(dists) / dists[0], "scales", 1e-9)


@PROP.sub(
    "history",
    histories,
    5000,
    "histories of a path compared with a model of its points: presets, builds, ticks, "
    "edges; non-trivial: a section of finite length was built",
    corpus=[{"dim": 0, "start": k, "a": a, "ops": [["build", 10], ["edges"], ["build", None]]}
            for k in START for a in (None, 2.5)],
)
def history(case, ctx):
    other = disptools.DispersionPath(2).add([1, 2], "other")
    if case["start"] == "new":
        path = disptools.DispersionPath(case["dim"])
        model = Model(case["dim"])
        dim_arg = case["dim"]
        if dim_arg == 0:
            path = disptools.DispersionPath()
    else:
        args = () if case["a"] is None else (case["a"],)
        path = getattr(disptools.DispersionPath, case["start"] + "_path")(*args)
        dim, pts, cyc = START[case["start"]]
        model = Model(dim)
        for p in pts:
            model.preset(p, case["a"])
        if cyc:
            model.cycle()
        compare(path, model)
        ctx.label("preset path")
    for op in case["ops"]:
        kind = op[0]
        if kind == "add":
            if len(op[1]) < model.dim:
                continue
            point = np.array(op[1], dtype=float) if op[3] else op[1]
            res = path.add(point, op[2]) if op[2] else path.add(point)
            model.add(op[1], op[2])
            if op[3]:
                check(np.array_equal(point, np.array(op[1], dtype=float)), "argument")
                point += 100.0
            check(res is path, "add returns the path")
        elif kind == "addn":
            if any(len(p) < model.dim for p in op[1]):
                continue
            pts = np.array(op[1], dtype=float) if op[3] and op[1] else op[1]
            res = path.add_points(pts) if op[2] is None else path.add_points(pts, op[2])
            for k, p in enumerate(op[1]):
                model.add(p, "" if op[2] is None else op[2][k])
            if isinstance(pts, np.ndarray):
                pts += 100.0
            check(res is path, "add_points returns the path")
        elif kind == "cycle":
            if not model.points:
                continue
            check(path.cycle() is path, "cycle returns the path")
            model.cycle()
        elif kind == "gamma":
            if model.dim == 0 or model.dim <= 3:
                check(path.gamma() is path, "gamma returns the path")
                model.preset(kind, None)
        elif kind in ("x", "m", "r"):
            args = () if op[1] is None else (op[1],)
            check(getattr(path, kind)(*args) is path, "%s returns the path", kind)
            model.preset(kind, op[1])
            ctx.label("preset point")
        elif kind == "build":
            if model.dim == 0:
                continue
            built = path.build() if op[1] is None else path.build(n_sect=op[1])
            model.n = 1000 if op[1] is None else op[1]
            compare(path, model)
            compare_build(path, model, op[1], built)
            compare_ticks(path, model, built)
            check(path.n_sect == model.n, "section size")
            again = path.build(model.n)
            check(np.array_equal(again, built), "building again gives the same path")
            built[...] = 77.0  # the result is independent of the path
            if any(p != q for p, q in zip(model.points, model.points[1:])):
                ctx.nontrivial()
                ctx.label("built %s points" % min(6, len(model.points)))
        elif kind == "ticks":
            compare_ticks(path, model)
        elif kind == "edges":
            if len(model.points) > 1:
                compare_edges(path, model)
        compare(path, model)
    compare_ticks(path, model)
    if len(model.points) > 1:
        compare_edges(path, model)
    compare(path, model)
    check(other.num_points == 1 and list(other.labels) == ["other"] and
          np.array_equal(other.points[0], [1, 2]), "another path was changed")
