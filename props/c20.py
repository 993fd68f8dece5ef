"""C20: plots draw what they are given"""

import itertools
import math
import warnings

import matplotlib

matplotlib.use("Agg")

import matplotlib.pyplot as plt
import numpy as np
from hypothesis import strategies as st
from matplotlib.contour import QuadContourSet
from matplotlib.patches import Circle as CirclePatch
from matplotlib.patches import Polygon
from mpl_toolkits.mplot3d.art3d import Poly3DCollection
from scipy.spatial import ConvexHull

import lattpy as lp
from lattpy import disptools, plotting
from vlib import artists, gen
from vlib.core import Discard, Property, check
from vlib.ref import Ref, arr, expect_close, make_structure
from vlib.torus import Cells, axes, axes_arg, cells, periodic_table, regular_table

PROP = Property(
    "C20",
    ["built lattices of at most 60 sites; the drawn data is judged, not the rendered image",
     "shapes are plotted in two and three dimensions (circles and donuts only in two)",
     "in unit cell plots a connection between two atoms of the cell may be drawn from both "
     "atoms",
     "periodic axes are at least twice as long as the longest connection"],
)

COLORS = [None, None, "r", "#00ff00", "0.3", "C7"]


def new_axes(dim):
    fig = plt.figure()
    return fig.add_subplot(111, projection="3d" if dim == 3 else None)


def fingerprint(latt):
    """State of a lattice that must not be changed by a plot"""
    out = {"vectors": latt.vectors.tolist(),
           "atoms": [(dict(a.dict()), a.weight) for a in latt.atoms],
           "pos": [np.asarray(p).tolist() for p in latt.atom_positions],
           "cons": np.asarray(getattr(latt, "_connections", 0)).tolist()}
    if latt.base_neighbors is not None:
        out["base"] = [{k: np.asarray(v).tolist() for k, v in d.items()}
                       for d in latt.base_neighbors]
        out["dist"] = np.asarray(latt.distances).tolist()
    if hasattr(latt, "data"):
        out["axes"] = np.asarray(latt.periodic_axes).tolist()
        out["shape"] = None if latt.shape is None else repr(latt.shape)
        data = latt.data
        for name in ("indices", "positions", "neighbors", "distances", "distvals", "pnvecs"):
            val = getattr(data, name)
            out[name] = np.array(val, copy=True).tobytes() if val is not None else None
        if latt.num_sites:
            out["neighbors of sites"] = [
                (data.get_neighbors(i, periodic=False).tolist(),
                 data.get_neighbors(i, periodic=True).tolist())
                for i in range(latt.num_sites)]
    return out


@st.composite
def options(draw, dim, num_base):
    out = {}
    if draw(st.booleans()):
        out["lw"] = draw(st.sampled_from([0.5, 1.0, 3]))
    if draw(st.booleans()):
        out["margins"] = draw(st.sampled_from([0.1, 0.25, 0, 1, [0.2] * dim,
                                               [0.05, 0.3, 0.1][:dim]]))
    if draw(st.booleans()):
        out["legend"] = draw(st.booleans())
    if draw(st.booleans()):
        out["grid"] = draw(st.booleans())
    if draw(st.booleans()):
        pairs = [[i, j] for i in range(num_base) for j in range(i, num_base)]
        if pairs:
            chosen = draw(st.lists(st.sampled_from(pairs), unique_by=tuple, max_size=3))
            flips = [draw(st.booleans()) for _ in chosen]
            out["con_colors"] = [
                [*(p[::-1] if f else p), draw(st.sampled_from(["r", "g", "b", "C4"]))]
                for p, f in zip(chosen, flips)]
    if draw(st.booleans()):
        out["adjustable"] = draw(st.sampled_from(["box", "datalim"]))
    return out


def style(draw, num):
    return [[draw(st.sampled_from(COLORS)), draw(st.sampled_from([0.2, 0.2, 0.1, 0.35]))]
            for _ in range(num)]


def apply_style(latt, styles):
    for atom, (color, radius) in zip(latt.atoms, styles):
        atom.color = color
        atom.radius = radius


def call(func, opts, dim, given, keep):
    """Calls the plot function on new or on given axes, returns the axes"""
    kwargs = dict(opts)
    if "con_colors" in kwargs:
        kwargs["con_colors"] = [tuple(c) for c in kwargs["con_colors"]]
    if given:
        ax = new_axes(dim)
        before = plt.get_fignums()
        res = func(ax=ax, **kwargs)
        check(res is ax, "the given axes are returned")
        check(plt.get_fignums() == before, "a new figure was created")
    else:
        before = plt.get_fignums()
        res = func(**kwargs)
        check(len(plt.get_fignums()) == len(before) + 1, "one new figure is created")
    check((res.name == "3d") == (dim == 3), "projection of the axes")
    if keep:
        res.get_figure().canvas.draw()
    return res


def check_format(ax, opts, dim, names):
    m = opts.get("margins", 0.1)
    m = list(m) if isinstance(m, list) else [m] * dim
    if dim == 1:
        m = m * 2
    check(np.allclose(ax.margins(), m), "margins: %s != %s", ax.margins(), m)
    legend = opts.get("legend", len(names) > 1)
    if names:
        got = ax.get_legend()
        check((got is not None) == bool(legend), "legend is shown: %s", got is not None)
        if got is not None:
            labels = sorted(t.get_text() for t in got.get_texts())
            check(labels == sorted(names), "legend: %s", labels)
    if dim < 3:
        for axis in (ax.xaxis, ax.yaxis):
            grid = any(g.get_visible() for g in axis.get_gridlines())
            check(grid == bool(opts.get("grid", False)), "grid is shown: %s", grid)


def connection_color(opts, a, b):
    for i, j, col in opts.get("con_colors", ())[::-1]:
        if sorted([i, j]) == sorted([a, b]):
            return artists.rgb(col)
    return artists.rgb("k")


def atom_color(latt, a):
    return artists.rgb(latt.atoms[a].color or f"C{a}")


def compare_sites(ax, want, what, tol):
    """want: list of (position, color, radius)"""
    got = artists.sites(ax)
    artists.match([(g[0], (*g[1], g[2] or -1)) for g in got],
                  [(p, (*c, r if got[0][2] is not None else -1)) for p, c, r in want]
                  if got else [(p, None) for p, _, _ in want], what, tol)


# -- finite lattices -------------------------------------------------------------------
@st.composite
def finite_cases(draw):
    case = draw(cells(max_dist=2, max_atoms=2))
    dim = len(case["latt"]["vectors"])
    num = len(case["latt"]["atoms"])
    case["axes"] = draw(st.one_of(st.none(), axes(dim)))
    case["style"] = style(draw, num)
    opts = draw(options(dim, num))
    if draw(st.booleans()):
        opts["show_periodic"] = draw(st.booleans())
    if draw(st.booleans()):
        opts["pscale"] = draw(st.sampled_from([0.5, 0.3, 1.0]))
    if draw(st.booleans()):
        opts["show_indices"] = draw(st.booleans())
        if draw(st.booleans()):
            opts["index_offset"] = draw(st.sampled_from([0.1, 0.0, 0.3]))
    case["opts"] = opts
    case["given"] = draw(st.booleans())
    case["draw"] = draw(st.integers(0, 7)) == 0
    case["remove"] = draw(st.one_of(st.none(), st.integers(0, 1000)))
    # a plot of a slab: only some of the atoms
    case["only"] = draw(st.sampled_from([None, None, None, 0, 1]))
    return case


@PROP.sub(
    "finite",
    finite_cases,
    640,
    "plots of finite lattices with any options compared with the sites, connections and "
    "periodic images of the model; non-trivial: at least one connection is drawn",
)
def finite(case, ctx):
    geo = Cells(dict(case, fill_sites=0), max_sites=60)
    if max(abs(s) for s in geo.start) > 1000:
        raise Discard("rounding of drawn positions")
    dim, ref, opts = geo.dim, geo.ref, case["opts"]
    latt = geo.build(lp)
    apply_style(latt, case["style"])
    axs = []
    if case["axes"] is not None:
        axs = case["axes"]["axes"]
        if not all(geo.large(ax) for ax in axs):
            raise Discard("small axis")
        if geo.prim:
            latt.set_periodic(axes_arg(case["axes"], dim), primitive=True)
        else:
            latt.set_periodic(axes_arg(case["axes"], dim))
        if case["axes"]["form"] == "bool" and len(axs) == dim:
            axs = list(range(dim))
    if case["only"] is not None and case["only"] < ref.num and ref.num > 1:
        alphas = np.asarray(latt.indices)[:, -1]
        latt.data.remove(np.nonzero(alphas == case["only"])[0])
        ctx.label("atom without sites")
    elif case["remove"] is not None and latt.num_sites > 2:
        latt.data.remove(case["remove"] % latt.num_sites)
    pos = np.asarray(latt.positions, float)
    alphas = np.asarray(latt.indices)[:, -1].astype(int)
    regular = regular_table(ref, latt.indices, pos)
    per = periodic_table(ref, latt.indices, pos, geo.images(axs), regular)
    before = fingerprint(latt)
    try:
        with artists.no_layout(not case["draw"]):
            ax = call(latt.plot, opts, dim, case["given"], case["draw"])
        tol = 1e-7 * (1 + np.max(np.abs(pos)))
        points = artists.pad(pos, dim)
        want = [(points[i], atom_color(latt, a), case["style"][a][1])
                for i, a in enumerate(alphas)]
        compare_sites(ax, want, "site", tol)
        lines = []
        for i, row in enumerate(regular):
            for j in row:
                if i < j:
                    lines.append(([points[i], points[j]],
                                  connection_color(opts, alphas[i], alphas[j])))
        num = len(lines)
        if opts.get("show_periodic", True):
            scale = opts.get("pscale", 0.5)
            for i, row in enumerate(per):
                for j, (_, nvec) in row.items():
                    q = artists.pad(pos[j] + np.array(nvec) @ ref.vecs, dim)[0]
                    lines.append(([points[i], points[i] + scale * (q - points[i])],
                                  artists.rgb("0.5")))
        elif any(per):
            ctx.label("periodic hidden")
        ctx.label("%dD" % dim)
        if len(lines) > num:
            ctx.label("periodic shown")
        artists.match(artists.segments(ax) + artists.lines(ax), lines, "connection", tol)
        ctx.nontrivial(num > 0)
        want = []
        if opts.get("show_indices"):
            off = opts.get("index_offset", 0.1)
            want = [(str(i), p + off) for i, p in enumerate(points)]
            ctx.label("indices")
        got = artists.texts(ax)
        check(sorted(t for t, _ in got) == sorted(t for t, _ in want), "index labels: %s",
              [t for t, _ in got])
        for t, p in want:
            q = next(q for s, q in got if s == t)
            check(np.max(np.abs(p - q)) <= tol, "label of site %s at %s", t, q.tolist())
        check_format(ax, opts, dim, [a.name for a in latt.atoms])
    finally:
        plt.close("all")
    check(fingerprint(latt) == before, "the lattice was changed by the plot")


# -- unit cell ---------------------------------------------------------------------------
@st.composite
def cell_cases(draw):
    spec = draw(gen.lattices(max_dim=4, max_dist=3))
    dim, num = len(spec["vectors"]), len(spec["atoms"])
    opts = draw(options(min(3, dim), num))
    for name in ("show_cell", "show_vecs", "show_neighbors"):
        if draw(st.booleans()):
            opts[name] = draw(st.booleans())
    if draw(st.booleans()):
        opts["alpha"] = draw(st.sampled_from([0.2, 1.0]))
    basis = {k: v for k, v in opts.items()
             if k in ("margins", "grid", "show_cell", "show_vecs", "adjustable")}
    return {"latt": spec, "opts": opts, "basis": basis, "style": style(draw, num),
            "given": draw(st.booleans()), "draw": draw(st.integers(0, 7)) == 0,
            "built": draw(st.booleans())}


def check_basis(ax, opts, vecs, tol, extra):
    """Arrows and outlines of the unit cell; `extra` are other line segments"""
    dim = len(vecs)
    show, outlines = opts.get("show_vecs", True), opts.get("show_cell", True)
    vecs = artists.pad(vecs, dim)
    origin = np.zeros(len(vecs[0]))
    shafts = [([origin, v], None) for v in vecs] if show else []
    got = artists.segments(ax)
    if dim < 3:
        arr_ = [(np.array([p, p + v]), None) for p, v in artists.arrows(ax)]
        artists.match(arr_, shafts, "basis vector", tol, directed=True)
        artists.match(artists.unique(got), artists.unique(extra), "connection", tol)
    elif show:
        # the heads of the arrows are part of the lines
        artists.match(got, shafts, "basis vector", tol, exact=False)
        artists.match(got, artists.unique(extra), "connection", tol, exact=False)
    else:
        artists.match(artists.unique(got), artists.unique(extra), "connection", tol)
    edges = []
    for i in range(dim):
        rest = [vecs[k] for k in range(dim) if k != i]
        for c in itertools.product([0, 1], repeat=dim - 1):
            if any(c):
                p = sum((x * v for x, v in zip(c, rest)), origin)
                edges.append(([p, p + vecs[i]], artists.rgb("k")))
    got = artists.unique(artists.lines(ax))
    if not outlines:
        edges = []
    elif not show:
        return
    artists.match(got, edges, "edge of the unit cell", tol)


@PROP.sub(
    "cell",
    cell_cases,
    500,
    "plots of the unit cell and the basis compared with the neighbors of the infinite "
    "lattice, rejected in 4D; non-trivial: neighbors are drawn",
)
def cell(case, ctx):
    ref = Ref(case["latt"])
    dim, opts = ref.dim, case["opts"]
    _, table = ref.neighbor_table()
    if max(len(t) for t in table) > 60:
        raise Discard("too many neighbors")
    latt = make_structure(lp, case["latt"])
    apply_style(latt, case["style"])
    if case["built"] and dim < 4:
        latt.build((1.0,) * dim, primitive=True)
    before = fingerprint(latt)
    try:
        if dim > 3:
            ctx.label("4D")
            for func in (latt.plot_cell, latt.plot_basis, latt.plot):
                num = len(plt.get_fignums())
                try:
                    func()
                except ValueError:
                    check(len(plt.get_fignums()) == num, "figure of a rejected plot")
                else:
                    check(False, "4D lattices can't be plotted")
            return
        tol = 1e-7 * (1 + np.max(np.abs(ref.vecs)) * 4 + np.max(np.abs(ref.pos)))
        with artists.no_layout(not case["draw"]):
            ax = call(latt.plot_cell, opts, dim, case["given"], case["draw"])
        lines, outer = [], {}
        show = opts.get("show_neighbors", True)
        points = artists.pad(ref.pos, dim)
        for a in range(ref.num):
            for idx, _ in table[a]:
                q = artists.pad(ref.position(np.array(idx)), dim)[0]
                lines.append(([points[a], q], connection_color(opts, a, idx[-1])))
                if any(idx[:-1]):
                    outer[idx] = (q, atom_color(latt, idx[-1]),
                                  0.6 * case["style"][idx[-1]][1])
        want = [(points[a], atom_color(latt, a), case["style"][a][1])
                for a in range(ref.num)]
        if not show:
            lines, outer = [], {}
        check_basis(ax, opts, ref.vecs, tol, lines)
        # neighbors with the same position can be rounded differently
        got = artists.unique([(g[0], (*g[1], g[2] or -1)) for g in artists.sites(ax)], 1e-7)
        rad = any(g[2] is not None for g in artists.sites(ax))
        want = [(p, (*c, r if rad else -1)) for p, c, r in want + list(outer.values())]
        artists.match(got, want, "site", tol)
        check_format(ax, opts, dim, [a.name for a in latt.atoms])
        check(not artists.texts(ax), "texts")
        ctx.nontrivial(bool(lines))
        ctx.label("%dD" % dim)
        plt.close("all")
        with artists.no_layout(not case["draw"]):
            ax = call(latt.plot_basis, case["basis"], dim, case["given"], case["draw"])
        check_basis(ax, case["basis"], ref.vecs, tol, [])
        check(not artists.sites(ax), "sites in the plot of the basis")
        check_format(ax, case["basis"], dim, [])
    finally:
        plt.close("all")
    check(fingerprint(latt) == before, "the lattice was changed by the plot")


# -- shapes ------------------------------------------------------------------------------
@st.composite
def shape_cases(draw):
    dim = draw(st.integers(2, 3))
    kind = draw(st.sampled_from(["box", "bbox", "hull"] + (["circle", "donut"] * (dim == 2))))
    coord = gen.grid(-6, 6, 0.5)
    out = {"kind": kind, "dim": dim, "pos": [draw(coord) for _ in range(dim)],
           "size": [draw(gen.grid(0.5, 5, 0.25)) for _ in range(dim)],
           "color": draw(st.sampled_from(["k", "r", "#123456"])),
           "alpha": draw(st.sampled_from([0.2, 0.7]))}
    if kind == "bbox":
        out["basis"] = draw(gen.vectors(dim=dim))
    elif kind == "hull":
        out["points"] = [[0.0] * dim] + [[2.0 * (i == j) for j in range(dim)]
                                         for i in range(dim)]
        out["points"] += draw(st.lists(st.lists(coord, min_size=dim, max_size=dim),
                                       max_size=5))
    elif kind in ("circle", "donut"):
        out["radius"] = draw(gen.grid(0.5, 5, 0.25))
        out["inner"] = out["radius"] * draw(gen.grid(0, 0.9, 0.1))
    return out


def area(poly):
    x, y = np.asarray(poly, float).T
    return 0.5 * abs(np.dot(x, np.roll(y, 1)) - np.dot(y, np.roll(x, 1)))


@PROP.sub(
    "shapes",
    shape_cases,
    800,
    "plots of shapes compared with their corners, edges and faces; non-trivial: not at the "
    "origin",
)
def shapes(case, ctx):
    dim, kind, pos = case["dim"], case["kind"], case["pos"]
    ctx.label(kind + " %dD" % dim)
    ctx.nontrivial(any(pos))
    kw = dict(color=case["color"], alpha=case["alpha"], lw=1.0)
    try:
        ax = new_axes(dim)
        tol = 1e-9 * 100
        if kind in ("box", "bbox"):
            basis = arr(case["basis"]) if kind == "bbox" else None
            shape = lp.Shape(tuple(case["size"]), tuple(pos), basis=basis)
            vecs = np.eye(dim) if basis is None else basis
            tol *= 1 + np.max(np.abs(vecs))
            edges = []
            for i in range(dim):
                rest = [k for k in range(dim) if k != i]
                for c in itertools.product([0, 1], repeat=dim - 1):
                    p = np.array(pos, float)
                    for k, x in zip(rest, c):
                        p[k] += x * case["size"][k]
                    q = p.copy()
                    q[i] += case["size"][i]
                    edges.append(([p @ vecs, q @ vecs], artists.rgb(case["color"])))
            shape.plot(ax, **kw)
            artists.match(artists.segments(ax), edges, "edge", tol)
            want = abs(np.linalg.det(vecs)) * np.prod(case["size"])
            if dim == 2:
                polys = [p for p in ax.patches if isinstance(p, Polygon)]
                check(len(polys) == 1, "number of surfaces")
                xy = polys[0].get_xy()
                check(abs(area(xy) - want) < 1e-6 * (1 + want), "area of the surface")
            else:
                faces = [f for c in ax.collections if isinstance(c, Poly3DCollection)
                         for f in surfaces(c)]
                check(len(faces) == 6, "number of surfaces")
                for i, c in itertools.product(range(3), (0, 1)):
                    # face of the box: corners in any cyclic order
                    rest = [k for k in range(3) if k != i]
                    ring = []
                    for d in [(0, 0), (1, 0), (1, 1), (0, 1)]:
                        p = np.array(pos, float)
                        p[i] += c * case["size"][i]
                        for k, x in zip(rest, d):
                            p[k] += x * case["size"][k]
                        ring.append(p @ vecs)
                    check(any(same_ring(f, ring, tol) for f in faces),
                          "surface %s is not drawn", np.array(ring).tolist())
        elif kind == "hull":
            pts = arr(case["points"]) + arr(pos)
            shape = lp.ConvexHull(pts)
            hull = ConvexHull(pts)
            shape.plot(ax, **kw)
            segs = artists.segments(ax)
            if dim == 2:
                ring = pts[hull.vertices]
                per = sum(np.linalg.norm(p - q) for p, q in zip(ring, np.roll(ring, 1, 0)))
                length = sum(np.linalg.norm(s[0][0] - s[0][1]) for s in segs)
                check(abs(per - length) < 1e-6 * (1 + per), "length of the outline")
                xy = [p for p in ax.patches if isinstance(p, Polygon)]
                check(len(xy) == 1, "number of surfaces")
                check(abs(area(xy[0].get_xy()) - hull.volume) < 1e-6 * (1 + hull.volume),
                      "area of the surface")
            else:
                faces = [f for c in ax.collections if isinstance(c, Poly3DCollection)
                         for f in surfaces(c)]
                total = sum(np.linalg.norm(np.cross(f[1] - f[0], f[2] - f[0])) / 2
                            for f in faces)
                check(abs(total - hull.area) < 1e-6 * (1 + total), "area of the surface")
            # everything lies on the surface of the hull
            eq = hull.equations
            for s, _ in segs:
                for p in s:
                    d = eq[:, :-1] @ p + eq[:, -1]
                    check(abs(np.max(d)) < 1e-6, "outline of the hull at %s", p.tolist())
        else:
            r, inner = case["radius"], case["inner"]
            shape = lp.Circle(tuple(pos), r) if kind == "circle" else \
                lp.Donut(tuple(pos), r, inner)
            shape.plot(ax, **kw)
            if kind == "circle":
                circ = [p for p in ax.patches if isinstance(p, CirclePatch)]
                circ += [p for p in ax.artists if isinstance(p, CirclePatch)]
                check(circ, "no circle is drawn")
                for c in circ:
                    expect_close(c.get_center(), pos, "center of the circle")
                    check(abs(c.get_radius() - r) < 1e-9, "radius of the circle")
                check(any(c.get_fill() for c in circ), "circle is not filled")
            else:
                rad = []
                for line in ax.lines:
                    d = np.linalg.norm(np.array(line.get_data()).T - arr(pos), axis=1)
                    check(np.ptp(d) < 1e-6, "outline is not a circle around the position")
                    rad.append(float(d[0]))
                check(len(rad) == 2 and np.allclose(sorted(rad), [inner, r]),
                      "radii of the donut: %s", rad)
                polys = [p for p in ax.patches if isinstance(p, Polygon)]
                check(len(polys) == 1, "number of surfaces")
                want = math.pi * (r**2 - inner**2)
                check(abs(area(polys[0].get_xy()) - want) < 0.02 * math.pi * r**2,
                      "area of the surface")
    finally:
        plt.close("all")


def surfaces(coll):
    """Faces of a 3D collection"""
    vec = getattr(coll, "_faces", None)
    if vec is not None:
        return [np.asarray(f, float) for f in vec]
    vec, sl = coll._vec, coll._segslices
    return [np.array(vec[:3, s]).T for s in sl]


def same_ring(face, ring, tol):
    face = np.asarray(face, float)
    if len(face) == len(ring) + 1 and np.allclose(face[0], face[-1]):
        face = face[:-1]
    if len(face) != len(ring):
        return False
    for f in (face, face[::-1]):
        for k in range(len(ring)):
            if np.max(np.abs(np.roll(f, k, axis=0) - np.array(ring))) <= tol:
                return True
    return False


# -- dispersions -------------------------------------------------------------------------
@st.composite
def dispersion_cases(draw):
    dim = draw(st.integers(1, 3))
    num = draw(st.integers(2, 5))
    pts = draw(st.lists(st.lists(st.integers(-3, 3), min_size=dim, max_size=dim),
                        min_size=num, max_size=num))
    bands = draw(st.integers(1, 3))
    return {"points": pts, "n": draw(st.integers(2, 12)), "bands": bands,
            "func": draw(st.sampled_from(["disp", "path", "dos", "pathdos"])),
            "scaled": draw(st.booleans()), "fill": draw(st.booleans()),
            "color": draw(st.sampled_from([None, None, "r", "list", "atoms"])),
            "grid": draw(st.sampled_from(["default", "x", "y", None])),
            "labels": [draw(st.sampled_from(["$\\Gamma$", "X", "M", "K"])) for _ in range(num)],
            "seed": draw(st.integers(0, 1000)), "draw": draw(st.integers(0, 7)) == 0}


@PROP.sub(
    "dispersion",
    dispersion_cases,
    400,
    "plots of dispersions along a path: bands, scaled sections, ticks at the points, density "
    "of states; non-trivial: at least two sections",
)
def dispersion(case, ctx):
    pts, n, bands = arr(case["points"]), case["n"], case["bands"]
    num = len(pts)
    lengths = np.linalg.norm(np.diff(pts, axis=0), axis=1)
    if lengths[0] < 1e-6 or np.any(lengths < 1e-6):
        raise Discard("section without length")
    path = disptools.DispersionPath(pts.shape[1])
    path.add_points(pts, case["labels"])
    rng = np.random.default_rng(case["seed"])
    disp = rng.uniform(-3, 3, size=((num - 1) * n, bands))
    disp0 = disp.copy()
    dos = [(np.linspace(-3, 3, 7), rng.uniform(0, 1, 7)) for _ in range(bands)]
    kw = {}
    colors = [artists.rgb(f"C{i}") for i in range(bands)]
    if case["color"] == "r":
        kw["color"] = "r"
        colors = [artists.rgb("r")] * bands
    elif case["color"] == "list":
        kw["color"] = ["g", "b", "m"][:bands]
        colors = [artists.rgb(c) for c in kw["color"]]
    elif case["color"] == "atoms":
        kw["color"] = [lp.Atom("A", color=c) for c in ["y", "0.2", "c"]][:bands]
        colors = [artists.rgb(c.color) for c in kw["color"]]
    if case["grid"] != "default":
        kw["grid"] = case["grid"]
    scales = np.ones(num - 1)
    func = case["func"]
    if func.startswith("path") or case["scaled"]:
        scales = lengths / lengths[0]
    if not func.startswith("path") and case["scaled"]:
        kw["scales"] = scales
    kw["fill"] = case["fill"]
    ctx.label(func)
    ctx.nontrivial(num > 2)
    try:
        with artists.no_layout(not case["draw"]):
            if func == "disp":
                ax = disptools.plot_dispersion(disp, case["labels"], show=False, **kw)
            elif func == "path":
                ax = path.plot_dispersion(disp, show=False, **kw)
            elif func == "dos":
                ax, ax2 = disptools.plot_disp_dos(disp, dos, case["labels"], show=False, **kw)
            else:
                ax, ax2 = path.plot_disp_dos(disp, dos, show=False, **kw)
        if case["draw"]:
            ax.get_figure().canvas.draw()
        starts = np.concatenate([[0], np.cumsum(scales * (n - 1))])
        x = np.concatenate([starts[s] + np.arange(n) * scales[s] for s in range(num - 1)])
        check(len(ax.lines) == bands, "number of bands: %s", len(ax.lines))
        for i, line in enumerate(ax.lines):
            expect_close(line.get_xdata(), x, "positions along the path")
            expect_close(line.get_ydata(), disp[:, i], "band %d" % i)
            check(np.allclose(artists.rgb(line.get_color()), colors[i]), "color of the band")
        ticks = ax.get_xticks()
        expect_close(ticks, starts, "ticks")
        check([t.get_text() for t in ax.get_xticklabels()] == case["labels"], "tick labels")
        expect_close(ax.get_xlim(), [0, starts[-1]], "limits of the axes")
        areas = [c.get_paths()[0].get_extents() for c in ax.collections if len(c.get_paths())]
        if case["fill"]:
            check(len(areas) == bands, "filled areas: %s", len(areas))
            for i, e in enumerate(areas):
                expect_close([e.x0, e.x1, e.y0, e.y1],
                             [0, starts[-1], disp[:, i].min(), disp[:, i].max()], "area")
        else:
            check(not areas, "areas are filled")
        if func.endswith("dos"):
            check(len(ax2.lines) == bands, "number of densities of states")
            for i, line in enumerate(ax2.lines):
                expect_close(line.get_xdata(), dos[i][1], "density of states")
                expect_close(line.get_ydata(), dos[i][0], "energies")
            check(ax2.get_xlim()[0] == 0, "limits of the density of states")
        plt.close("all")
        # given axes
        with artists.no_layout(True):
            if func.endswith("dos"):
                _, own = plt.subplots(1, 2)
                target = path if func.startswith("path") else disptools
                args = (disp, dos) if target is path else (disp, dos, case["labels"])
                got = target.plot_disp_dos(*args, axs=own, show=False, **kw)
                check(got[0] is own[0] and got[1] is own[1], "the given axes are not used")
                for i, line in enumerate(own[1].lines):
                    expect_close(line.get_xdata(), dos[i][1], "density of states")
                own = own[0]
            else:
                _, own = plt.subplots()
                target = path if func.startswith("path") else disptools
                args = (disp,) if target is path else (disp, case["labels"])
                got = target.plot_dispersion(*args, ax=own, show=False, **kw)
                check(got is own, "the given axes are not used")
        check(len(own.lines) == bands, "number of bands: %s", len(own.lines))
        for i, line in enumerate(own.lines):
            expect_close(line.get_xdata(), x, "positions along the path")
            expect_close(line.get_ydata(), disp[:, i], "band %d" % i)
        plt.close("all")
        # outline of the path
        ax = new_axes(pts.shape[1])
        if pts.shape[1] > 1:
            path.draw(ax)
            artists.match(artists.segments(ax),
                          [([p, q], None) for p, q in zip(pts[:-1], pts[1:])],
                          "section", 1e-9)
        path.build(n)
        _, ax = path.subplots()
        expect_close(ax.get_xticks(), np.arange(num) * n, "ticks of the path")
        check([t.get_text() for t in ax.get_xticklabels()] == case["labels"], "tick labels")
        # bands
        plt.close("all")
        k = np.linspace(-1, 1, n)
        energies = disp[:n].T
        with artists.no_layout(True):
            ax = disptools.plot_bands([k], energies, show=False, bz=[-0.5, 0.5])
        check(len(ax.lines) == bands + 2, "number of bands")
        for i in range(bands):
            expect_close(ax.lines[i].get_xdata(), k, "k")
            expect_close(ax.lines[i].get_ydata(), energies[i], "band")
    finally:
        plt.close("all")
    check(np.array_equal(disp, disp0), "the dispersion was changed")
    check(path.num_points == num and list(path.labels) == case["labels"], "path was changed")


# -- bands on a grid -----------------------------------------------------------------------
@st.composite
def grid_cases(draw):
    coef = st.integers(-4, 4)
    axis = st.tuples(st.integers(-4, 3), st.integers(1, 5), st.integers(2, 7))
    bands = draw(st.lists(st.tuples(coef, coef), min_size=1, max_size=3))
    return {"x": list(draw(axis)), "y": list(draw(axis)), "bands": [list(b) for b in bands],
            "label": draw(st.sampled_from(["E(k)", "n", None])),
            "bz": draw(st.booleans()), "own": draw(st.booleans()),
            "points": draw(st.lists(st.tuples(gen.grid(-3, 3, 0.5), gen.grid(-3, 3, 0.5)),
                                    min_size=4, max_size=9, unique=True)),
            "num": [draw(st.integers(2, 9)), draw(st.integers(2, 9))],
            "offset": draw(st.one_of(st.none(), st.tuples(gen.grid(0, 2, 0.5),
                                                          gen.grid(0, 2, 0.5)))),
            "fill": draw(st.sampled_from([None, -7.5]))}


@PROP.sub(
    "grid",
    grid_cases,
    300,
    "contours of linear bands on a grid and data of scattered points interpolated to a grid; "
    "non-trivial: the grid has different sizes and the function depends on both coordinates",
)
def grid(case, ctx):
    (x0, lx, nx), (y0, ly, ny) = case["x"], case["y"]
    kx, ky = np.linspace(x0, x0 + lx, nx), np.linspace(y0, y0 + ly, ny)
    # bands with a constant sign: the sum of the absolute values is linear
    planes = []
    for a, b in case["bands"]:
        low = min(a * x for x in (x0, x0 + lx)) + min(b * y for y in (y0, y0 + ly))
        planes.append((a, b, 1.0 - low))
    values = np.array([a * kx[None, :] + b * ky[:, None] + c for a, b, c in planes])
    sign = np.where(np.arange(len(planes)) % 2, -1, 1)
    bands = values * sign[:, None, None]
    total = values.sum(axis=0) if len(planes) > 1 else bands[0]
    ca, cb = (sum(p[i] for p in planes) for i in (0, 1))
    ctx.nontrivial(nx != ny and ca != 0 and cb != 0)
    ctx.label("%d bands" % len(planes))
    bands0, kx0 = bands.copy(), kx.copy()
    kw = {"disp_label": case["label"]}
    lines = [np.array([[x0, y0], [x0 + lx, y0]]), np.array([[x0, y0], [x0, y0 + ly]])]
    if case["bz"]:
        kw["bz"] = lines
    try:
        own = None
        if case["own"]:
            _, own = plt.subplots()
            kw["ax"] = own
        with artists.no_layout(True), warnings.catch_warnings():
            warnings.simplefilter("ignore")
            ax = disptools.plot_bands([kx, ky], bands, show=False, **kw)
        check(own is None or ax is own, "the given axes are not used")
        cont = [c for c in ax.collections if isinstance(c, QuadContourSet)]
        check(len(cont) == 1, "number of contour plots: %s", len(cont))
        cont = cont[0]
        check(cont.filled, "contours are filled")
        scale = 1e-9 * (1 + np.abs(total).max())
        check(abs(cont.zmin - total.min()) < scale and abs(cont.zmax - total.max()) < scale,
              "range of the energies: %s, %s", cont.zmin, cont.zmax)
        box = ax.dataLim
        expect_close([box.x0, box.x1, box.y0, box.y1], [x0, x0 + lx, y0, y0 + ly], "limits")
        if np.ptp(total) > 1e-6:
            # points in the middle of the faces lie between the levels of their path
            levels = np.asarray(cont.levels)
            paths = cont.get_paths()
            eps = 1e-6 * np.ptp(total)
            for fx, fy in [(0.21, 0.37), (0.83, 0.29), (0.55, 0.91), (0.13, 0.77)]:
                px, py = x0 + fx * lx, y0 + fy * ly
                z = ca * px + cb * py + total[0, 0] - ca * x0 - cb * y0
                for low, high, path in zip(levels[:-1], levels[1:], paths):
                    if min(abs(z - low), abs(z - high)) > eps:
                        check(path.contains_point((px, py)) == (low < z < high),
                              "energy at %s: %s is drawn between %s and %s", (px, py), z,
                              low, high)
        bar = getattr(cont, "colorbar", None)
        check((bar is not None) == (case["label"] is not None), "color bar")
        if bar is not None:
            name = case["label"] if len(planes) == 1 else f"|{case['label']}|"
            check(bar.ax.get_ylabel() == name, "label of the energies: %s",
                  bar.ax.get_ylabel())
        if case["bz"]:
            artists.match(artists.segments(ax), [(s, None) for s in lines], "line", 1e-9)
        # -- scattered data
        pts = arr(case["points"])
        if np.linalg.matrix_rank(pts - pts[0], tol=1e-6) == 2:
            ctx.label("interpolation")
            a, b = case["bands"][0]
            vals = a * pts[:, 0] + b * pts[:, 1] + 0.5
            kw = {} if case["offset"] is None else {"offset": tuple(case["offset"])}
            if case["fill"] is not None:
                kw["fill_value"] = case["fill"]
            off = case["offset"] or (0.0, 0.0)
            xx, yy, zz = plotting.interpolate_to_grid(pts, vals, tuple(case["num"]), **kw)
            gx = np.linspace(pts[:, 0].min() - off[0], pts[:, 0].max() + off[0],
                             case["num"][0])
            gy = np.linspace(pts[:, 1].min() - off[1], pts[:, 1].max() + off[1],
                             case["num"][1])
            check(np.shape(zz) == (len(gy), len(gx)), "shape of the grid: %s", np.shape(zz))
            expect_close(xx, np.broadcast_to(gx[None, :], zz.shape), "x of the grid")
            expect_close(yy, np.broadcast_to(gy[:, None], zz.shape), "y of the grid")
            eq = ConvexHull(pts).equations
            flat = np.stack([xx.ravel(), yy.ravel()], axis=1)
            depth = (flat @ eq[:, :-1].T + eq[:, -1]).max(axis=1).reshape(zz.shape)
            want = a * xx + b * yy + 0.5
            inside, outside = depth < -1e-6, depth > 1e-6
            expect_close(zz[inside], want[inside], "interpolated values", 1e-8)
            fill = np.nan if case["fill"] is None else case["fill"]
            check(np.array_equal(zz[outside], np.full(outside.sum(), fill), equal_nan=True),
                  "values outside of the data: %s", zz[outside])
    finally:
        plt.close("all")
    check(np.array_equal(bands, bands0) and np.array_equal(kx, kx0), "the bands were changed")


# -- helpers -------------------------------------------------------------------------------
@st.composite
def helper_cases(draw):
    dim = draw(st.integers(1, 4))
    num = draw(st.integers(1, 5))
    coord = gen.grid(-4, 4, 0.25)
    pts = [[draw(coord) for _ in range(dim)] for _ in range(num)]
    vecs = [[draw(coord) for _ in range(dim)] for _ in range(num)]
    base = draw(st.integers(1, 4))
    idx = st.integers(0, base - 1)
    return {"dim": dim, "pts": pts, "vecs": vecs,
            "pos": draw(st.one_of(st.none(), st.lists(coord, min_size=dim, max_size=dim))),
            "base": base, "default": draw(st.sampled_from(["k", "r", 3])),
            "colors": draw(st.one_of(st.none(), st.lists(
                st.tuples(idx, idx, st.sampled_from(["r", "g", "b"])), max_size=4))),
            "offset": draw(st.sampled_from([None, 0.0, 0.5]))}


@PROP.sub(
    "helpers",
    helper_cases,
    800,
    "points, vectors, arrows, lines, indices and color tables; non-trivial: at least two "
    "points",
)
def helpers(case, ctx):
    dim, pts, vecs = case["dim"], arr(case["pts"]), arr(case["vecs"])
    table = [[case["default"]] * case["base"] for _ in range(case["base"])]
    for i, j, c in case["colors"] or ():
        table[i][j] = table[j][i] = c
    colors = None if case["colors"] is None else [tuple(c) for c in case["colors"]]
    got = plotting.connection_color_array(case["base"], case["default"], colors)
    check([list(r) for r in got] == table, "color table: %s", got)
    ctx.nontrivial(len(pts) > 1)
    try:
        if dim > 3:
            for ok in (lambda: plotting.subplot(dim),):
                try:
                    ok()
                except ValueError:
                    continue
                check(False, "4D plots are not supported")
            return
        points, dirs = artists.pad(pts, dim), artists.pad(vecs, dim)
        start = None if case["pos"] is None else arr(case["pos"])
        first = artists.pad(np.zeros(dim) if start is None else start, dim)[0]
        _, ax = plotting.subplot(dim)
        check((ax.name == "3d") == (dim == 3), "projection")
        if dim < 3:
            check(ax.get_aspect() == 1, "equal aspect")
        plotting.draw_points(ax, pts)
        artists.match([(s[0], None) for s in artists.sites(ax)],
                      [(p, None) for p in points], "point", 1e-9)
        plt.close("all")
        _, ax = plotting.subplot(dim)
        plotting.draw_sites(ax, pts, 0.3)
        artists.match([(s[0], None) for s in artists.sites(ax)],
                      [(p, None) for p in points], "site", 1e-9)
        plt.close("all")
        _, ax = plotting.subplot(dim)
        plotting.draw_vectors(ax, vecs, start)
        artists.match(artists.segments(ax), [([first, first + v], None) for v in dirs],
                      "vector", 1e-9, directed=True)
        kw = {} if case["offset"] is None else {"offset": case["offset"]}
        plotting.draw_indices(ax, pts, **kw)
        off = 0.05 if case["offset"] is None else case["offset"]
        texts = artists.texts(ax)
        check([t for t, _ in texts] == [str(i) for i in range(len(pts))], "indices")
        for (_, p), q in zip(texts, points):
            expect_close(p, q + off, "position of the index")
        plt.close("all")
        if dim < 3:
            _, ax = plotting.subplot(dim)
            plotting.draw_arrows(ax, vecs, start)
            artists.match([(np.array([p, p + v]), None) for p, v in artists.arrows(ax)],
                          [([first, first + v], None) for v in dirs], "arrow", 1e-9,
                          directed=True)
            plt.close("all")
            _, ax = plotting.subplot(dim)
            plotting.draw_arrows(ax, vecs, pts)
            artists.match([(np.array([p, p + v]), None) for p, v in artists.arrows(ax)],
                          [([p, p + v], None) for p, v in zip(points, dirs)], "arrow", 1e-9,
                          directed=True)
        plt.close("all")
        if dim > 1:
            _, ax = plotting.subplot(dim)
            plotting.draw_lines(ax, [[p, p + v] for p, v in zip(pts, vecs)])
            artists.match(artists.segments(ax),
                          [([p, p + v], None) for p, v in zip(pts, vecs)], "line", 1e-9)
            if len(pts) > 1:
                plotting.draw_line(ax, pts)
                artists.match(artists.lines(ax),
                              [([p, q], None) for p, q in zip(pts[:-1], pts[1:])], "line",
                              1e-9)
    finally:
        plt.close("all")
