"""Strategies for plain (JSON) descriptions of lattices, shapes and points.

No library code is called here: all domain restrictions are met by construction.
"""

import math
import os

from hypothesis import strategies as st


def thorough():
    return os.environ.get("VERIF_TIER") == "thorough"


def grid(lo, hi, step):
    """Floats on a grid: lo, lo + step, ..., hi"""
    n = int(round((hi - lo) / step))
    return st.integers(0, n).map(lambda i: round(lo + i * step, 10))


def floats(lo, hi):
    return st.floats(lo, hi, allow_nan=False, allow_infinity=False, width=64).map(
        lambda x: float(f"{x:.6g}")
    )


SCALES = [1.0, 1.0, 1.0, 1.0, 2.0, 0.5, 0.3, 1.42, 3.7, 12.5, 0.05, 150.0, 1.0000005,
          2.4612345]


def scale():
    return st.sampled_from(SCALES)


def _matmul(a, b):
    return [
        [sum(x * y for x, y in zip(row, col)) for col in zip(*b)] for row in a
    ]


def _named(name, a, az=1.0):
    s3 = math.sqrt(3)
    table = {
        "chain": [[1.0]],
        "square": [[1.0, 0.0], [0.0, 1.0]],
        "hex": [[1.5, s3 / 2], [1.5, -s3 / 2]],
        "hexr": [[1.0, 0.0], [0.5, s3 / 2]],
        "sc": [[1.0, 0, 0], [0, 1.0, 0], [0, 0, 1.0]],
        "fcc": [[0.5, 0.5, 0], [0.5, 0, 0.5], [0, 0.5, 0.5]],
        "bcc": [[0.5, 0.5, 0.5], [0.5, -0.5, 0.5], [-0.5, 0.5, 0.5]],
        "hex3": [[1.5, s3 / 2, 0], [1.5, -s3 / 2, 0], [0, 0, az]],
    }
    for n in (4, 5, 6):
        table[f"cubic{n}"] = [[float(i == j) for j in range(n)] for i in range(n)]
    return [[a * float(x) for x in row] for row in table[name]]


NAMES = {
    1: ["chain"],
    2: ["square", "hex", "hexr"],
    3: ["sc", "fcc", "bcc", "hex3"],
    4: ["cubic4"],
    5: ["cubic5"],
    6: ["cubic6"],
}


@st.composite
def vectors(draw, dim=None, max_dim=3, kinds=None, step=0.25, skew=1.0):
    """Basis vectors (rows) of an invertible, not too ill-conditioned basis."""
    if dim is None:
        dim = draw(st.sampled_from([d for d in (2, 2, 1, 3, 3, 4, 5, 6) if d <= max_dim]))
    kind = draw(
        st.sampled_from(
            kinds or ["named", "ortho", "ortho", "skew", "skew", "rot", "int"]
        )
    )
    if kind == "named":
        return _named(draw(st.sampled_from(NAMES[dim])), draw(scale()))
    if kind == "ortho":
        diag = [draw(grid(0.5, 2.5, step)) for _ in range(dim)]
        s = draw(scale())
        return [
            [s * diag[i] if i == j else 0.0 for j in range(dim)] for i in range(dim)
        ]
    if kind == "int":
        rows = [
            [
                draw(st.integers(1, 3)) if i == j else
                (draw(st.integers(-1, 1)) if j < i else 0)
                for j in range(dim)
            ]
            for i in range(dim)
        ]
    else:
        rows = [
            [
                draw(grid(0.5, 2.0, step)) if i == j else
                (draw(grid(-skew, skew, step)) if j < i else 0.0)
                for j in range(dim)
            ]
            for i in range(dim)
        ]
    # left-handed and reordered bases, negative vectors
    perm = draw(st.permutations(range(dim)))
    rows = [rows[i] for i in perm]
    signs = [draw(st.sampled_from([1, 1, 1, -1])) for _ in range(dim)]
    rows = [[s * x for x in row] for s, row in zip(signs, rows)]
    if kind == "rot" and dim in (2, 3):
        t = draw(grid(0.0, 6.25, 0.25))
        c, s = math.cos(t), math.sin(t)
        rot = [[c, s], [-s, c]]
        if dim == 3:
            rot = [[c, s, 0.0], [-s, c, 0.0], [0.0, 0.0, 1.0]]
            u = draw(grid(0.0, 6.0, 0.5))
            c, s = math.cos(u), math.sin(u)
            rot = _matmul(rot, [[1.0, 0.0, 0.0], [0.0, c, s], [0.0, -s, c]])
        rows = _matmul(rows, rot)
    if kind != "int" and draw(st.booleans()):
        s = draw(scale())
        rows = [[s * x for x in row] for row in rows]
    return rows


@st.composite
def atoms(draw, dim, max_atoms=3, shifts=True, den=None):
    """Fractional positions, distinct modulo lattice translations, and names."""
    num = draw(st.sampled_from([n for n in (1, 1, 2, 2, 3, 4) if n <= max_atoms]))
    if max_atoms >= 3 and dim <= 2 and draw(st.integers(0, 11)) == 11:
        num = draw(st.integers(4, 6))
    den = den or draw(st.sampled_from([2, 3, 4, 6, 6, 7, 50]))
    den = max(den, 2)
    while den**dim < num:
        den += 1
    codes = draw(
        st.lists(
            st.integers(0, den**dim - 1), min_size=num, max_size=num, unique=True
        )
    )
    out = []
    for code in codes:
        frac = []
        for _ in range(dim):
            code, r = divmod(code, den)
            shift = draw(st.sampled_from([0, 0, 0, 0, 1, -1, 2])) if shifts else 0
            frac.append(r / den + shift)
        out.append({"frac": frac, "name": draw(st.sampled_from(["A", "B", "C", "AB", "a", "A1"]))})
    if not draw(st.booleans()):
        # start with an atom at the origin
        out[0]["frac"] = [0.0] * dim
        rest = [o for o in out[1:] if any(x % 1 for x in o["frac"])]
        out = out[:1] + rest
    return out


@st.composite
def connections(draw, num, max_dist=3):
    """Symmetric table of the number of distances, at least one connection."""
    if draw(st.booleans()):
        n = draw(st.integers(1, max_dist))
        return [[n] * num for _ in range(num)]
    table = [[0] * num for _ in range(num)]
    for i in range(num):
        for j in range(i, num):
            table[i][j] = table[j][i] = draw(st.integers(0, max_dist))
    if not any(any(row) for row in table):
        i = draw(st.integers(0, num - 1))
        j = draw(st.integers(0, num - 1))
        table[i][j] = table[j][i] = draw(st.integers(1, max_dist))
    return table


@st.composite
def lattices(draw, dim=None, max_dim=3, max_atoms=3, max_dist=3, kinds=None, **kw):
    vecs = draw(vectors(dim=dim, max_dim=max_dim, kinds=kinds))
    dim = len(vecs)
    ats = draw(atoms(dim, max_atoms=max_atoms if dim < 4 else 1, **kw))
    if dim == 4:
        max_dist = min(max_dist, 2)
    if dim < 3 and draw(st.integers(0, 11)) == 11:
        max_dist += 4
    cons = draw(connections(len(ats), max_dist=max_dist))
    return {"vectors": vecs, "atoms": ats, "cons": cons}


def points(dim, lo=-5.0, hi=5.0):
    return st.lists(floats(lo, hi), min_size=dim, max_size=dim)


def _det(m):
    if len(m) == 1:
        return m[0][0]
    return sum(
        (-1) ** j * m[0][j] * _det([row[:j] + row[j + 1 :] for row in m[1:]])
        for j in range(len(m))
    )


@st.composite
def shapes(draw, vecs, kinds=None, size=1.0, far=True, primitive=None):
    """Shape to build, about the size of a few cells.

    Box sizes are multiples of the extent of the cell or arbitrary.
    """
    dim = len(vecs)
    top = {1: 12, 2: 5, 3: 3, 4: 2}[dim]
    top = max(1, int(top * size))
    unit = abs(_det(vecs)) ** (1 / dim)
    if kinds is None:
        kinds = ["tuple", "tuple", "tuple", "box", "bbox"]
        if dim > 1:
            kinds = kinds + ["circle", "donut", "hull", "custom"]
        else:
            kinds = kinds + ["circle"]
    kind = draw(st.sampled_from(kinds))
    where = draw(st.sampled_from(["none", "none", "near", "near", "around",
                                  "far" if far else "none"]))
    out = {"kind": kind, "primitive": False, "pos": None}
    mag = draw(st.sampled_from([150, 300, 40000])) if where == "far" else 6
    if kind == "tuple":
        out["primitive"] = draw(st.booleans()) if primitive is None else primitive
    elif kind != "bbox":
        out["flag"] = draw(st.booleans())  # primitive argument of build
    if kind in ("tuple", "box", "bbox"):
        if out["primitive"] or kind == "bbox":
            out["size"] = [
                draw(st.integers(1, top)) if draw(st.booleans()) else
                draw(grid(0.5, top, 0.25))
                for _ in range(dim)
            ]
            coord = [1.0] * dim
        else:
            ext = [max(abs(v[i]) for v in vecs) or unit for i in range(dim)]
            out["size"] = [
                draw(st.integers(1, top)) * min(ext[i], 2 * unit)
                if draw(st.booleans())
                else unit * draw(grid(0.5, top, 0.25))
                for i in range(dim)
            ]
            coord = [min(e, 2 * unit) for e in ext]
        if where == "around":
            # the origin is inside of the shape
            out["pos"] = [-0.5 * x for x in out["size"]]
        elif where != "none":
            out["pos"] = [
                c * draw(st.sampled_from([1.0, 0.5])) * draw(st.integers(-mag, mag))
                for c in coord
            ]
        if kind == "tuple" and dim == 1:
            out["scalar"] = draw(st.booleans())
    else:
        mag = 1 if where == "around" else mag
        center = [unit * 0.5 * draw(st.integers(-mag, mag)) for _ in range(dim)]
        radius = unit * draw(grid(0.75, {1: 6, 2: 3.5, 3: 2, 4: 1.5}[dim], 0.25))
        out["center"] = center
        out["radius"] = radius
        if kind == "donut":
            out["inner"] = radius * draw(grid(0.0, 0.9, 0.1))
        elif kind == "hull":
            num = draw(st.integers(dim + 1, dim + 4))
            pts = [[0.0] * dim]
            for i in range(dim):
                pts.append([radius * 2 * (i == j) for j in range(dim)])
            for _ in range(num - dim - 1):
                pts.append([radius * draw(grid(-1.5, 2.0, 0.5)) for _ in range(dim)])
            out["points"] = [[c + x for c, x in zip(center, p)] for p in pts]
        elif kind == "custom":
            out["custom"] = draw(st.sampled_from(["ellipsoid", "lshape", "diamond"]))
    return out


@st.composite
def built(draw, size=1.0, far=True, kinds=None, primitive=None, cb=True, **kw):
    """Lattice and shape"""
    latt = draw(lattices(**kw))
    shape = draw(
        shapes(latt["vectors"], size=size, far=far, kinds=kinds, primitive=primitive)
    )
    out = {"latt": latt, "shape": shape}
    if cb:
        out["callback"] = draw(
            st.sampled_from([None, None, None, "alpha", "half", "parity", "list"])
        )
    return out
