"""C03: reciprocal vectors"""

import numpy as np
from hypothesis import strategies as st

import lattpy as lp
from vlib import gen
from vlib.core import Property, check
from vlib.ref import arr, expect_close

PROP = Property("C03", ["floating point: relative tolerance 1e-7"])


@st.composite
def cases(draw):
    vecs = draw(gen.vectors(max_dim=3, step=0.05, skew=2.0))
    dim = len(vecs)
    return {
        "vectors": vecs,
        "cls": draw(st.sampled_from(["LatticeBasis", "LatticeStructure", "Lattice"])),
        "scale": draw(st.sampled_from([1.0, 1.0, 1e-2, 50.0])),
        "min_negative": draw(st.booleans()),
        "i": draw(st.integers(0, dim - 1)),
        "j": draw(st.integers(0, dim - 1)),
        "eps": draw(st.sampled_from([0.0, 1e-9, 1e-3, -1e-3, 0.5, -4 * np.pi, 1.0])),
        "tol": draw(st.sampled_from([None, 1e-6, 1e-2, 1e-8])),
        "check": draw(st.booleans()),
    }


@PROP.sub(
    "dual",
    cases,
    5000,
    "random basis; non-trivial: not orthogonal or left-handed",
)
def dual(case, ctx):
    vecs = arr(case["vectors"]) * case["scale"]
    dim = len(vecs)
    latt = getattr(lp, case["cls"])(vecs.copy())
    expected = 2 * np.pi * np.linalg.inv(vecs).T
    gram = vecs @ vecs.T
    ctx.nontrivial(
        np.linalg.det(vecs) < 0 or np.max(np.abs(gram - np.diag(np.diag(gram)))) > 1e-9
    )
    ctx.label(f"dim{dim}", "left" if np.linalg.det(vecs) < 0 else "right")
    kw = {} if case["tol"] is None else {"tol": case["tol"]}
    tight = case["tol"] is not None and case["tol"] < 1e-7
    rvecs = latt.reciprocal_vectors(check=case["check"] and not tight, **kw)
    check(rvecs.shape == (dim, dim), "shape %s", rvecs.shape)
    # compare the dual basis relative to the size of its vectors
    dots = vecs @ rvecs.T
    slack = 1e-7 * (1 + np.max(np.linalg.norm(vecs, axis=1))
                    * np.max(np.linalg.norm(expected, axis=1)))
    check(
        np.max(np.abs(dots - 2 * np.pi * np.eye(dim))) < slack,
        "dot products %s", dots.tolist(),
    )
    expect_close(latt.vectors, vecs, "basis changed")
    rlatt = latt.reciprocal_lattice(min_negative=case["min_negative"])
    expect_close(rlatt.vectors, expected, "reciprocal lattice", 1e-7)
    check(rlatt.dim == dim, "dimension")
    back = rlatt.reciprocal_lattice(min_negative=case["min_negative"])
    expect_close(back.vectors, vecs, "reciprocal of reciprocal", 1e-7)
    check(latt.is_reciprocal(rvecs, tol=max(1e-6, slack)), "not accepted: %s", rvecs)


@PROP.sub(
    "is_reciprocal",
    cases,
    4000,
    "dual basis with one dot product changed by a chosen amount; non-trivial: the "
    "amount is not zero",
)
def is_reciprocal(case, ctx):
    vecs = arr(case["vectors"])
    dim = len(vecs)
    latt = getattr(lp, case["cls"])(vecs.copy())
    recip = np.linalg.inv(vecs).T  # a_i . r_j = delta_ij
    candidate = 2 * np.pi * recip
    # changes only the dot product of a_i and b_j
    candidate[case["j"]] += case["eps"] * recip[case["i"]]
    tol = 1e-6 if case["tol"] is None else case["tol"]
    kw = {} if case["tol"] is None else {"tol": case["tol"]}
    ctx.nontrivial(case["eps"] != 0)
    ctx.label("diag" if case["i"] == case["j"] else "offdiag")
    expected = abs(case["eps"]) <= tol
    if abs(abs(case["eps"]) - tol) < 1e-7 * max(1.0, tol):
        # the rounding errors of the dot products matter
        if tol < 1e-7 or case["eps"] != 0:
            if abs(abs(case["eps"]) - tol) < 1e-8:
                ctx.discard("at the tolerance")
    arg = candidate if case["check"] else candidate.tolist()
    got = latt.is_reciprocal(arg, **kw)
    check(bool(got) == expected, "is_reciprocal %s for a change of %s (tol %s)", got,
          case["eps"], tol)
