"""Views of the neighbors of a built lattice as plain dictionaries."""

import numpy as np

from .core import check
from .ref import DEC


def rows(ind):
    return [tuple(int(x) for x in row) for row in np.asarray(ind)]


def tables(latt):
    """dict site -> {neighbor: distance index} from the site data, without duplicates"""
    out = []
    for i in range(latt.num_sites):
        row = {}
        for d, neighbors in latt.iter_neighbors(i):
            for j in neighbors:
                j = int(j)
                check(j not in row, "site %s is listed twice as neighbor of %s", j, i)
                check(0 <= j < latt.num_sites, "invalid neighbor %s", j)
                row[j] = int(d)
        out.append(row)
    return out


def expected_tables(ref, indices, positions):
    """Expected neighbors: list of {neighbor: distance} and all distances."""
    mask, rounded = ref.finite_neighbors(indices, np.asarray(positions))
    out = [
        {int(j): float(rounded[i, j]) for j in np.nonzero(mask[i])[0]}
        for i in range(len(mask))
    ]
    return out, level_values(out)


def level_values(tabs):
    vals = sorted({d for row in tabs for d in row.values()})
    # the same distance can be rounded differently at the 6th decimal
    out = []
    for v in vals:
        if not out or v - out[-1] > 3 * 10.0**-DEC:
            out.append(v)
    return out


def level(vals, d):
    return int(np.argmin(np.abs(np.asarray(vals) - d)))


def to_levels(tabs, vals):
    return [{j: level(vals, d) for j, d in row.items()} for row in tabs]


def compare_tables(got, want, what=""):
    check(len(got) == len(want), "%s: number of sites", what)
    for i, (g, w) in enumerate(zip(got, want)):
        check(g == w, "%s: neighbors of site %s: %s != %s", what, i, g, w)
