"""Reference model: a direct, slow implementation of the lattice geometry."""

import itertools

import numpy as np

from .core import Discard, check

DEC = 6  # documented rounding of distances (DIST_DECIMALS)


def arr(x, dtype=float):
    return np.array(x, dtype=dtype)


def same(a, b, tol=1e-9):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return False
    if a.size == 0:
        return True
    scale = 1.0 + max(np.max(np.abs(a)), np.max(np.abs(b)))
    return bool(np.max(np.abs(a - b)) <= tol * scale)


def expect_close(a, b, msg, tol=1e-9):
    check(same(a, b, tol), "%s: %s != %s", msg, np.asarray(a).tolist(),
          np.asarray(b).tolist())


def box(limits):
    return np.array(
        list(itertools.product(*[range(lo, hi + 1) for lo, hi in limits])),
        dtype=np.int64,
    ).reshape(-1, len(limits))


class Ref:
    """The infinite lattice of a specification."""

    def __init__(self, spec):
        self.vecs = arr(spec["vectors"])
        self.dim = len(self.vecs)
        self.inv = np.linalg.inv(self.vecs)  # row vectors: x = n @ vecs
        self.pos = arr([a["frac"] for a in spec["atoms"]]) @ self.vecs
        self.num = len(self.pos)
        self.cons = np.array(spec["cons"], dtype=int)

    # -- sites ---------------------------------------------------------------------
    def position(self, index):
        index = np.asarray(index, dtype=np.int64)
        return index[..., :-1] @ self.vecs + self.pos[index[..., -1]]

    def sites_in_box(self, lo, hi):
        """All (index, position) of sites in the cartesian box [lo, hi]."""
        lo, hi = np.asarray(lo, float), np.asarray(hi, float)
        corners = np.array(list(itertools.product(*zip(lo, hi))))
        inds, poss = [], []
        for a in range(self.num):
            coords = (corners - self.pos[a]) @ self.inv
            lims = [
                (int(np.floor(c.min() - 1e-6)), int(np.ceil(c.max() + 1e-6)))
                for c in coords.T
            ]
            n = box(lims)
            if len(n) > 4_000_000:
                raise Discard("too many candidates")
            p = n @ self.vecs + self.pos[a]
            mask = np.all((p >= lo - 1e-9) & (p <= hi + 1e-9), axis=1)
            inds.append(np.c_[n[mask], np.full(mask.sum(), a)])
            poss.append(p[mask])
        return np.concatenate(inds).astype(np.int64), np.concatenate(poss)

    def sites_around(self, center, radius):
        ind, pos = self.sites_in_box(center - radius, center + radius)
        dist = np.sqrt(((pos - center) ** 2).sum(axis=1))
        mask = dist <= radius
        return ind[mask], pos[mask], dist[mask]

    # -- neighbors -----------------------------------------------------------------
    def neighbor_table(self):
        """Neighbors of the atoms at the origin cell.

        Returns (dists, neighbors): dists[a][b] is the list of the configured
        distances, neighbors[a] a list of (index tuple, distance). Raises Discard if
        distances are not clearly distinct.
        """
        if hasattr(self, "_table"):
            return self._table
        n = self.num
        dists = [[[] for _ in range(n)] for _ in range(n)]
        neighbors = [[] for _ in range(n)]
        for a in range(n):
            need = {b: int(self.cons[a, b]) for b in range(n) if self.cons[a, b]}
            if not need:
                continue
            radius = np.min(np.linalg.norm(self.vecs, axis=1))
            while True:
                ind, pos, dist = self.sites_around(self.pos[a], radius)
                keep = dist > 1e-7
                ind, dist = ind[keep], dist[keep]
                done = True
                for b, num in need.items():
                    levels = self.levels(dist[ind[:, -1] == b])
                    # all levels safely inside of the search radius
                    if len(levels) <= num or levels[num - 1] > radius - 1e-3:
                        done = False
                        break
                if done:
                    break
                radius *= 1.4
            for b, num in need.items():
                mask = ind[:, -1] == b
                levels = self.levels(dist[mask])[: num + 1]
                check_levels(dist[mask], levels)
                dists[a][b] = [float(x) for x in levels[:num]]
                for i, d in zip(ind[mask], dist[mask]):
                    for val in levels[:num]:
                        if abs(d - val) < 2e-6:
                            neighbors[a].append((tuple(int(x) for x in i), float(val)))
        # distances of different pairs must also be clearly distinct or the same
        every = sorted({d for row in dists for ds in row for d in ds})
        if any(b - a < 2e-5 for a, b in zip(every, every[1:])):
            raise Discard("close distances")
        self._table = dists, neighbors
        return self._table

    @staticmethod
    def levels(dist):
        vals = np.unique(rounded(dist))
        # equal distances that are rounded differently
        return vals[np.append(True, np.diff(vals) > 1.5e-6)] if len(vals) else vals

    def max_range(self):
        dists, _ = self.neighbor_table()
        return max(d for row in dists for ds in row for d in ds)

    def finite_neighbors(self, indices, positions, shifts=None):
        """Connected pairs: dict site -> {neighbor: rounded distance}."""
        dists, _ = self.neighbor_table()
        alphas = np.asarray(indices)[:, -1].astype(int)
        diff = positions[:, None, :] - positions[None, :, :]
        return self.connected(np.sqrt((diff**2).sum(axis=-1)), alphas)

    def connected(self, dist, alphas):
        """Mask and rounded distances of connected pairs of a distance matrix."""
        dists, _ = self.neighbor_table()
        values = rounded(dist)
        mask = np.zeros(dist.shape, dtype=bool)
        for a in range(self.num):
            for b in range(self.num):
                if dists[a][b]:
                    pair = (alphas[:, None] == a) & (alphas[None, :] == b)
                    level = np.zeros_like(mask)
                    for d in dists[a][b]:
                        level |= np.abs(dist - d) < 2e-6
                    mask |= pair & level
        mask &= dist > 1e-7
        return mask, values


def rounded(dist):
    """Rounds distances, values on the boundary are first freed from numerical noise."""
    return np.round(np.round(dist, DEC + 3), DEC)


def check_levels(dist, levels):
    """Discard if the rounding of the distances is ambiguous."""
    if np.any(np.diff(levels) < 2e-5):
        raise Discard("close distances")
    for d in levels:
        near = dist[np.abs(dist - d) < 1e-5]
        if near.max() - near.min() > 1e-9:
            raise Discard("close distances")
        if rounded(near.min() - 1e-10) != rounded(near.max() + 1e-10):
            raise Discard("rounding boundary")


def make_structure(lp, spec, cls=None):
    """Configure a lattice through the public interface."""
    cls = cls or lp.Lattice
    vecs = spec["vectors"]
    latt = cls(np.array(vecs))
    pos = arr([a["frac"] for a in spec["atoms"]]) @ arr(vecs)
    for p, a in zip(pos, spec["atoms"]):
        latt.add_atom(p, a["name"])
    n = len(spec["atoms"])
    for i in range(n):
        for j in range(i, n):
            if spec["cons"][i][j]:
                latt.add_connection(i, j, spec["cons"][i][j])
    latt.analyze()
    return latt
