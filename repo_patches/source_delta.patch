From 1381872570da79e145dd476c465d4049b1fd6afc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:13:44 +0000
Subject: [PATCH 01/67] fix: don't pass min_negative as the tolerance of the
 reciprocal vectors

With the default min_negative=False the tolerance was 0, so the reciprocal
lattice and Brillouin zone of left-handed bases kept the wrong sign.
---
 lattpy/basis.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lattpy/basis.py b/lattpy/basis.py
index 158ee6a..2524649 100644
--- a/lattpy/basis.py
+++ b/lattpy/basis.py
@@ -480,7 +480,7 @@ class LatticeBasis:
         [[6.28318531 0.        ]
          [0.         6.28318531]]
         """
-        rvecs = self.reciprocal_vectors(min_negative)
+        rvecs = self.reciprocal_vectors()
         rlatt = self.__class__(rvecs)
         return rlatt
 
@@ -569,7 +569,7 @@ class LatticeBasis:
         ws_cell : WignerSeitzCell
             The Wigner-Seitz cell of the reciprocal lattice.
         """
-        rvecs = self.reciprocal_vectors(min_negative)
+        rvecs = self.reciprocal_vectors()
         rlatt = self.__class__(rvecs)
         return rlatt.wigner_seitz_cell()
 
-- 
2.43.0


From 2f52f5d1f302e0fd664889a411e1c3989ba03154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:13:44 +0000
Subject: [PATCH 02/67] fix: check the off-diagonal dot-products in
 is_reciprocal

---
 lattpy/basis.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/lattpy/basis.py b/lattpy/basis.py
index 2524649..b4be0c0 100644
--- a/lattpy/basis.py
+++ b/lattpy/basis.py
@@ -382,11 +382,8 @@ class LatticeBasis:
             Flag if the vectors are reciprocal to the lattice basis vectors.
         """
         vecs = np.atleast_2d(vecs)
-        two_pi = 2 * np.pi
-        for a, b in zip(self.vectors, vecs):
-            if abs(np.dot(a, b) - two_pi) > tol:
-                return False
-        return True
+        dots = np.dot(self.vectors, vecs.T)
+        return bool(np.all(np.abs(dots - 2 * np.pi * np.eye(self.dim)) <= tol))
 
     def reciprocal_vectors(
         self, tol: float = RVEC_TOLERANCE, check: bool = False
-- 
2.43.0


From 934b70f20b298cfba1455815d3eb7b31a49ff458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:13:44 +0000
Subject: [PATCH 03/67] fix: copy the basis vectors passed to LatticeBasis

---
 lattpy/basis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lattpy/basis.py b/lattpy/basis.py
index b4be0c0..e59a690 100644
--- a/lattpy/basis.py
+++ b/lattpy/basis.py
@@ -92,7 +92,7 @@ class LatticeBasis:
         if isinstance(basis, LatticeBasis):
             basis = basis.vectors
         # Vector basis
-        self._vectors = np.atleast_2d(basis).T
+        self._vectors = np.array(basis, ndmin=2).T
         self._vectors_inv = np.linalg.inv(self._vectors)
         self._dim = len(self._vectors)
         self._cell_size = cell_size(self.vectors)
-- 
2.43.0


From c7014294b3e231bd35e648beee0838b6bf582344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:13:44 +0000
Subject: [PATCH 04/67] fix: include the origin in the cell size of negative
 basis vectors

---
 lattpy/spatial.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lattpy/spatial.py b/lattpy/spatial.py
index da3f52e..2dd179f 100644
--- a/lattpy/spatial.py
+++ b/lattpy/spatial.py
@@ -236,6 +236,7 @@ def cell_size(vectors: ArrayLike) -> np.ndarray:
     """
     max_values = np.max(vectors, axis=0)
     min_values = np.min(vectors, axis=0)
+    max_values[max_values < 0] = 0
     min_values[min_values > 0] = 0
     return max_values - min_values
 
-- 
2.43.0


From 09dca5c52476bbad818323c9ded4b5bdcd6b5e5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:13:44 +0000
Subject: [PATCH 05/67] fix: compute WignerSeitzCell.size along the correct
 axis

---
 lattpy/spatial.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lattpy/spatial.py b/lattpy/spatial.py
index 2dd179f..3fe8b64 100644
--- a/lattpy/spatial.py
+++ b/lattpy/spatial.py
@@ -464,7 +464,7 @@ class WignerSeitzCell(VoronoiTree):
 
     @property
     def size(self):
-        return self.limits[1] - self.limits[0]
+        return self.limits[:, 1] - self.limits[:, 0]
 
     def check(self, points):
         cells = np.asarray(self.query(points)[1])
-- 
2.43.0


From 7f5e9822e3faf37067d4441bdae7b1a083d748ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:13:44 +0000
Subject: [PATCH 06/67] fix: rotate about the x-axis for thetax

---
 lattpy/spatial.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lattpy/spatial.py b/lattpy/spatial.py
index 3fe8b64..c1304c2 100644
--- a/lattpy/spatial.py
+++ b/lattpy/spatial.py
@@ -559,7 +559,7 @@ def rot(
     if thetay:
         r = np.dot(r, ry(thetay))
     if thetax:
-        r = np.dot(r, rz(thetax))
+        r = np.dot(r, rx(thetax))
     return r
 
 
-- 
2.43.0


From 8fc4ec58ecd8c876b4c840fe508126f33b62cf11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:13:44 +0000
Subject: [PATCH 07/67] fix: prevent integer overflow of the grid size in
 vindices

---
 lattpy/spatial.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lattpy/spatial.py b/lattpy/spatial.py
index c1304c2..52bef19 100644
--- a/lattpy/spatial.py
+++ b/lattpy/spatial.py
@@ -154,7 +154,8 @@ def vindices(
 
     # version 3:
     size = limits[:, 1] - limits[:, 0]
-    nvecs = np.indices(size, dtype=dtype).reshape(dim, -1).T + limits[:, 0]
+    nvecs = np.indices(size, dtype=np.int64).reshape(dim, -1).T + limits[:, 0]
+    nvecs = nvecs.astype(dtype)
 
     # Optionally sort indices along given axis
     if sort_axis is not None:
-- 
2.43.0


From 345fd249f8bffbad6883bd6c6959b06ad89807a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:13:44 +0000
Subject: [PATCH 08/67] fix: prevent integer overflow of num_neighbors

---
 lattpy/structure.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lattpy/structure.py b/lattpy/structure.py
index 62c1b9f..490bfcb 100644
--- a/lattpy/structure.py
+++ b/lattpy/structure.py
@@ -597,7 +597,7 @@ class LatticeStructure(LatticeBasis):
         max_num_distances = len(unique_distances)
 
         # Compute number of neighbors for each atom in the unit cell
-        num_neighbors = np.zeros(self.num_base, dtype=np.int8)
+        num_neighbors = np.zeros(self.num_base, dtype=np.int64)
         for i, neighbors in enumerate(base_neighbors):
             num_neighbors[i] = sum(len(indices) for indices in neighbors.values())
 
-- 
2.43.0


From 233c5d8fcc2a34a40e45456e166dba8c6675857a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:13:44 +0000
Subject: [PATCH 09/67] fix: allow adding atoms after the lattice has been
 analyzed

---
 lattpy/structure.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lattpy/structure.py b/lattpy/structure.py
index 490bfcb..b75e010 100644
--- a/lattpy/structure.py
+++ b/lattpy/structure.py
@@ -251,7 +251,7 @@ class LatticeStructure(LatticeBasis):
             atom = Atom(atom, **kwargs)
 
         self._atoms.append(atom)
-        self._positions.append(np.asarray(pos))
+        self._positions = [*self._positions, np.asarray(pos)]
 
         # Update number of base atoms if data is valid
         num_base = len(self._atoms)
-- 
2.43.0


From bcd278ef3ca26f50c7350028aff56981ef2dded8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:13:44 +0000
Subject: [PATCH 10/67] fix: include the zero vector in the neighbor vectors of
 offset atoms

---
 lattpy/structure.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lattpy/structure.py b/lattpy/structure.py
index b75e010..e48f7f4 100644
--- a/lattpy/structure.py
+++ b/lattpy/structure.py
@@ -848,7 +848,7 @@ class LatticeStructure(LatticeBasis):
         pos0 = self._positions[alpha]
         pos1 = self.get_neighbor_positions(alpha=alpha, distidx=distidx)
         if include_zero:
-            pos1 = np.append(np.zeros((1, self.dim)), pos1, axis=0)
+            pos1 = np.append(pos0[np.newaxis, :], pos1, axis=0)
         vecs = pos1 - pos0
         logger.debug("Neighbour-vectors: %s", vecs)
 
-- 
2.43.0


From e61dc13c092a7327e4f987aac0e4ef3875107d73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:13:52 +0000
Subject: [PATCH 11/67] fix: get_base_atom_dict of one-dimensional lattices

---
 lattpy/structure.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lattpy/structure.py b/lattpy/structure.py
index e48f7f4..8a8d37f 100644
--- a/lattpy/structure.py
+++ b/lattpy/structure.py
@@ -907,7 +907,7 @@ class LatticeStructure(LatticeBasis):
         atom_pos = dict()
         for atom, pos in zip(self._atoms, self._positions):
             if atleast2d and self.dim == 1:
-                pos = np.array([pos, 0])
+                pos = np.append(pos, 0)
 
             if atom.name in atom_pos.keys():
                 atom_pos[atom].append(pos)
-- 
2.43.0


From 5a173f3598d234466818eef8bffc386ec3e0be3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:13:52 +0000
Subject: [PATCH 12/67] fix: format configuration errors without a hint

---
 lattpy/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lattpy/utils.py b/lattpy/utils.py
index daebe60..9e62ff8 100644
--- a/lattpy/utils.py
+++ b/lattpy/utils.py
@@ -62,10 +62,10 @@ class ConfigurationError(LatticeError):
 
     @property
     def hint(self):
-        return self.args[1]
+        return self.args[1] if len(self.args) > 1 else ""
 
     def __str__(self):
-        msg, hint = self.args
+        msg, hint = self.msg, self.hint
         if hint:
             msg += f" ({hint})"
         return msg
-- 
2.43.0


From 9a5729504b7e7af88e4b597e027762f1b4174cac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:13:52 +0000
Subject: [PATCH 13/67] fix: pass the grid visibility as positional argument

The keyword 'b' was removed from matplotlib's Axes.grid.
---
 lattpy/basis.py     | 2 +-
 lattpy/disptools.py | 6 +++---
 lattpy/lattice.py   | 2 +-
 lattpy/structure.py | 2 +-
 4 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/lattpy/basis.py b/lattpy/basis.py
index e59a690..a920b02 100644
--- a/lattpy/basis.py
+++ b/lattpy/basis.py
@@ -682,7 +682,7 @@ class LatticeBasis:
         # Configure grid
         if grid and self.dim < 3:
             ax.set_axisbelow(True)
-            ax.grid(b=True, which="major")
+            ax.grid(True, which="major")
         # Adjust margin
         if isinstance(margins, float):
             margins = [margins] * self.dim
diff --git a/lattpy/disptools.py b/lattpy/disptools.py
index c94c6f1..be95d47 100644
--- a/lattpy/disptools.py
+++ b/lattpy/disptools.py
@@ -67,7 +67,7 @@ def bandpath_subplots(ticks, labels, xlabel="$k$", ylabel="$E(k)$", grid="both")
         if not isinstance(grid, str):
             grid = "both"
         ax.set_axisbelow(True)
-        ax.grid(b=True, which="major", axis=grid)
+        ax.grid(True, which="major", axis=grid)
     return fig, ax
 
 
@@ -143,9 +143,9 @@ def disp_dos_subplots(
     ax2.set_xticks([0])
     if grid:
         ax1.set_axisbelow(True)
-        ax1.grid(b=True, which="major", axis=grid)
+        ax1.grid(True, which="major", axis=grid)
         ax2.set_axisbelow(True)
-        ax2.grid(b=True, which="major", axis=grid)
+        ax2.grid(True, which="major", axis=grid)
     return fig, axs
 
 
diff --git a/lattpy/lattice.py b/lattpy/lattice.py
index e6f2930..25d3dc1 100644
--- a/lattpy/lattice.py
+++ b/lattpy/lattice.py
@@ -1262,7 +1262,7 @@ class Lattice(LatticeStructure):
         # Configure grid
         if grid and self.dim < 3:
             ax.set_axisbelow(True)
-            ax.grid(b=True, which="major")
+            ax.grid(True, which="major")
         # Adjust margin
         if isinstance(margins, float):
             margins = [margins] * self.dim
diff --git a/lattpy/structure.py b/lattpy/structure.py
index 8a8d37f..14c3ee3 100644
--- a/lattpy/structure.py
+++ b/lattpy/structure.py
@@ -1535,7 +1535,7 @@ class LatticeStructure(LatticeBasis):
         # Configure grid
         if grid and self.dim < 3:
             ax.set_axisbelow(True)
-            ax.grid(b=True, which="major")
+            ax.grid(True, which="major")
         # Adjust margin
         if isinstance(margins, float):
             margins = [margins] * self.dim
-- 
2.43.0


From 29206ebf1f77ed2f6f5c00ed40300850ca76c20e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:13:52 +0000
Subject: [PATCH 14/67] fix: check all distance levels of the lattice data in
 check_neighbors

---
 lattpy/lattice.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lattpy/lattice.py b/lattpy/lattice.py
index 25d3dc1..cd0b956 100644
--- a/lattpy/lattice.py
+++ b/lattpy/lattice.py
@@ -383,8 +383,8 @@ class Lattice(LatticeStructure):
         distidx : int or None
             The distance index of the two sites if they are neighbors.
         """
-        for distidx in range(self.num_distances):
-            if idx1 in self.neighbors(idx0, distidx):
+        for distidx, neighbors in self.iter_neighbors(idx0):
+            if idx1 in neighbors:
                 return distidx
         return None
 
-- 
2.43.0


From 46c747c2eff721d2009c4283f9595ca2c1485784 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:13:52 +0000
Subject: [PATCH 15/67] fix: shape of the adjacency matrix of lattices with
 isolated sites

---
 lattpy/lattice.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lattpy/lattice.py b/lattpy/lattice.py
index cd0b956..8eeebc4 100644
--- a/lattpy/lattice.py
+++ b/lattpy/lattice.py
@@ -1086,7 +1086,8 @@ class Lattice(LatticeStructure):
         pairs, distindices = self.neighbor_pairs(unique=False)
         rows, cols = pairs.T  # noqa
         data = distindices + 1
-        return csr_matrix((data, (rows, cols)), dtype=np.int8)
+        shape = self.num_sites, self.num_sites
+        return csr_matrix((data, (rows, cols)), shape=shape, dtype=np.int8)
 
     # ==================================================================================
 
-- 
2.43.0


From bb286d2ee45d5cd54b6625ea8adf69e1a9fe7ff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:17:24 +0000
Subject: [PATCH 16/67] fix: apply the tolerance to both bounds in check_points

The tolerance of the upper bound was lost, so that sites on the upper edge
could be dropped because of rounding errors. For relative shapes the bounds
were not the ones used for building the lattice and the shape passed by the
caller was modified in place.
---
 lattpy/structure.py | 19 ++++---------------
 1 file changed, 4 insertions(+), 15 deletions(-)

diff --git a/lattpy/structure.py b/lattpy/structure.py
index 14c3ee3..e0700ce 100644
--- a/lattpy/structure.py
+++ b/lattpy/structure.py
@@ -42,7 +42,7 @@ from .plotting import (
 )
 from .spatial import vindices, interweave, KDTree
 from .atom import Atom
-from .shape import AbstractShape
+from .shape import AbstractShape, Shape
 from .basis import basis_t, LatticeBasis
 
 logger = logging.getLogger(__name__)
@@ -953,26 +953,15 @@ class LatticeStructure(LatticeBasis):
         >>> latt.check_points(points, shape)
         [ True  True False]
         """
-        if isinstance(shape, AbstractShape):
-            return shape.contains(points, tol)
-        else:
+        if not isinstance(shape, AbstractShape):
             shape = np.atleast_1d(shape)
             if len(shape) != self.dim:
                 raise ValueError(
                     f"Dimension of shape {len(shape)} doesn't "
                     f"match the dimension of the lattice {self.dim}"
                 )
-            if relative:
-                shape += np.max(self.vectors, axis=0) - 0.1 * self.norms
-
-            pos = np.zeros(self.dim) if pos is None else np.array(pos, dtype=np.float64)
-            pos -= tol
-            end = pos + shape + tol
-
-            mask = (pos[0] <= points[:, 0]) & (points[:, 0] <= end[0])
-            for i in range(1, self.dim):
-                mask = mask & (pos[i] <= points[:, i]) & (points[:, i] <= end[i])
-            return mask
+            shape = Shape(shape, pos, basis=self.vectors if relative else None)
+        return shape.contains(points, tol)
 
     def build_translation_vectors(
         self,
-- 
2.43.0


From a929eb505b21a684ad4139e0de9144c1cbec98ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:17:24 +0000
Subject: [PATCH 17/67] fix: build all translation vectors that reach into the
 shape

The estimated limits of the translation vectors ignored the position of the
shape for all but two corners, the positions of the atoms in the unit cell and
rounding errors, and scaled shape objects a second time if primitive is set.
Sites of the finite lattice were missing in these cases.
---
 lattpy/lattice.py   |  3 ++-
 lattpy/structure.py | 42 ++++++++++++++++++------------------------
 2 files changed, 20 insertions(+), 25 deletions(-)

diff --git a/lattpy/lattice.py b/lattpy/lattice.py
index 8eeebc4..ec69d17 100644
--- a/lattpy/lattice.py
+++ b/lattpy/lattice.py
@@ -446,6 +446,7 @@ class Lattice(LatticeStructure):
             Raised if the lattice distances and base-neighbors haven't been computed.
         """
         self.data.reset()
+        primitive_shape = primitive and not isinstance(shape, AbstractShape)
         if not isinstance(shape, AbstractShape):
             basis = self.vectors if primitive else None
             shape = Shape(shape, pos=pos, basis=basis)
@@ -458,7 +459,7 @@ class Lattice(LatticeStructure):
 
         # Build indices and positions
         indices, positions = self.build_indices(
-            shape, primitive, pos, check, callback, dtype, return_pos=True
+            shape, primitive_shape, pos, check, callback, dtype, return_pos=True
         )
 
         # Compute the neighbors and distances between the sites
diff --git a/lattpy/structure.py b/lattpy/structure.py
index e0700ce..968f865 100644
--- a/lattpy/structure.py
+++ b/lattpy/structure.py
@@ -1021,36 +1021,30 @@ class LatticeStructure(LatticeBasis):
          [2 2]]
         """
         # Build lattice indices
-        if isinstance(shape, AbstractShape):
-            pos, stop = shape.limits().T
-            shape = stop - pos
-        shape = np.atleast_1d(shape)
-        if len(shape) != self.dim:
+        if not isinstance(shape, AbstractShape):
+            shape = np.atleast_1d(shape)
+            shape = Shape(shape, pos, basis=self.vectors if primitive else None)
+        if shape.dim != self.dim:
             raise ValueError(
-                f"Dimension of shape {len(shape)} doesn't "
+                f"Dimension of shape {shape.dim} doesn't "
                 f"match the dimension of the lattice {self.dim}"
             )
         logger.debug("Building nvecs: %s at %s", shape, pos)
 
-        if primitive:
-            shape = np.array(shape) * np.max(self.vectors, axis=0) - 0.1 * self.norms
-        if pos is None:
-            pos = np.zeros(self.dim)
-        end = pos + shape
-
         # Estimate the maximum needed translation vector to reach all points
-        max_nvecs = np.array(
-            [self.itranslate(pos)[0], self.itranslate(end)[0]], dtype=np.float64
-        )
-        for i in range(1, self.dim):
-            for idx in itertools.combinations(range(self.dim), r=i):
-                _pos = end.copy()
-                _pos[np.array(idx)] = 0
-                index = self.itranslate(_pos)[0]
-                max_nvecs[0] = np.min([index, max_nvecs[0]], axis=0)
-                max_nvecs[1] = np.max([index, max_nvecs[1]], axis=0)
+        # by translating all atoms to the corners of the bounding box of the shape
+        limits = np.array(shape.limits(), dtype=np.float64)
+        if primitive:
+            # Don't reach the cells starting at the upper edge of the box
+            limits[:, 1] -= 1e-3 * self.norms
+        else:
+            limits += [-1e-3, +1e-3]
+        corners = np.array(list(itertools.product(*limits)))
+        points = [corners] + [corners - r for r in self.atom_positions]
+        coords = self.itransform(np.concatenate(points, axis=0))
+        max_nvecs = np.floor([np.min(coords, axis=0), np.max(coords, axis=0)])
         # Pad maximum translation vectors and create index limits
-        padding = oversample * shape + 1
+        padding = oversample * (limits[:, 1] - limits[:, 0]) + 1
         max_nvecs += [-padding, +padding]
         limits = max_nvecs.astype(np.int64).T
         logger.debug("Limits: %s, %s", limits[:, 0], limits[:, 1])
@@ -1062,7 +1056,7 @@ class LatticeStructure(LatticeBasis):
             logger.debug("Filtering nvec's")
             # Filter points in the given volume
             positions = np.dot(nvecs, self.vectors[np.newaxis, :, :])[:, 0, :]
-            mask = self.check_points(positions, shape, primitive, pos)
+            mask = self.check_points(positions, shape)
             nvecs = nvecs[mask]
         return nvecs
 
-- 
2.43.0


From 210373a5ffbbca534d24bfed1ac9f180cb91f5c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:20:11 +0000
Subject: [PATCH 18/67] fix: search all cells that can contain neighbors when
 analyzing the lattice

The searched cells were limited by an index-based heuristic, which missed
neighbors in skewed or strongly anisotropic unit cells and for atoms placed
outside of the unit cell.
---
 lattpy/structure.py | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/lattpy/structure.py b/lattpy/structure.py
index 968f865..e71dc5a 100644
--- a/lattpy/structure.py
+++ b/lattpy/structure.py
@@ -447,17 +447,29 @@ class LatticeStructure(LatticeBasis):
         if analyze:
             self.analyze()
 
+    def _get_cells(self, max_dist):
+        # Indices of all cells with sites closer than `max_dist` to the sites of the
+        # cell at the origin, starting with the origin
+        positions = np.asarray(self._positions)
+        diff = positions[:, np.newaxis, :] - positions[np.newaxis, :, :]
+        radius = max_dist + np.max(np.linalg.norm(diff, axis=-1))
+        num = np.floor(radius * np.linalg.norm(self._vectors_inv, axis=1)).astype(int)
+        nvecs = vindices(np.array([-num, num + 1]).T)
+        dists = np.linalg.norm(self.translate(nvecs), axis=1)
+        nvecs = nvecs[(0 < dists) & (dists <= radius)].astype(np.int64)
+        return np.append(np.zeros((1, self.dim), dtype=np.int64), nvecs, axis=0)
+
     def _compute_base_neighbors(self, max_distidx, num_jobs=1):
         logger.debug("Building indices of neighbor-cells")
 
         # Build indices of neighbor-cells
         self._positions = np.asarray(self._positions)
-        cell_range = 2 * max_distidx
-        logger.debug("Max. distidx: %i, Cell-range: %i", max_distidx, cell_range)
+        # Every atom can be translated into the cell around any other atom. From there
+        # the next distances are reached by moving along the shortest basis vector.
+        max_dist = np.sum(self.norms) / 2 + 2 * max_distidx * np.min(self.norms)
+        nvecs = self._get_cells(max_dist)
+        logger.debug("Max. distidx: %i, Max. dist: %f", max_distidx, max_dist)
 
-        nvecs = self.get_neighbor_cells(
-            cell_range, include_origin=True, comparison=np.less_equal
-        )
         arrays = [
             np.c_[nvecs, i * np.ones(nvecs.shape[0])] for i in range(self.num_base)
         ]
-- 
2.43.0


From 114fb4e93705ae1254d935db4ab13a1cb97ad2ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:20:42 +0000
Subject: [PATCH 19/67] fix: query enough neighbors to reach all configured
 distances

The number of queried neighbors was derived from the number of neighbors of each
atom pair, which is too small if sites of other pairs are closer than the longest
configured distance. Neighbors were missing in the lattice data in these cases.
---
 lattpy/lattice.py   |  9 +++------
 lattpy/structure.py | 17 ++++++++++++++---
 2 files changed, 17 insertions(+), 9 deletions(-)

diff --git a/lattpy/lattice.py b/lattpy/lattice.py
index ec69d17..606dc04 100644
--- a/lattpy/lattice.py
+++ b/lattpy/lattice.py
@@ -562,8 +562,7 @@ class Lattice(LatticeStructure):
     def kdtree(self, positions=None, eps=0.0, boxsize=None):
         if positions is None:
             positions = self.data.positions
-        k = np.sum(np.sum(self._raw_num_neighbors, axis=1)) + 1
-        max_dist = np.max(self.distances) + 0.1 * np.min(self._raw_distance_matrix)
+        k, max_dist = self._get_query_params()
         return KDTree(positions, k, max_dist, eps=eps, boxsize=boxsize)
 
     def _compute_pneighbors(
@@ -577,8 +576,7 @@ class Lattice(LatticeStructure):
         invald_idx = len(indices)
 
         # Build tree
-        k = np.sum(np.sum(self._raw_num_neighbors, axis=1)) + 1
-        max_dist = np.max(self.distances) + 0.1 * np.min(self._raw_distance_matrix)
+        k, max_dist = self._get_query_params()
         tree = KDTree(positions, k, max_dist)
 
         # Initialize arrays
@@ -703,8 +701,7 @@ class Lattice(LatticeStructure):
 
     def _compute_connection_neighbors(self, positions1, positions2):
         # Set neighbor query parameters
-        k = np.sum(np.sum(self._raw_num_neighbors, axis=1)) + 1
-        max_dist = np.max(self.distances) + 0.1 * np.min(self._raw_distance_matrix)
+        k, max_dist = self._get_query_params()
 
         # Build sub-lattice tree's
         tree1 = KDTree(positions1, k=k, max_dist=max_dist)
diff --git a/lattpy/structure.py b/lattpy/structure.py
index e71dc5a..02e3710 100644
--- a/lattpy/structure.py
+++ b/lattpy/structure.py
@@ -40,7 +40,7 @@ from .plotting import (
     draw_unit_cell,
     connection_color_array,
 )
-from .spatial import vindices, interweave, KDTree
+from .spatial import distances, vindices, interweave, KDTree
 from .atom import Atom
 from .shape import AbstractShape, Shape
 from .basis import basis_t, LatticeBasis
@@ -1188,6 +1188,18 @@ class LatticeStructure(LatticeBasis):
         logger.debug("Created %i lattice sites", len(indices))
         return indices, positions if return_pos else None
 
+    def _get_query_params(self):
+        # The maximum number of sites (including the site itself) in the range of the
+        # configured distances for querying all neighbors
+        max_dist = np.max(self.distances) + 0.1 * np.min(self._raw_distance_matrix)
+        positions = np.asarray(self._positions)
+        nvecs = self._get_cells(max_dist)
+        points = np.concatenate([self.translate(nvecs, r) for r in positions], axis=0)
+        # Tolerance for sites on the boundary of the search radius
+        radius = max_dist * (1 + 1e-6)
+        k = max(np.sum(distances(points, r) <= radius) for r in positions)
+        return int(k), max_dist
+
     def _filter_neighbors(self, indices, neighbors, distances, x_ind=None):
         logger.debug("Filtering neighbors")
 
@@ -1306,8 +1318,7 @@ class LatticeStructure(LatticeBasis):
         logger.debug("Querying neighbors of %i points", len(positions))
 
         # Set neighbor query parameters and build tree
-        k = np.sum(np.sum(self._raw_num_neighbors, axis=1)) + 1
-        max_dist = np.max(self.distances) + 0.1 * np.min(self._raw_distance_matrix)
+        k, max_dist = self._get_query_params()
         tree = KDTree(positions, k=k, max_dist=max_dist)
         logger.debug("Max. number of neighbors: %i", k)
         logger.debug("Max. neighbor distance:   %f", max_dist)
-- 
2.43.0


From bc09e3f7dd6faa59d6c0fccc92dade89b3bfb6a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:20:42 +0000
Subject: [PATCH 20/67] fix: keep a column of invalid neighbors if all sites
 are fully connected

If the only invalid neighbors were removed with the invalid columns, the largest
distance was used as the invalid distance, and its neighbors were dropped.
---
 lattpy/structure.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/lattpy/structure.py b/lattpy/structure.py
index 02e3710..ddaf1e9 100644
--- a/lattpy/structure.py
+++ b/lattpy/structure.py
@@ -1230,6 +1230,11 @@ class LatticeStructure(LatticeBasis):
         neighbors = neighbors[i, j]
         num_sites = len(neighbors)
 
+        # Remove columns containing only invalid data
+        all_valid = np.any(distances != np.inf, axis=0)
+        distances = distances[:, all_valid]
+        neighbors = neighbors[:, all_valid]
+
         if not np.any(distances == np.inf):
             # No invalid entries found. This usually happens for (2, 2, ..) systems
             # which results in a bug for the neighbor data:
@@ -1242,11 +1247,6 @@ class LatticeStructure(LatticeBasis):
             shape = num_sites, 1
             neighbors = np.append(neighbors, np.full(shape, invalid_ind), axis=1)
             distances = np.append(distances, np.full(shape, np.inf), axis=1)
-        else:
-            # Remove columns containing only invalid data
-            all_valid = np.any(distances != np.inf, axis=0)
-            distances = distances[:, all_valid]
-            neighbors = neighbors[:, all_valid]
 
         return neighbors, distances
 
-- 
2.43.0


From a5cac0db93950d242da02722964b50ab3c8c3586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:20:42 +0000
Subject: [PATCH 21/67] fix: reset the cached data map if the neighbor data
 changes

---
 lattpy/data.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lattpy/data.py b/lattpy/data.py
index 4d5651d..7d4966e 100644
--- a/lattpy/data.py
+++ b/lattpy/data.py
@@ -350,6 +350,7 @@ class LatticeData:
         self.neighbors = neighbors
         self.distances = distances
         self.invalid_idx = num_sites
+        self._dmap = None
 
     def get_limits(self) -> np.ndarray:
         """Computes the geometric limits of the positions of the stored sites.
@@ -451,6 +452,7 @@ class LatticeData:
         """
         # remove previous periodic neighbors
         self.remove_periodic()
+        self._dmap = None
         # Set new periodic neighbors
         for i, pidx in indices.items():
             # compute invalid slots of normal data
@@ -485,6 +487,7 @@ class LatticeData:
         for new, old in enumerate(indices):
             mask = old_neighbors == old
             self.neighbors[mask] = new
+        self._dmap = None
 
     def remove_periodic(self):
         mask = self.pmask
@@ -493,6 +496,7 @@ class LatticeData:
         self.pnvecs.fill(0)
         self.pmask.fill(0)
         self.paxes.fill(self.dim)
+        self._dmap = None
 
     def sort_neighbors(self):
         distances = self.distvals[self.distances]
@@ -503,6 +507,7 @@ class LatticeData:
         self.paxes = self.paxes[i, j]
         self.pnvecs = self.pnvecs[i, j]
         self.pmask = self.pmask[i, j]
+        self._dmap = None
 
     def add_neighbors(self, site, neighbors, distances):
         neighbors = np.atleast_2d(neighbors)
@@ -515,6 +520,7 @@ class LatticeData:
         # Add new neighbor data to unused slots
         self.neighbors[site, i0:i1] = neighbors
         self.distances[site, i0:i1] = distidx
+        self._dmap = None
 
     def append(self, *args, copy=False):
         neighbors1 = self.neighbors.copy()
-- 
2.43.0


From fa35d709cc4f65b8439158e1b1f39c90f796d2eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:20:42 +0000
Subject: [PATCH 22/67] fix: hash lattices that have not been built

---
 lattpy/lattice.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lattpy/lattice.py b/lattpy/lattice.py
index 606dc04..b127632 100644
--- a/lattpy/lattice.py
+++ b/lattpy/lattice.py
@@ -1115,6 +1115,7 @@ class Lattice(LatticeStructure):
         """
         lines = list()
         for key, values in self.todict().items():
+            values = () if values is None else values
             head = key + ":"
             lines.append(f"{head:<15}" + "; ".join(str(x) for x in values))
         return "\n".join(lines)
-- 
2.43.0


From 38d92feea45c689b94de50bc5753bfd704278f57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:20:42 +0000
Subject: [PATCH 23/67] fix: copy the connections in fromdict

---
 lattpy/structure.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lattpy/structure.py b/lattpy/structure.py
index ddaf1e9..bc1b6e8 100644
--- a/lattpy/structure.py
+++ b/lattpy/structure.py
@@ -1366,7 +1366,7 @@ class LatticeStructure(LatticeBasis):
         self = cls(d["vectors"])
         for pos, at in zip(d["positions"], d["atoms"]):
             self.add_atom(pos, at)
-        self._connections = d["connections"]
+        self._connections = np.array(d["connections"])
         self.analyze()
         return self
 
-- 
2.43.0


From dd8f849b825349c0d043ee6344191ba4d7b9ba2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:21:19 +0000
Subject: [PATCH 24/67] fix: hash lattice structures without atoms

---
 lattpy/structure.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lattpy/structure.py b/lattpy/structure.py
index bc1b6e8..2bd0b52 100644
--- a/lattpy/structure.py
+++ b/lattpy/structure.py
@@ -1380,6 +1380,7 @@ class LatticeStructure(LatticeBasis):
         """
         lines = list()
         for key, values in self.todict().items():
+            values = () if values is None else values
             head = key + ":"
             lines.append(f"{head:<15}" + "; ".join(str(x) for x in values))
         return "\n".join(lines)
-- 
2.43.0


From c62ec4c9e371dec88f31238281d3c9f7e66de286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:21:19 +0000
Subject: [PATCH 25/67] fix: remove the periodic neighbor data of removed sites

---
 lattpy/data.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/lattpy/data.py b/lattpy/data.py
index 7d4966e..e78a150 100644
--- a/lattpy/data.py
+++ b/lattpy/data.py
@@ -331,12 +331,17 @@ class LatticeData:
         positions = np.delete(self.positions, sites, axis=0)
         neighbors = np.delete(self.neighbors, sites, axis=0)
         distances = np.delete(self.distances, sites, axis=0)
+        paxes = np.delete(self.paxes, sites, axis=0)
+        pnvecs = np.delete(self.pnvecs, sites, axis=0)
+        pmask = np.delete(self.pmask, sites, axis=0)
 
         # Update neighbor indices and distances:
         # For each removed site below the neighbor index has to be decremented once
         mask = np.isin(neighbors, sites)
         neighbors[mask] = invalid_idx
         distances[mask] = invalid_distidx
+        pnvecs[mask] = 0
+        pmask[mask] = False
         for count, i in enumerate(sorted(sites)):
             neighbors[neighbors > (i - count)] -= 1
 
@@ -349,6 +354,9 @@ class LatticeData:
         self.positions = positions
         self.neighbors = neighbors
         self.distances = distances
+        self.paxes = paxes
+        self.pnvecs = pnvecs
+        self.pmask = pmask
         self.invalid_idx = num_sites
         self._dmap = None
 
-- 
2.43.0


From 6a2c6ca2e4c33982ab118775c3d8c6eac9e27fbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:21:19 +0000
Subject: [PATCH 26/67] fix: add neighbors to unused slots of the neighbor data
 only

The slots were assumed to follow the valid neighbors of a site. After removing
sites there are unused slots between the neighbors, so that valid neighbors were
overwritten. The data also wasn't extended if there are no slots left.
---
 lattpy/data.py | 48 +++++++++++++++++++++++++++++++++---------------
 1 file changed, 33 insertions(+), 15 deletions(-)

diff --git a/lattpy/data.py b/lattpy/data.py
index e78a150..a9d29da 100644
--- a/lattpy/data.py
+++ b/lattpy/data.py
@@ -441,6 +441,26 @@ class LatticeData:
             mask &= self.pmask[site] if periodic else ~self.pmask[site]
         return mask
 
+    def _free_slots(self, site, num):
+        # Returns the first unused columns of the neighbor data of a site. The data is
+        # padded with invalid columns if there are less than `num` columns left.
+        slots = np.where(self.distances[site] == self.invalid_distidx)[0]
+        missing = num - len(slots)
+        if missing > 0:
+            cols = self.neighbors.shape[1]
+            width = ((0, 0), (0, missing))
+            self.neighbors = np.pad(
+                self.neighbors, width, constant_values=self.invalid_idx
+            )
+            self.distances = np.pad(
+                self.distances, width, constant_values=self.invalid_distidx
+            )
+            self.pmask = np.pad(self.pmask, width)
+            self.paxes = np.pad(self.paxes, (*width, (0, 0)))
+            self.pnvecs = np.pad(self.pnvecs, (*width, (0, 0)))
+            slots = np.append(slots, np.arange(cols, cols + missing))
+        return slots[:num]
+
     def set_periodic(
         self, indices: dict, distances: dict, nvecs: dict, axes: dict
     ) -> None:
@@ -463,18 +483,17 @@ class LatticeData:
         self._dmap = None
         # Set new periodic neighbors
         for i, pidx in indices.items():
-            # compute invalid slots of normal data
-            i0 = len(self.get_neighbors(i, periodic=False))
-            i1 = i0 + len(pidx)
+            # find invalid slots of normal data
+            slots = self._free_slots(i, len(pidx))
             # translate distances to indices
             dists = distances[i]
             distidx = [np.searchsorted(self.distvals, d) for d in dists]
             # add periodic data
-            self.neighbors[i, i0:i1] = pidx
-            self.distances[i, i0:i1] = distidx
-            self.paxes[i, i0:i1, : axes[i].shape[1]] = axes[i]
-            self.pnvecs[i, i0:i1] = nvecs[i]
-            self.pmask[i, i0:i1] = 1
+            self.neighbors[i, slots] = pidx
+            self.distances[i, slots] = distidx
+            self.paxes[i, slots, : axes[i].shape[1]] = axes[i]
+            self.pnvecs[i, slots] = nvecs[i]
+            self.pmask[i, slots] = 1
 
     def sort(self, ax=None, indices=None, reverse=False):
         if ax is not None:
@@ -518,16 +537,15 @@ class LatticeData:
         self._dmap = None
 
     def add_neighbors(self, site, neighbors, distances):
-        neighbors = np.atleast_2d(neighbors)
-        distances = np.atleast_2d(distances)
-        # compute invalid slots of normal data
-        i0 = len(self.distances[site, self.distances[site] != self.invalid_distidx])
-        i1 = i0 + len(neighbors)
+        neighbors = np.atleast_1d(neighbors)
+        distances = np.atleast_1d(distances)
+        # find invalid slots of normal data
+        slots = self._free_slots(site, len(neighbors))
         # Translate distances to indices
         distidx = np.asarray([np.searchsorted(self.distvals, d) for d in distances])
         # Add new neighbor data to unused slots
-        self.neighbors[site, i0:i1] = neighbors
-        self.distances[site, i0:i1] = distidx
+        self.neighbors[site, slots] = neighbors
+        self.distances[site, slots] = distidx
         self._dmap = None
 
     def append(self, *args, copy=False):
-- 
2.43.0


From c0c8f09480428bd5ffc44388f83b2a182c14aeee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:21:50 +0000
Subject: [PATCH 27/67] fix: prevent integer overflow of periodic translation
 vectors

The lattice indices are stored with the smallest possible data type, which can
be too small for the size of the lattice.
---
 lattpy/data.py    | 2 +-
 lattpy/lattice.py | 1 +
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/lattpy/data.py b/lattpy/data.py
index a9d29da..1f3bdf7 100644
--- a/lattpy/data.py
+++ b/lattpy/data.py
@@ -312,7 +312,7 @@ class LatticeData:
         self.distances = distidx
         self.distvals = distvals
         self.paxes = np.zeros((*self.neighbors.shape, self.dim), dtype=np.int8)
-        self.pnvecs = np.zeros((*self.neighbors.shape, self.dim), dtype=indices.dtype)
+        self.pnvecs = np.zeros((*self.neighbors.shape, self.dim), dtype=np.int64)
         self.pmask = np.zeros_like(self.neighbors, dtype=bool)
 
         self.invalid_idx = self.num_sites
diff --git a/lattpy/lattice.py b/lattpy/lattice.py
index b127632..2a2e3d9 100644
--- a/lattpy/lattice.py
+++ b/lattpy/lattice.py
@@ -507,6 +507,7 @@ class Lattice(LatticeStructure):
         else:
             # Get index limits
             limits = np.array([np.min(indices, axis=0), np.max(indices, axis=0)])
+            limits = limits.astype(np.int64)
             idx_size = (limits[1] - limits[0])[:-1]
             # Get periodic translation vector from limits
             pnvec = np.zeros_like(idx_size, dtype=np.int64)
-- 
2.43.0


From 62fb49ce44dc42d1686e607ae6275e3c041d9fbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:21:50 +0000
Subject: [PATCH 28/67] fix: use all combinations of the periodic axes

Only pairs of axes were combined with incomplete signs, so that periodic
neighbors across the edges and corners of three-dimensional lattices were
missing.
---
 lattpy/lattice.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/lattpy/lattice.py b/lattpy/lattice.py
index 2a2e3d9..3c1721e 100644
--- a/lattpy/lattice.py
+++ b/lattpy/lattice.py
@@ -535,18 +535,20 @@ class Lattice(LatticeStructure):
             corresponding translation vector.
         """
         # One axis: No combinations needed
-        if isinstance(axes, int) or len(axes) == 1:
+        axes = np.atleast_1d(axes)
+        if len(axes) == 1:
             return [(axes, self._build_periodic_translation_vector(axes, primitive))]
         # Add all combinations of the periodic axis
+        vecs = [self._build_periodic_translation_vector(ax, primitive) for ax in axes]
         items = list()
-        for ax in itertools.combinations_with_replacement(axes, r=2):
-            nvec = self._build_periodic_translation_vector(ax, primitive)
-            items.append((ax, nvec))
+        for signs in itertools.product([1, 0, -1], repeat=len(axes)):
+            used = np.nonzero(signs)[0]
             # Use +/- for every axis exept the first one to ensure all corners are hit
-            if not np.all(np.array(ax) == axes[0]):
-                nvec2 = np.copy(nvec)
-                nvec2[1:] *= -1
-                items.append((ax, nvec2))
+            if len(used) and signs[used[0]] > 0:
+                nvec = np.sum([signs[i] * vecs[i] for i in used], axis=0)
+                # Repeat last axis to get the same number of axes for all combinations
+                ax = [axes[i] for i in used] + [axes[used[-1]]] * (len(axes) - len(used))
+                items.append((tuple(ax), nvec))
         return items
 
     def _build_periodic(self, indices, positions, nvec, out_ind=None, out_pos=None):
-- 
2.43.0


From f732034ad593734cc1434a3dbb5360c1adde360e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:21:50 +0000
Subject: [PATCH 29/67] fix: keep the data of periodic neighbors aligned

The sites that are already regular neighbors were only removed from the indices,
but not from the distances and translation vectors.
---
 lattpy/lattice.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/lattpy/lattice.py b/lattpy/lattice.py
index 3c1721e..3eea908 100644
--- a/lattpy/lattice.py
+++ b/lattpy/lattice.py
@@ -625,13 +625,14 @@ class Lattice(LatticeStructure):
             # This occurs for small lattices and makes no sense, since the
             # sites are already neighbors
             existing_neighbors = self.neighbors(k)
-            for _i, ind in enumerate(pi[:]):
-                if ind in existing_neighbors:
-                    pi.remove(ind)
+            # Use the closest image of each of the other periodic neighbors
+            order = np.argsort(pdists[k], kind="stable")
+            order = order[~np.isin(np.array(pi)[order], existing_neighbors)]
 
-            if len(pi):
+            if len(order):
                 # Convert to arrays
-                sites, ind = np.unique(pi, return_index=True)
+                sites, ind = np.unique(np.array(pi)[order], return_index=True)
+                ind = order[ind]
                 pidx[k] = np.array(sites)
                 pdists[k] = np.array(pdists[k])[ind]
                 paxs[k] = np.array(paxs[k])[ind]
-- 
2.43.0


From 9bc5f8dc80080c51784b454d11e0e45ce3e81081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:21:50 +0000
Subject: [PATCH 30/67] fix: update the periodic axes if the periodic neighbors
 are removed

---
 lattpy/lattice.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lattpy/lattice.py b/lattpy/lattice.py
index 3eea908..99b46e3 100644
--- a/lattpy/lattice.py
+++ b/lattpy/lattice.py
@@ -446,6 +446,7 @@ class Lattice(LatticeStructure):
             Raised if the lattice distances and base-neighbors haven't been computed.
         """
         self.data.reset()
+        self.periodic_axes = list()
         primitive_shape = primitive and not isinstance(shape, AbstractShape)
         if not isinstance(shape, AbstractShape):
             basis = self.vectors if primitive else None
@@ -697,6 +698,7 @@ class Lattice(LatticeStructure):
         else:
             self.data.remove_periodic()
             axis = np.atleast_1d(axis)
+            self.periodic_axes = list()
             pidx, pdists, pnvecs, paxs = self._compute_pneighbors(axis, primitive)
             if not pidx:
                 return
-- 
2.43.0


From 22911f48bdeabc4eca2c1e92e7c50e8f3732da11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:22:25 +0000
Subject: [PATCH 31/67] fix: don't corrupt the neighbor data when appending
 lattice data

The indices of the neighbors overflowed for small integer types, periodic
neighbors were kept as regular neighbors and the appended data was modified.
---
 lattpy/data.py | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/lattpy/data.py b/lattpy/data.py
index 1f3bdf7..db0dd10 100644
--- a/lattpy/data.py
+++ b/lattpy/data.py
@@ -549,31 +549,31 @@ class LatticeData:
         self._dmap = None
 
     def append(self, *args, copy=False):
-        neighbors1 = self.neighbors.copy()
+        neighbors1 = self.neighbors
         distances1 = self.distvals[self.distances]
+        # Remove periodic neighbors
+        invalid1 = (self.distances == self.invalid_distidx) | self.pmask
         if len(args) == 1 and isinstance(args[0], LatticeData):
             data = args[0]
             indices2 = data.indices
             positions2 = data.positions
             neighbors2 = data.neighbors
             distances2 = data.distvals[data.distances]
+            invalid2 = (data.distances == data.invalid_distidx) | data.pmask
         else:
             indices2, positions2, neighbors2, distances2 = args
-
-        # Remove periodic neighbors
-        self.remove_periodic()
-
-        # Convert invalid indices of neighbor data
-        invalid_idx = self.num_sites + len(indices2)
-        neighbors1[neighbors1 == self.invalid_idx] = invalid_idx
-        neighbors2[neighbors2 == len(indices2)] = invalid_idx
+            invalid2 = neighbors2 == len(indices2)
 
         # upgrade dtype if neccessary
-        dtype = min_dtype(np.max(neighbors2) + self.num_sites)
-        if dtype != neighbors2.dtype:
-            neighbors2 = neighbors2.astype(dtype)
-        # Shift neighbor indices
-        neighbors2[neighbors2 != invalid_idx] += self.num_sites
+        invalid_idx = self.num_sites + len(indices2)
+        dtype = min_dtype(invalid_idx, signed=False)
+        # Shift neighbor indices and convert invalid indices of neighbor data
+        neighbors1 = neighbors1.astype(dtype)
+        neighbors2 = neighbors2.astype(dtype) + dtype.type(self.num_sites)
+        neighbors1[invalid1] = invalid_idx
+        neighbors2[invalid2] = invalid_idx
+        distances1[invalid1] = np.inf
+        distances2 = np.where(invalid2, np.inf, distances2)
 
         # Pad neighbor data
         cols1 = neighbors1.shape[1]
-- 
2.43.0


From ebcccad7bd2759065a3983244cc265d9bf1bf4c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:23:16 +0000
Subject: [PATCH 32/67] fix: compute the neighbors of joined lattices with the
 configured connections

When appending sites, all pairs in range were connected, even if the atoms are
not connected, periodic neighbors were kept as regular neighbors, neighbors
were dropped or overwritten if there were no slots left and the lattice indices
overflowed for small integer types.
---
 lattpy/lattice.py | 44 +++++++++++++-------------------------------
 1 file changed, 13 insertions(+), 31 deletions(-)

diff --git a/lattpy/lattice.py b/lattpy/lattice.py
index 99b46e3..3b63bd7 100644
--- a/lattpy/lattice.py
+++ b/lattpy/lattice.py
@@ -801,18 +801,15 @@ class Lattice(LatticeStructure):
         self,
         ind,
         pos,
-        neighbors,
-        dists,
         ax=0,
         side=+1,
         sort_axis=None,
         sort_reverse=False,
         primitive=False,
+        num_jobs=1,
     ):
-        indices2 = np.copy(ind)
+        indices2 = np.array(ind, dtype=np.int64)
         positions2 = np.copy(pos)
-        neighbors2 = np.copy(neighbors)
-        distances2 = np.copy(dists)
         # Build translation vector
         indices = self.data.indices if side > 0 else indices2
         nvec = self._build_periodic_translation_vector(ax, primitive, indices)
@@ -820,20 +817,16 @@ class Lattice(LatticeStructure):
             nvec = -1 * nvec
         vec = self.translate(nvec)
 
-        # Store temporary data
-        positions1 = self.data.positions
-
         # Shift data of appended lattice
         indices2[:, :-1] += nvec
-        positions2 += vec
+        positions2 = positions2 + vec
 
-        # Append data and compute connecting neighbors
-        self.data.append(indices2, positions2, neighbors2, distances2)
-        pairs, distances_ = self._compute_connection_neighbors(positions1, positions2)
-        offset = len(positions1)
-        for (i, j), dist in zip(pairs, distances_):
-            self.data.add_neighbors(i, j + offset, dist)
-            self.data.add_neighbors(j + offset, i, dist)
+        # Append data and compute neighbors including the connecting ones
+        indices = np.append(self.data.indices, indices2, axis=0)
+        positions = np.append(self.data.positions, positions2, axis=0)
+        neighbors, dists = self.compute_neighbors(indices, positions, num_jobs)
+        self.data.set(indices, positions, neighbors, dists)
+        self.periodic_axes = list()
 
         if sort_axis is not None:
             self.data.sort(sort_axis, reverse=sort_reverse)
@@ -900,11 +893,7 @@ class Lattice(LatticeStructure):
 
         ind = latt.data.indices
         pos = latt.data.positions
-        neighbors = latt.data.neighbors
-        dists = latt.data.distvals[latt.data.distances]
-        self._append(
-            ind, pos, neighbors, dists, ax, side, sort_ax, sort_reverse, self.primitive
-        )
+        self._append(ind, pos, ax, side, sort_ax, sort_reverse, self.primitive)
 
     def extend(self, size, ax=0, side=1, num_jobs=1, sort_ax=None, sort_reverse=False):
         """Extend the lattice along an axis.
@@ -946,12 +935,9 @@ class Lattice(LatticeStructure):
         shape = np.copy(self.shape)
         shape[ax] = size
         ind, pos = self.build_indices(shape, primitive=self.primitive, return_pos=True)
-        # Compute the neighbors and distances between the sites of new section
-        neighbors, dists = self.compute_neighbors(ind, pos, num_jobs)
         # Append new section
-        self._append(
-            ind, pos, neighbors, dists, ax, side, sort_ax, sort_reverse, self.primitive
-        )
+        prim = self.primitive
+        self._append(ind, pos, ax, side, sort_ax, sort_reverse, prim, num_jobs)
 
     def repeat(self, num=1, ax=0, side=1, sort_ax=None, sort_reverse=False):
         """Repeat the lattice along an axis.
@@ -991,13 +977,9 @@ class Lattice(LatticeStructure):
         """
         ind = self.data.indices
         pos = self.data.positions
-        neighbors = self.data.neighbors
-        dists = self.data.distvals[self.data.distances]
         prim = self.primitive
         for _ in range(num):
-            self._append(
-                ind, pos, neighbors, dists, ax, side, sort_ax, sort_reverse, prim
-            )
+            self._append(ind, pos, ax, side, sort_ax, sort_reverse, prim)
 
     def dmap(self) -> DataMap:
         """DataMap : Returns the data-map of the lattice model."""
-- 
2.43.0


From c1cce02055229fa3ccb5f831aa4184d6e6735808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:23:16 +0000
Subject: [PATCH 33/67] fix: repeat lattices multiple times in the negative
 direction

---
 lattpy/lattice.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/lattpy/lattice.py b/lattpy/lattice.py
index 3b63bd7..5cefb3e 100644
--- a/lattpy/lattice.py
+++ b/lattpy/lattice.py
@@ -820,6 +820,7 @@ class Lattice(LatticeStructure):
         # Shift data of appended lattice
         indices2[:, :-1] += nvec
         positions2 = positions2 + vec
+        section = indices2, positions2
 
         # Append data and compute neighbors including the connecting ones
         indices = np.append(self.data.indices, indices2, axis=0)
@@ -833,6 +834,7 @@ class Lattice(LatticeStructure):
 
         # Update the shape of the lattice
         self._update_shape()
+        return section
 
     # noinspection PyShadowingNames
     def append(
@@ -979,7 +981,10 @@ class Lattice(LatticeStructure):
         pos = self.data.positions
         prim = self.primitive
         for _ in range(num):
-            self._append(ind, pos, ax, side, sort_ax, sort_reverse, prim)
+            section = self._append(ind, pos, ax, side, sort_ax, sort_reverse, prim)
+            if side <= 0:
+                # The next section is appended to the current one
+                ind, pos = section
 
     def dmap(self) -> DataMap:
         """DataMap : Returns the data-map of the lattice model."""
-- 
2.43.0


From 5a2132d8e9b83c8e20847d2491e84e758e6540bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:23:16 +0000
Subject: [PATCH 34/67] fix: extend lattices that are not located at the origin

The new section was always built at the origin and in cartesian size, so that it
wasn't aligned with the lattice.
---
 lattpy/lattice.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/lattpy/lattice.py b/lattpy/lattice.py
index 5cefb3e..67125e2 100644
--- a/lattpy/lattice.py
+++ b/lattpy/lattice.py
@@ -934,9 +934,14 @@ class Lattice(LatticeStructure):
         [8. 5.]
         """
         # Build indices and positions of new section
-        shape = np.copy(self.shape)
+        coords, basis = self.positions, None
+        if self.primitive:
+            coords, basis = self.itransform(self.positions), self.vectors
+        start = np.min(coords, axis=0)
+        shape = np.max(coords, axis=0) - start
         shape[ax] = size
-        ind, pos = self.build_indices(shape, primitive=self.primitive, return_pos=True)
+        section = Shape(shape, start, basis)
+        ind, pos = self.build_indices(section, return_pos=True)
         # Append new section
         prim = self.primitive
         self._append(ind, pos, ax, side, sort_ax, sort_reverse, prim, num_jobs)
-- 
2.43.0


From f5d969eeabd77524cb72de735f107601f46be683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:23:16 +0000
Subject: [PATCH 35/67] fix: only return the configured connections between two
 lattices

---
 lattpy/lattice.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/lattpy/lattice.py b/lattpy/lattice.py
index 67125e2..1283542 100644
--- a/lattpy/lattice.py
+++ b/lattpy/lattice.py
@@ -705,7 +705,7 @@ class Lattice(LatticeStructure):
             self.data.set_periodic(pidx, pdists, pnvecs, paxs)
             self.periodic_axes = axis
 
-    def _compute_connection_neighbors(self, positions1, positions2):
+    def _compute_connection_neighbors(self, positions1, positions2, alphas1, alphas2):
         # Set neighbor query parameters
         k, max_dist = self._get_query_params()
 
@@ -721,13 +721,17 @@ class Lattice(LatticeStructure):
             if conns:
                 conns = np.asarray(conns)
                 dists = cdist(np.asarray([positions1[i]]), positions2[conns])[0]
+                dists = np.round(dists, decimals=self.DIST_DECIMALS)
                 for j, dist in zip(conns, dists):
+                    # Skip sites that are not connected
+                    if dist not in self._distance_matrix[alphas1[i]][alphas2[j]]:
+                        continue
                     pairs.append((i, j))
                     # pairs.append((j, i))
                     distances_.append(dist)
                     # distances_.append(dist)
 
-        return np.array(pairs), np.array(distances_)
+        return np.array(pairs, dtype=np.int64).reshape(-1, 2), np.array(distances_)
 
     def compute_connections(self, latt):
         """Computes the connections between the current and another lattice.
@@ -747,7 +751,10 @@ class Lattice(LatticeStructure):
             The corresponding distances for the connections.
         """
         positions2 = latt.data.positions
-        return self._compute_connection_neighbors(self.data.positions, positions2)
+        alphas1, alphas2 = self.indices[:, -1], latt.indices[:, -1]
+        return self._compute_connection_neighbors(
+            self.data.positions, positions2, alphas1, alphas2
+        )
 
     def minimum_distances(self, site, primitive=None):
         """Computes the minimum distances between one site and the other lattice sites.
-- 
2.43.0


From 8bb5b09bbafde7f05edc78157ca2e4877d0d2f2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:24:22 +0000
Subject: [PATCH 36/67] fix: don't use a valid distance as invalid distance of
 the lattice data

---
 lattpy/data.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lattpy/data.py b/lattpy/data.py
index db0dd10..599b533 100644
--- a/lattpy/data.py
+++ b/lattpy/data.py
@@ -305,6 +305,8 @@ class LatticeData:
         """
         logger.debug("Setting data")
         distvals, distidx = create_lookup_table(distances)
+        if not np.any(np.isinf(distvals)):
+            distvals = np.append(distvals, np.inf)
 
         self.indices = indices
         self.positions = positions
@@ -316,7 +318,7 @@ class LatticeData:
         self.pmask = np.zeros_like(self.neighbors, dtype=bool)
 
         self.invalid_idx = self.num_sites
-        self.invalid_distidx = np.max(self.distances)
+        self.invalid_distidx = len(self.distvals) - 1
         self._dmap = None
 
     def remove(self, sites):
-- 
2.43.0


From 42951f4162d297acf2e1f9927ef91d88ca0333c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:24:22 +0000
Subject: [PATCH 37/67] fix: find the neighboring cells for any basis

The number of unique vector lengths was added to the index of the distance, which
skips neighbors if the basis vectors differ in length. The distances were compared
without rounding and the search range was too small for skewed bases.
---
 lattpy/basis.py     | 28 ++++++++++++++++------------
 lattpy/structure.py | 15 +++++----------
 2 files changed, 21 insertions(+), 22 deletions(-)

diff --git a/lattpy/basis.py b/lattpy/basis.py
index a920b02..cafff53 100644
--- a/lattpy/basis.py
+++ b/lattpy/basis.py
@@ -481,6 +481,14 @@ class LatticeBasis:
         rlatt = self.__class__(rvecs)
         return rlatt
 
+    def _get_cells(self, max_dist):
+        # Indices of all cells that are not further than `max_dist` from the origin
+        max_dist = max_dist * (1 + 1e-6)
+        num = np.floor(max_dist * np.linalg.norm(self._vectors_inv, axis=1))
+        ranges = [np.arange(-n, n + 1) for n in num.astype(np.int64)]
+        nvecs = np.array(list(itertools.product(*ranges)))
+        return nvecs[np.linalg.norm(self.translate(nvecs), axis=1) <= max_dist]
+
     def get_neighbor_cells(
         self,
         distidx: int = 0,
@@ -512,21 +520,17 @@ class LatticeBasis:
          [ 0  1]
          [ 1  0]]
         """
-        # Build cell points
-        max_factor = distidx + 1
-        axis_factors = np.arange(-max_factor, max_factor + 1)
-        factors = np.array(list(itertools.product(axis_factors, repeat=self.dim)))
+        # Build cell points. The distances along the shortest vector are an upper
+        # limit for the distances of the lattice
+        factors = self._get_cells((distidx + 1) * np.min(self.norms))
         points = np.dot(factors, self.vectors[np.newaxis, :, :])[:, 0, :]
 
-        # Compute distances to origin for all points
-        distances = np.linalg.norm(points, axis=1)
-
-        # Set maximum distances value to number of neighbors
-        # + number of unique vector lengths
-        max_distidx = distidx + len(np.unique(np.linalg.norm(self.vectors, axis=1)))
+        # Compute (rounded) distances to origin for all points
+        min_norm = np.min(self.norms)
+        distances = np.round(np.linalg.norm(points, axis=1) / min_norm, decimals=8)
 
-        # Return points with distance lower than maximum distance
-        maxdist = np.sort(np.unique(distances))[max_distidx]
+        # Return points with distance compared to the distance with the given index
+        maxdist = np.unique(distances[distances > 0])[distidx]
         indices = np.where(comparison(distances, maxdist))[0]
         factors = factors[indices]
 
diff --git a/lattpy/structure.py b/lattpy/structure.py
index 2bd0b52..c58b73c 100644
--- a/lattpy/structure.py
+++ b/lattpy/structure.py
@@ -447,17 +447,12 @@ class LatticeStructure(LatticeBasis):
         if analyze:
             self.analyze()
 
-    def _get_cells(self, max_dist):
+    def _get_neighbor_cells(self, max_dist):
         # Indices of all cells with sites closer than `max_dist` to the sites of the
-        # cell at the origin, starting with the origin
+        # cell at the origin
         positions = np.asarray(self._positions)
         diff = positions[:, np.newaxis, :] - positions[np.newaxis, :, :]
-        radius = max_dist + np.max(np.linalg.norm(diff, axis=-1))
-        num = np.floor(radius * np.linalg.norm(self._vectors_inv, axis=1)).astype(int)
-        nvecs = vindices(np.array([-num, num + 1]).T)
-        dists = np.linalg.norm(self.translate(nvecs), axis=1)
-        nvecs = nvecs[(0 < dists) & (dists <= radius)].astype(np.int64)
-        return np.append(np.zeros((1, self.dim), dtype=np.int64), nvecs, axis=0)
+        return self._get_cells(max_dist + np.max(np.linalg.norm(diff, axis=-1)))
 
     def _compute_base_neighbors(self, max_distidx, num_jobs=1):
         logger.debug("Building indices of neighbor-cells")
@@ -467,7 +462,7 @@ class LatticeStructure(LatticeBasis):
         # Every atom can be translated into the cell around any other atom. From there
         # the next distances are reached by moving along the shortest basis vector.
         max_dist = np.sum(self.norms) / 2 + 2 * max_distidx * np.min(self.norms)
-        nvecs = self._get_cells(max_dist)
+        nvecs = self._get_neighbor_cells(max_dist)
         logger.debug("Max. distidx: %i, Max. dist: %f", max_distidx, max_dist)
 
         arrays = [
@@ -1193,7 +1188,7 @@ class LatticeStructure(LatticeBasis):
         # configured distances for querying all neighbors
         max_dist = np.max(self.distances) + 0.1 * np.min(self._raw_distance_matrix)
         positions = np.asarray(self._positions)
-        nvecs = self._get_cells(max_dist)
+        nvecs = self._get_neighbor_cells(max_dist)
         points = np.concatenate([self.translate(nvecs, r) for r in positions], axis=0)
         # Tolerance for sites on the boundary of the search radius
         radius = max_dist * (1 + 1e-6)
-- 
2.43.0


From 44ab3fd1f899116ea0dc22afca249d2644721ad1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:24:22 +0000
Subject: [PATCH 38/67] fix: compute the Wigner-Seitz cell for any basis

Only one shell of neighboring cells was used, which doesn't bound the cell or
cuts off too little unless all faces have the same distance.
---
 lattpy/basis.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/lattpy/basis.py b/lattpy/basis.py
index cafff53..1082714 100644
--- a/lattpy/basis.py
+++ b/lattpy/basis.py
@@ -550,9 +550,16 @@ class LatticeBasis:
         ws_cell : WignerSeitzCell
             The Wigner-Seitz cell of the lattice.
         """
-        nvecs = self.get_neighbor_cells(include_origin=True)
-        positions = np.dot(nvecs, self.vectors[np.newaxis, :, :])[:, 0, :]
-        return WignerSeitzCell(positions)
+        # The faces of the cell are defined by the lattice points for which no other
+        # point is as close to the center of the connection to the origin
+        positions = self.translate(self._get_cells(np.linalg.norm(self.norms)))
+        dists = np.linalg.norm(positions, axis=1)
+        positions = positions[dists > 0]
+        dists = dists[dists > 0] / 2
+        centers = positions[:, np.newaxis] / 2 - positions[np.newaxis, :]
+        closer = np.linalg.norm(centers, axis=-1) <= dists[:, np.newaxis] * (1 + 1e-6)
+        positions = positions[np.count_nonzero(closer, axis=1) == 1]
+        return WignerSeitzCell(np.append(np.zeros((1, self.dim)), positions, axis=0))
 
     def brillouin_zone(self, min_negative: bool = False) -> WignerSeitzCell:
         """Computes the first Brillouin-zone of the lattice structure.
-- 
2.43.0


From e54a65f087aec504c70d5feeaee426104e265f7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:35:12 +0000
Subject: [PATCH 39/67] fix: return a single cell index for numpy integers

get_cell_superindex returns a numpy integer, for which get_cell_index returned
an array of shape (1, D).
---
 lattpy/basis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lattpy/basis.py b/lattpy/basis.py
index 1082714..cb6a9d2 100644
--- a/lattpy/basis.py
+++ b/lattpy/basis.py
@@ -628,7 +628,7 @@ class LatticeBasis:
             The cell index. Of shape (D,) if `super_index` is an integer, otherwise
             of shape (N, D).
         """
-        single = isinstance(super_index, int)
+        single = isinstance(super_index, (int, np.integer))
         super_index = np.atleast_1d(super_index)
 
         indices = np.zeros((len(super_index), self.dim), dtype=np.int64)
-- 
2.43.0


From c1abc657659bc2eaa936793800492711f804a14e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:37:39 +0000
Subject: [PATCH 40/67] fix: only use the vertices of the cell around the
 origin as Wigner-Seitz cell

The Voronoi diagram of the neighboring points can contain further vertices, which
are far away from the cell if the outer points are (nearly) coplanar.
---
 lattpy/spatial.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/lattpy/spatial.py b/lattpy/spatial.py
index 52bef19..ade4166 100644
--- a/lattpy/spatial.py
+++ b/lattpy/spatial.py
@@ -375,6 +375,7 @@ class VoronoiTree:
         points = np.asarray(points)
         dim = points.shape[1]
         edges = list()
+        ridges = list()
         if dim == 1:
             vertices = points / 2
             idx = np.where((vertices == np.zeros(vertices.shape[1])).all(axis=1))[0]
@@ -388,11 +389,13 @@ class VoronoiTree:
                 simplex = np.asarray(simplex)
                 if np.all(simplex >= 0):
                     edges.append(simplex)
+                    ridges.append(pointidx)
 
         self.dim = dim
         self.points = points
         self.edges = edges
         self.vertices = vertices
+        self._ridges = ridges
         self.tree = scipy.spatial.KDTree(points)
         self.origin = self.query(np.zeros(dim))
 
@@ -456,6 +459,12 @@ class WignerSeitzCell(VoronoiTree):
     def __init__(self, points):
         super().__init__(points)
         self._root = self.query(np.zeros(self.dim))[1]
+        if self.dim > 1:
+            # Only keep the vertices and edges of the cell around the origin
+            self.edges = [e for e, r in zip(self.edges, self._ridges) if self._root in r]
+            ind = np.unique(np.concatenate(self.edges))
+            self.vertices = self.vertices[ind]
+            self.edges = [np.searchsorted(ind, e) for e in self.edges]
 
     @property
     def limits(self):
-- 
2.43.0


From 778af78d6365ef37d2f95ec733114330df070d9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:40 +0000
Subject: [PATCH 41/67] fix: never return invalid entries as neighbors of a
 distance index

---
 lattpy/data.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/lattpy/data.py b/lattpy/data.py
index 599b533..d7e8dc4 100644
--- a/lattpy/data.py
+++ b/lattpy/data.py
@@ -432,10 +432,9 @@ class LatticeData:
         -------
         mask : np.ndarray
         """
-        if distidx is None:
-            mask = self.distances[site] < self.invalid_distidx
-        else:
-            mask = self.distances[site] == distidx
+        mask = self.distances[site] < self.invalid_distidx
+        if distidx is not None:
+            mask &= self.distances[site] == distidx
         if unique:
             mask &= self.neighbors[site] > site
 
-- 
2.43.0


From 7bd18bb073a0089e0568c85ca8aaf96b5537444d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:52:32 +0000
Subject: [PATCH 42/67] fix: add the distances of new neighbors to the distance
 values

---
 lattpy/data.py | 25 ++++++++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/lattpy/data.py b/lattpy/data.py
index d7e8dc4..a1073f8 100644
--- a/lattpy/data.py
+++ b/lattpy/data.py
@@ -462,6 +462,21 @@ class LatticeData:
             slots = np.append(slots, np.arange(cols, cols + missing))
         return slots[:num]
 
+    def _set_distvals(self, distvals):
+        # Changes the distance values and updates the distance indices
+        indices = np.searchsorted(distvals, self.distvals)
+        self.distances = indices[self.distances].astype(self.distances.dtype)
+        self.distvals = distvals
+        self.invalid_distidx = len(distvals) - 1
+
+    def _get_distidx(self, distances):
+        # Translates distances to indices. Distances that don't occur in the neighbor
+        # data yet are added to the distance values.
+        distvals = np.union1d(self.distvals, distances)
+        if len(distvals) > len(self.distvals):
+            self._set_distvals(distvals)
+        return np.searchsorted(self.distvals, distances)
+
     def set_periodic(
         self, indices: dict, distances: dict, nvecs: dict, axes: dict
     ) -> None:
@@ -487,8 +502,7 @@ class LatticeData:
             # find invalid slots of normal data
             slots = self._free_slots(i, len(pidx))
             # translate distances to indices
-            dists = distances[i]
-            distidx = [np.searchsorted(self.distvals, d) for d in dists]
+            distidx = self._get_distidx(distances[i])
             # add periodic data
             self.neighbors[i, slots] = pidx
             self.distances[i, slots] = distidx
@@ -519,8 +533,13 @@ class LatticeData:
 
     def remove_periodic(self):
         mask = self.pmask
+        distidx = np.unique(self.distances[mask])
         self.neighbors[mask] = self.invalid_idx
         self.distances[mask] = self.invalid_distidx
+        # Remove the distance values of periodic neighbors only
+        unused = np.setdiff1d(distidx, self.distances)
+        if len(unused):
+            self._set_distvals(np.delete(self.distvals, unused))
         self.pnvecs.fill(0)
         self.pmask.fill(0)
         self.paxes.fill(self.dim)
@@ -543,7 +562,7 @@ class LatticeData:
         # find invalid slots of normal data
         slots = self._free_slots(site, len(neighbors))
         # Translate distances to indices
-        distidx = np.asarray([np.searchsorted(self.distvals, d) for d in distances])
+        distidx = self._get_distidx(distances)
         # Add new neighbor data to unused slots
         self.neighbors[site, slots] = neighbors
         self.distances[site, slots] = distidx
-- 
2.43.0


From a23c6da0bdb51d58fbd19a3a823ce966c3c43650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:06:10 +0000
Subject: [PATCH 43/67] fix: copy exactly the attributes of an atom

---
 lattpy/atom.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lattpy/atom.py b/lattpy/atom.py
index fb4fa6d..3547452 100644
--- a/lattpy/atom.py
+++ b/lattpy/atom.py
@@ -11,6 +11,7 @@
 """Objects for representing atoms and the unitcell of a lattice."""
 
 import itertools
+from copy import deepcopy
 from collections import abc
 from typing import Union, Any, Iterator, Dict
 
@@ -81,7 +82,9 @@ class Atom(abc.MutableMapping):
 
     def copy(self) -> "Atom":
         """Creates a deep copy of the ``Atom`` instance."""
-        return Atom(self.name, weight=self.weight, **self._params.copy())
+        atom = Atom(self._name, weight=self._weight)
+        atom._params = deepcopy(self._params)
+        return atom
 
     def get(self, key: str, default=None) -> Any:
         try:
-- 
2.43.0


From aee83207b1d8659a7a65c33a63991e3d28254a7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:10:48 +0000
Subject: [PATCH 44/67] fix: copy the positions of added atoms

---
 lattpy/structure.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lattpy/structure.py b/lattpy/structure.py
index c58b73c..3d3ec02 100644
--- a/lattpy/structure.py
+++ b/lattpy/structure.py
@@ -251,7 +251,7 @@ class LatticeStructure(LatticeBasis):
             atom = Atom(atom, **kwargs)
 
         self._atoms.append(atom)
-        self._positions = [*self._positions, np.asarray(pos)]
+        self._positions = [*self._positions, np.array(pos)]
 
         # Update number of base atoms if data is valid
         num_base = len(self._atoms)
-- 
2.43.0


From 1cd9287ed2e4bd805de182cc006e75fb9ac0aded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:10:48 +0000
Subject: [PATCH 45/67] fix: get atoms by numpy integers

---
 lattpy/structure.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lattpy/structure.py b/lattpy/structure.py
index 3d3ec02..86389be 100644
--- a/lattpy/structure.py
+++ b/lattpy/structure.py
@@ -350,7 +350,7 @@ class LatticeStructure(LatticeBasis):
         """
         if isinstance(atom, Atom):
             return atom
-        elif isinstance(atom, int):
+        elif isinstance(atom, (int, np.integer)):
             return self._atoms[atom]
         else:
             for at in self._atoms:
-- 
2.43.0


From 77c31bb395b9dca740997566e37e0db6e2be25b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:10:48 +0000
Subject: [PATCH 46/67] fix: raise NoAtomsError when connecting a lattice
 without atoms

---
 lattpy/structure.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lattpy/structure.py b/lattpy/structure.py
index 86389be..c80a014 100644
--- a/lattpy/structure.py
+++ b/lattpy/structure.py
@@ -406,6 +406,7 @@ class LatticeStructure(LatticeBasis):
 
         >>> latt.add_connection("B", "B", num_distances=1)
         """
+        self._assert_atoms()
         alpha1 = np.atleast_1d(self.get_alpha(atom1))
         alpha2 = np.atleast_1d(self.get_alpha(atom2))
         for i, j in itertools.product(alpha1, alpha2):
@@ -443,6 +444,7 @@ class LatticeStructure(LatticeBasis):
 
         >>> latt.add_connections(num_distances=1)
         """
+        self._assert_atoms()
         self._connections.fill(num_distances)
         if analyze:
             self.analyze()
-- 
2.43.0


From 7c2ad043daf8ab68ad2c41b00889f94c1ebe869a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:10:48 +0000
Subject: [PATCH 47/67] fix: don't use outdated neighbor data after adding
 atoms or connections

---
 lattpy/structure.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/lattpy/structure.py b/lattpy/structure.py
index c80a014..fe93651 100644
--- a/lattpy/structure.py
+++ b/lattpy/structure.py
@@ -262,6 +262,7 @@ class LatticeStructure(LatticeBasis):
         # Initial array for number of neighbour distances
         # for current number of atoms in the unit cell
         self._connections = np.zeros((num_base, num_base), dtype=np.int64)
+        self._reset_analysis()
 
         if neighbors:
             self.add_connections(neighbors)
@@ -412,6 +413,7 @@ class LatticeStructure(LatticeBasis):
         for i, j in itertools.product(alpha1, alpha2):
             self._connections[i, j] = num_distances
             self._connections[j, i] = num_distances
+        self._reset_analysis()
         if analyze:
             self.analyze()
 
@@ -446,6 +448,7 @@ class LatticeStructure(LatticeBasis):
         """
         self._assert_atoms()
         self._connections.fill(num_distances)
+        self._reset_analysis()
         if analyze:
             self.analyze()
 
@@ -528,6 +531,13 @@ class LatticeStructure(LatticeBasis):
         logger.debug("Number of raw neighbors:\n%s", raw_num_neighbors)
         logger.debug("Raw distance-matrix:\n%s", raw_distance_matrix)
 
+    def _reset_analysis(self):
+        # The neighbor data has to be computed again
+        self._base_neighbors = None
+        self._num_neighbors = None
+        self._distance_matrix = None
+        self._distances = None
+
     def _assert_atoms(self):
         if len(self._atoms) == 0:
             raise NoAtomsError()
-- 
2.43.0


From 9d314a6fb3166233a13d3bee1550c840412990d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:10:48 +0000
Subject: [PATCH 48/67] fix: keep the lattice data if building fails

---
 lattpy/lattice.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/lattpy/lattice.py b/lattpy/lattice.py
index 1283542..f0688b5 100644
--- a/lattpy/lattice.py
+++ b/lattpy/lattice.py
@@ -445,8 +445,6 @@ class Lattice(LatticeStructure):
         NotAnalyzedError
             Raised if the lattice distances and base-neighbors haven't been computed.
         """
-        self.data.reset()
-        self.periodic_axes = list()
         primitive_shape = primitive and not isinstance(shape, AbstractShape)
         if not isinstance(shape, AbstractShape):
             basis = self.vectors if primitive else None
@@ -472,6 +470,7 @@ class Lattice(LatticeStructure):
             indices, positions, neighbors, distances_ = data
 
         # Set data of the lattice and update shape
+        self.periodic_axes = list()
         self.data.set(indices, positions, neighbors, distances_)
         self.primitive = primitive
         self._update_shape()
-- 
2.43.0


From d35bcaa9462abff8ef7b1b4f9f17ba8db588dca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:10:49 +0000
Subject: [PATCH 49/67] fix: prevent integer overflow in superindex_from_index

---
 lattpy/lattice.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lattpy/lattice.py b/lattpy/lattice.py
index f0688b5..14dfce1 100644
--- a/lattpy/lattice.py
+++ b/lattpy/lattice.py
@@ -302,7 +302,7 @@ class Lattice(LatticeStructure):
         index : int or None
             The super-index of the site in the cached lattice data.
         """
-        diff = self.data.indices - np.array(ind)[None, :]
+        diff = self.data.indices - np.array(ind, dtype=np.int64)[None, :]
         indices = np.where(np.all(np.abs(diff) < 1e-4, axis=1))[0]
         if len(indices) == 0:
             return None
-- 
2.43.0


From f99c3356adb326528505729d024d1723b665ac73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:13:21 +0000
Subject: [PATCH 50/67] fix: raise NotAnalyzedError when computing neighbors of
 lattices that are not analyzed

---
 lattpy/structure.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lattpy/structure.py b/lattpy/structure.py
index fe93651..e998054 100644
--- a/lattpy/structure.py
+++ b/lattpy/structure.py
@@ -1196,6 +1196,7 @@ class LatticeStructure(LatticeBasis):
         return indices, positions if return_pos else None
 
     def _get_query_params(self):
+        self._assert_analyzed()
         # The maximum number of sites (including the site itself) in the range of the
         # configured distances for querying all neighbors
         max_dist = np.max(self.distances) + 0.1 * np.min(self._raw_distance_matrix)
-- 
2.43.0


From ec482dc44bf724de51efb5dd63003282bc3632fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:17:24 +0000
Subject: [PATCH 51/67] fix: return boolean values in site_mask

---
 lattpy/data.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lattpy/data.py b/lattpy/data.py
index a1073f8..58ed40e 100644
--- a/lattpy/data.py
+++ b/lattpy/data.py
@@ -716,11 +716,11 @@ class LatticeData:
         mins = [(x if x is not None else -np.inf) for x in mins]
         maxs = [(x if x is not None else +np.inf) for x in maxs]
         limits = np.array([mins, maxs])
-        mask = 1
+        mask = np.ones(self.num_sites, dtype=bool)
         for ax in range(self.dim):
             ax_data = self.positions[:, ax]
             mask &= (limits[0, ax] <= ax_data) & (ax_data <= limits[1, ax])
-        return np.asarray(1 - mask if invert else mask)
+        return ~mask if invert else mask
 
     def find_sites(
         self,
-- 
2.43.0


From ad7771a0222653956ca6e96487ead2530e73fb5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:19:35 +0000
Subject: [PATCH 52/67] fix: prevent integer overflow in min_dtype

---
 lattpy/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lattpy/utils.py b/lattpy/utils.py
index 9e62ff8..6c733dc 100644
--- a/lattpy/utils.py
+++ b/lattpy/utils.py
@@ -158,10 +158,10 @@ def min_dtype(
     dtype : dtype
         The required dtype.
     """
+    amin, amax = np.min(a).item(), np.max(a).item()
     if signed:
-        a = -np.max(np.abs(a)) - 1
+        a = -max(abs(amin), abs(amax)) - 1
     else:
-        amin, amax = np.min(a), np.max(a)
         if amin < 0:
             a = -amax - 1 if abs(amin) <= amax else amin
         else:
-- 
2.43.0


From 0c1eec3983746ac9370137be031d28ec350ebddf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:22:01 +0000
Subject: [PATCH 53/67] fix: query a single neighbor of the KDTree

---
 lattpy/spatial.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lattpy/spatial.py b/lattpy/spatial.py
index ade4166..2bf08ef 100644
--- a/lattpy/spatial.py
+++ b/lattpy/spatial.py
@@ -341,8 +341,10 @@ class KDTree(scipy.spatial.cKDTree):
         self, x=None, num_jobs=1, decimals=None, include_zero=False, compact=True, *_
     ):
         x = self.data if x is None else x
+        # Keep the axis of the neighbors if only one neighbor is queried
+        k = [1] if self.k == 1 else self.k
         dists, neighbors = super().query(
-            x, self.k, self.eps, self.p, self.max_dist, num_jobs
+            x, k, self.eps, self.p, self.max_dist, num_jobs
         )
 
         # Remove zero-distance neighbors and convert dtype
-- 
2.43.0


From 2bc9171db0635c4ce0612eed1363549cad757d5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:27:23 +0000
Subject: [PATCH 54/67] fix: draw the neighbors of all distances in plot_cell

---
 lattpy/structure.py | 28 +++++++++++++---------------
 1 file changed, 13 insertions(+), 15 deletions(-)

diff --git a/lattpy/structure.py b/lattpy/structure.py
index e998054..7339a4a 100644
--- a/lattpy/structure.py
+++ b/lattpy/structure.py
@@ -1516,24 +1516,22 @@ class LatticeStructure(LatticeBasis):
         # Draw Neighbors and connections
         ccolor = "k"
         hop_colors = connection_color_array(self.num_base, ccolor, con_colors)
-        if show_neighbors:
+        if show_neighbors and np.any(self._connections):
+            self._assert_analyzed()
             position_arr = [list() for _ in range(self.num_base)]
             for i in range(self.num_base):
                 p1 = self.atom_positions[i]
-                for distidx in range(self.num_distances):
-                    try:
-                        indices = self.get_neighbors(alpha=i, distidx=distidx)
-                        positions = self.get_positions(indices)
-                        for idx, p2 in zip(indices, positions):
-                            j = idx[-1]
-                            col = hop_colors[i][j]
-                            draw_vectors(
-                                ax, p2 - p1, pos=p1, zorder=hopz, color=col, lw=lw
-                            )
-                            if np.any(idx[:-1]):
-                                position_arr[j].append(p2)
-                    except IndexError:
-                        pass
+                for distidx in range(len(self._base_neighbors[i])):
+                    indices = self.get_neighbors(alpha=i, distidx=distidx)
+                    positions = self.get_positions(indices)
+                    for idx, p2 in zip(indices, positions):
+                        j = idx[-1]
+                        col = hop_colors[i][j]
+                        draw_vectors(
+                            ax, p2 - p1, pos=p1, zorder=hopz, color=col, lw=lw
+                        )
+                        if np.any(idx[:-1]):
+                            position_arr[j].append(p2)
             for i in range(self.num_base):
                 atom = self.get_atom(i)
                 positions = position_arr[i]
-- 
2.43.0


From 5dd1a9bb0d3e33db4a082b73ef8dd38ad7268c1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:27:23 +0000
Subject: [PATCH 55/67] fix: draw the indices of the sites of 1D lattices

---
 lattpy/plotting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lattpy/plotting.py b/lattpy/plotting.py
index 8e4db13..6169a64 100644
--- a/lattpy/plotting.py
+++ b/lattpy/plotting.py
@@ -467,7 +467,7 @@ def text(ax, strings, positions, offset=None, **kwargs):
 
     for s, pos in zip(strings, positions):
         if len(pos) == 1:
-            pos = [pos, 0]
+            pos = [pos[0], 0]
         tpos = np.asarray(pos) + offset
         txt = ax.text(*tpos, s=s, **kwargs)
         texts.append(txt)
-- 
2.43.0


From 1913b65cec569b7b46fb2110d43893429f510d23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:27:23 +0000
Subject: [PATCH 56/67] fix: draw donut shapes at their position

---
 lattpy/shape.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lattpy/shape.py b/lattpy/shape.py
index 63c4413..db1f4af 100644
--- a/lattpy/shape.py
+++ b/lattpy/shape.py
@@ -244,8 +244,8 @@ class Donut(AbstractShape):
         n = 100
 
         theta = np.linspace(0, 2 * np.pi, n, endpoint=True)
-        xs = np.outer(self.radii, np.cos(theta))
-        ys = np.outer(self.radii, np.sin(theta))
+        xs = self.pos[0] + np.outer(self.radii, np.cos(theta))
+        ys = self.pos[1] + np.outer(self.radii, np.sin(theta))
         # in order to have a closed area, the circles
         # should be traversed in opposite directions
         xs[1, :] = xs[1, ::-1]
-- 
2.43.0


From 788a9075e2098ea1ed782bc72d46f526b9409ff5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:27:23 +0000
Subject: [PATCH 57/67] fix: accept integers as margins of plots

---
 lattpy/basis.py     | 2 +-
 lattpy/lattice.py   | 2 +-
 lattpy/structure.py | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/lattpy/basis.py b/lattpy/basis.py
index cb6a9d2..d2aeccd 100644
--- a/lattpy/basis.py
+++ b/lattpy/basis.py
@@ -695,7 +695,7 @@ class LatticeBasis:
             ax.set_axisbelow(True)
             ax.grid(True, which="major")
         # Adjust margin
-        if isinstance(margins, float):
+        if not hasattr(margins, "__len__"):
             margins = [margins] * self.dim
         ax.margins(*margins)
 
diff --git a/lattpy/lattice.py b/lattpy/lattice.py
index 14dfce1..90ef430 100644
--- a/lattpy/lattice.py
+++ b/lattpy/lattice.py
@@ -1268,7 +1268,7 @@ class Lattice(LatticeStructure):
             ax.set_axisbelow(True)
             ax.grid(True, which="major")
         # Adjust margin
-        if isinstance(margins, float):
+        if not hasattr(margins, "__len__"):
             margins = [margins] * self.dim
         ax.margins(*margins)
 
diff --git a/lattpy/structure.py b/lattpy/structure.py
index 7339a4a..c0cb414 100644
--- a/lattpy/structure.py
+++ b/lattpy/structure.py
@@ -1550,7 +1550,7 @@ class LatticeStructure(LatticeBasis):
             ax.set_axisbelow(True)
             ax.grid(True, which="major")
         # Adjust margin
-        if isinstance(margins, float):
+        if not hasattr(margins, "__len__"):
             margins = [margins] * self.dim
         ax.margins(*margins)
 
-- 
2.43.0


From 806b06d3e47d9fab93f6adcbd1250344dc439001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:27:23 +0000
Subject: [PATCH 58/67] fix: copy the points added to a dispersion path

---
 lattpy/disptools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lattpy/disptools.py b/lattpy/disptools.py
index be95d47..834c285 100644
--- a/lattpy/disptools.py
+++ b/lattpy/disptools.py
@@ -337,7 +337,7 @@ class DispersionPath:
         """
         if not name:
             name = str(len(self.points))
-        point = np.asarray(point)
+        point = np.array(point)
         if self.dim:
             point = point[: self.dim]
         else:
-- 
2.43.0


From dd3783decf9d46b6d5b047e61026365ed7447356 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:35:10 +0000
Subject: [PATCH 59/67] fix: label of the contour plot of a single band

---
 lattpy/disptools.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lattpy/disptools.py b/lattpy/disptools.py
index 834c285..d56691b 100644
--- a/lattpy/disptools.py
+++ b/lattpy/disptools.py
@@ -242,7 +242,8 @@ def plot_bands(
     elif dim == 2:
         kx, ky = kgrid
         kxx, kyy = np.meshgrid(kx, ky)
-        if len(bands) == 1:
+        num_bands = len(bands)
+        if num_bands == 1:
             bands = bands[0]
         else:
             bands = np.sum(np.abs(bands), axis=0)
@@ -255,7 +256,7 @@ def plot_bands(
         if disp_label:
             label = ""
             if disp_label:
-                label = disp_label if len(bands) == 1 else f"|{disp_label}|"
+                label = disp_label if num_bands == 1 else f"|{disp_label}|"
             fig.colorbar(im, ax=ax, label=label)
         if grid and contour_grid:
             ax.grid(axis=grid)
-- 
2.43.0


From bb55c382fa3472e518e544ac2a44aaab1d2cbcb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:52:48 +0000
Subject: [PATCH 60/67] fix: prevent integer overflow in adjacency_matrix

---
 lattpy/lattice.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lattpy/lattice.py b/lattpy/lattice.py
index 90ef430..3c2066e 100644
--- a/lattpy/lattice.py
+++ b/lattpy/lattice.py
@@ -21,7 +21,7 @@ from scipy.spatial.distance import cdist
 import matplotlib.pyplot as plt
 from mpl_toolkits.mplot3d.axes3d import Axes3D
 from typing import Union, Optional, Tuple, Iterator, Sequence, Callable
-from .utils import ArrayLike, frmt_num, NotBuiltError
+from .utils import ArrayLike, frmt_num, min_dtype, NotBuiltError
 from .plotting import (
     subplot,
     draw_sites,
@@ -1089,7 +1089,8 @@ class Lattice(LatticeStructure):
         rows, cols = pairs.T  # noqa
         data = distindices + 1
         shape = self.num_sites, self.num_sites
-        return csr_matrix((data, (rows, cols)), shape=shape, dtype=np.int8)
+        dtype = min_dtype(len(self.data.distvals))
+        return csr_matrix((data, (rows, cols)), shape=shape, dtype=dtype)
 
     # ==================================================================================
 
-- 
2.43.0


From 64b2fe805eb65d164f636341b9fb0d8b3b125de6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:05:41 +0000
Subject: [PATCH 61/67] fix: atom masks of the data map for more than 128 atoms

---
 lattpy/data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lattpy/data.py b/lattpy/data.py
index 58ed40e..5d5fc49 100644
--- a/lattpy/data.py
+++ b/lattpy/data.py
@@ -669,7 +669,7 @@ class LatticeData:
         datamap : DataMap
         """
         if self._dmap is None:
-            alphas = self.indices[:, -1].astype(np.int8)
+            alphas = self.indices[:, -1].astype(np.int64)
             # Build index pairs and corresponding distance array
             dtype = np.min_scalar_type(self.num_sites)
             sites = np.arange(self.num_sites, dtype=dtype)
-- 
2.43.0


From 42dbdbf13b20f958fde315bcd63b7454306e5731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:26:53 +0000
Subject: [PATCH 62/67] fix: prevent rounding of the super index of large grids

---
 lattpy/basis.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lattpy/basis.py b/lattpy/basis.py
index d2aeccd..c734d11 100644
--- a/lattpy/basis.py
+++ b/lattpy/basis.py
@@ -605,7 +605,8 @@ class LatticeBasis:
 
         super_indices = np.zeros((len(index)), dtype=np.int64)
         for i, ind in enumerate(index):
-            si = sum(ind[d] * np.prod(shape[d + 1 :]) for d in range(self.dim))
+            sizes = [np.prod(shape[d + 1 :], dtype=np.int64) for d in range(self.dim)]
+            si = sum(ind[d] * sizes[d] for d in range(self.dim))
             super_indices[i] = si
 
         return super_indices[0] if single else super_indices
-- 
2.43.0


From f26d13c733d6c79cdbc39c2a1cf281f68b32b69b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:27:14 +0000
Subject: [PATCH 63/67] fix: compute the cell volume of any array_like

---
 lattpy/spatial.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lattpy/spatial.py b/lattpy/spatial.py
index 2bf08ef..2108a93 100644
--- a/lattpy/spatial.py
+++ b/lattpy/spatial.py
@@ -267,6 +267,7 @@ def cell_volume(vectors: ArrayLike) -> float:
     vol: float
         The volume of the unit cell.
     """
+    vectors = np.asarray(vectors)
     dim = len(vectors)
     if dim == 1:
         v = float(vectors)
-- 
2.43.0


From 010b11de4e403cb278a4de7c886b1e6d5bd8bd77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:27:14 +0000
Subject: [PATCH 64/67] fix: don't truncate values when interweaving arrays of
 different types

---
 lattpy/spatial.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lattpy/spatial.py b/lattpy/spatial.py
index 2108a93..a13be55 100644
--- a/lattpy/spatial.py
+++ b/lattpy/spatial.py
@@ -109,7 +109,7 @@ def interweave(arrays: Sequence[np.ndarray]) -> np.ndarray:
     """
     shape = list(arrays[0].shape)
     shape[0] = sum(x.shape[0] for x in arrays)
-    result = np.empty(shape, dtype=arrays[0].dtype)
+    result = np.empty(shape, dtype=np.result_type(*arrays))
     n = len(arrays)
     for i, arr in enumerate(arrays):
         result[i::n] = arr
-- 
2.43.0


From 15d4f35716a0312481763c65af078b4bfd63edef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:59:53 +0000
Subject: [PATCH 65/67] fix: remove sites given by negative or repeated indices

The neighbors were corrupted when sites were passed as negative indices, several
times or as boolean mask, since only np.delete resolved them.
---
 lattpy/data.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lattpy/data.py b/lattpy/data.py
index 5d5fc49..dd3b707 100644
--- a/lattpy/data.py
+++ b/lattpy/data.py
@@ -322,7 +322,9 @@ class LatticeData:
         self._dmap = None
 
     def remove(self, sites):
-        sites = np.atleast_1d(sites)
+        # Resolve negative and repeated indices of the sites
+        all_sites = np.arange(self.num_sites)
+        sites = np.setdiff1d(all_sites, np.delete(all_sites, sites))
 
         # store current invalid index
         invalid_idx = self.invalid_idx
-- 
2.43.0


From e8335e31bc81e658d345c210e3e13b0fbcf644dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:02:38 +0000
Subject: [PATCH 66/67] fix: equal distances on the rounding boundary are
 rounded to the same value

Lattice constants with a 5 as seventh decimal lost most of their neighbors, since
distances that only differ by numerical noise were rounded to different values.
---
 lattpy/lattice.py | 2 ++
 lattpy/spatial.py | 5 +++--
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/lattpy/lattice.py b/lattpy/lattice.py
index 3c2066e..aaa6b80 100644
--- a/lattpy/lattice.py
+++ b/lattpy/lattice.py
@@ -720,6 +720,8 @@ class Lattice(LatticeStructure):
             if conns:
                 conns = np.asarray(conns)
                 dists = cdist(np.asarray([positions1[i]]), positions2[conns])[0]
+                # Use the same rounding as for the neighbors
+                dists = np.round(dists, decimals=self.DIST_DECIMALS + 3)
                 dists = np.round(dists, decimals=self.DIST_DECIMALS)
                 for j, dist in zip(conns, dists):
                     # Skip sites that are not connected
diff --git a/lattpy/spatial.py b/lattpy/spatial.py
index a13be55..ff9c573 100644
--- a/lattpy/spatial.py
+++ b/lattpy/spatial.py
@@ -366,9 +366,10 @@ class KDTree(scipy.spatial.cKDTree):
             neighbors = neighbors[:, mask]
             dists = dists[:, mask]
 
-        # Round distances
+        # Round distances. The first step removes numerical noise, otherwise equal
+        # distances on the rounding boundary are rounded to different values
         if decimals is not None:
-            dists = np.round(dists, decimals=decimals)
+            dists = np.round(np.round(dists, decimals=decimals + 3), decimals=decimals)
 
         return neighbors, dists
 
-- 
2.43.0


From 22932671355a263006e4bd03ced1a5dad6d21f84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:51:28 +0000
Subject: [PATCH 67/67] fix: axes of periodic neighbors stored in new columns
 of the neighbor data

---
 lattpy/data.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lattpy/data.py b/lattpy/data.py
index dd3b707..3079628 100644
--- a/lattpy/data.py
+++ b/lattpy/data.py
@@ -459,7 +459,9 @@ class LatticeData:
                 self.distances, width, constant_values=self.invalid_distidx
             )
             self.pmask = np.pad(self.pmask, width)
-            self.paxes = np.pad(self.paxes, (*width, (0, 0)))
+            self.paxes = np.pad(
+                self.paxes, (*width, (0, 0)), constant_values=self.dim
+            )
             self.pnvecs = np.pad(self.pnvecs, (*width, (0, 0)))
             slots = np.append(slots, np.arange(cols, cols + missing))
         return slots[:num]
-- 
2.43.0

