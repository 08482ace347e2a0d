From e22f3feb3c205f50434dbe6a403bafc553a01426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:48 +0000
Subject: [PATCH 01/50] fix: replace np.in1d, removed from numpy, with np.isin

AdjacencyList.roots and .leaves, select.partition_descendants() and
select.clusters() raised AttributeError with every supported numpy >= 2.4.
---
 graphicle/data.py   | 4 ++--
 graphicle/select.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/graphicle/data.py b/graphicle/data.py
index e35b554..d358d93 100644
--- a/graphicle/data.py
+++ b/graphicle/data.py
@@ -2545,7 +2545,7 @@ class AdjacencyList(base.AdjacencyBase):
         """
         in_degree = self._sparse_unsigned.sum(axis=0)
         zero_idxs = np.flatnonzero(in_degree == 0)
-        root_mask = np.in1d(self._sparse_unsigned.row, zero_idxs)
+        root_mask = np.isin(self._sparse_unsigned.row, zero_idxs)
         return MaskArray(root_mask)
 
     @property
@@ -2556,7 +2556,7 @@ class AdjacencyList(base.AdjacencyBase):
         """
         out_degree = self._sparse_unsigned.sum(axis=1)
         zero_idxs = np.flatnonzero(out_degree == 0)
-        leaf_mask = np.in1d(self._sparse_unsigned.col, zero_idxs)
+        leaf_mask = np.isin(self._sparse_unsigned.col, zero_idxs)
         return MaskArray(leaf_mask)
 
     @property
diff --git a/graphicle/select.py b/graphicle/select.py
index fd03252..c2a8a3f 100644
--- a/graphicle/select.py
+++ b/graphicle/select.py
@@ -416,7 +416,7 @@ def _partition_vertex(
     hadron_pmu = pmu[final_from_vtx]
     dist = dist_strat(parton_pmu, hadron_pmu)
     alloc = np.argmin(dist, axis=0)
-    final_from_hard = np.in1d(alloc, np.flatnonzero(mask[pcls_in]))
+    final_from_hard = np.isin(alloc, np.flatnonzero(mask[pcls_in]))
     mask.data[final_from_vtx] = final_from_hard
     return mask
 
-- 
2.43.0


From 5820e6730291e5ac29e55cecf04ad69254e50b1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:48 +0000
Subject: [PATCH 02/50] fix: keep edge weights when copying or subscripting
 AdjacencyList

---
 graphicle/data.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/graphicle/data.py b/graphicle/data.py
index d358d93..bca7af0 100644
--- a/graphicle/data.py
+++ b/graphicle/data.py
@@ -2477,11 +2477,12 @@ class AdjacencyList(base.AdjacencyBase):
     def __getitem__(self, key) -> "AdjacencyList":
         if isinstance(key, base.MaskBase):
             key = key.data
-        return self.__class__(self._data[key].reshape(-1, 2))
+        weights = self.weights[key] if self.weights.size > 0 else self.weights
+        return self.__class__(self._data[key].reshape(-1, 2), weights)
 
     def copy(self) -> "AdjacencyList":
         """Copies the underlying data into a new AdjacencyList instance."""
-        return self.__class__(self._data.copy())
+        return self.__class__(self._data.copy(), self.weights.copy())
 
     @fn.cached_property
     def _edge_relabel(self) -> base.IntVector:
-- 
2.43.0


From 94e6d7ad5f1ac8aece313d0a5597c086f726baef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:48 +0000
Subject: [PATCH 03/50] fix: compare AdjacencyList with its own kind, and with
 structured arrays

adj == adj, and comparisons of multi-column arrays with structured numpy
arrays raised ValueError.
---
 graphicle/data.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/graphicle/data.py b/graphicle/data.py
index bca7af0..03730ea 100644
--- a/graphicle/data.py
+++ b/graphicle/data.py
@@ -242,10 +242,10 @@ def _array_eq_prep(
     """
     other_data = other
     dtype = instance.data.dtype
-    if isinstance(other, base.ArrayBase):
-        other_data = other.data
+    if isinstance(other, (base.ArrayBase, base.AdjacencyBase)):
+        other_data = other.data  # type: ignore
     elif (dtype.type == np.void) and not (
-        isinstance(other, np.ndarray) and (other.dtype == np.void)
+        isinstance(other, np.ndarray) and (other.dtype.type == np.void)
     ):
         dt_set = set(map(op.itemgetter(1), dtype.descr))
         assert len(dt_set) == 1
-- 
2.43.0


From 6b007b2a7578d781ebe8a46c07f71bb6d5cc44f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:48 +0000
Subject: [PATCH 04/50] fix: store a single row as one element in multi-column
 arrays

ColorArray and AdjacencyList built from one flat row, e.g. by integer
subscript, reported a length of 2 and could not be iterated over.
---
 graphicle/data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graphicle/data.py b/graphicle/data.py
index 03730ea..071390d 100644
--- a/graphicle/data.py
+++ b/graphicle/data.py
@@ -439,7 +439,7 @@ def _array_field(dtype: npt.DTypeLike, num_cols: int = 1):
         not_empty = array.shape[0] != 0
         if not_empty and (cols != num_cols):
             raise ValueError(f"Number of columns must be equal to {num_cols}")
-        return array
+        return array.reshape(-1, num_cols)
 
     return field(
         default=Factory(
-- 
2.43.0


From a112a822a31ddf4a0c98d80e149b48b21bf6e989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:48 +0000
Subject: [PATCH 05/50] fix: match negative targets in sign insensitive
 PdgArray.mask()

---
 graphicle/data.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/graphicle/data.py b/graphicle/data.py
index 071390d..3586abe 100644
--- a/graphicle/data.py
+++ b/graphicle/data.py
@@ -1225,6 +1225,7 @@ class PdgArray(base.ArrayBase):
         data = self.data
         if sign_sensitive is False:
             data = np.abs(data, dtype=_types.int)
+            target = np.abs(target)
         return MaskArray(
             np.isin(data, target, assume_unique=False, invert=blacklist)
         )
-- 
2.43.0


From 0cc1faaa72996d34c2b41abb4e83b37e35f1b88b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:48 +0000
Subject: [PATCH 06/50] fix: any_overlap() used an attribute MaskGroup does not
 have

---
 graphicle/select.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/graphicle/select.py b/graphicle/select.py
index c2a8a3f..d6ece19 100644
--- a/graphicle/select.py
+++ b/graphicle/select.py
@@ -938,10 +938,9 @@ def any_overlap(masks: gcl.MaskGroup[MaskType]) -> bool:
         ``True`` if at least two ``MaskArrays`` in ``masks`` have at
         least one ``True`` element in the same location.
     """
-    combos = it.combinations(masks.dict.values(), 2)
-    pair_checks = map(np.bitwise_and, *zip(*combos))
-    overlaps: bool = np.bitwise_or.reduce(tuple(pair_checks), axis=None)
-    return overlaps
+    combos = it.combinations(map(op.attrgetter("data"), masks.values()), 2)
+    pair_checks = it.starmap(np.bitwise_and, combos)
+    return any(map(np.any, pair_checks))
 
 
 def centroid_prune(
-- 
2.43.0


From a0ed8fd466c918c56953537b58e42cad6021705a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:48 +0000
Subject: [PATCH 07/50] fix: zero division in arg_closest() when candidates are
 equidistant

Includes the simplest case, of a single candidate.
---
 graphicle/calculate.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/graphicle/calculate.py b/graphicle/calculate.py
index d13c1d1..ac343b6 100644
--- a/graphicle/calculate.py
+++ b/graphicle/calculate.py
@@ -927,12 +927,15 @@ def _assignment_cost(
     pt_2 = rapidity_2  # recycle memory buffer for transverse momenta
     for pol_idx, pol_val in enumerate(xy_pol_2):
         pt_2[pol_idx] = abs(pol_val)
-    var_pt_recip = 1.0 / np.var(pt_2)
+    var_pt = np.var(pt_2)
+    # zero variance makes the term equal for all jets, so it may be dropped
+    var_pt_recip = 1.0 / var_pt if var_pt > 0.0 else 0.0
     num_partons = dist_matrix.shape[0]
     for parton_idx in nb.prange(num_partons):
         row = dist_matrix[parton_idx, :]
         pt_1_val = abs(xy_pol_1[parton_idx])
-        var_dR_recip = 1.0 / np.var(row)
+        var_dR = np.var(row)
+        var_dR_recip = 1.0 / var_dR if var_dR > 0.0 else 0.0
         for jet_idx, (dR_val, pt_2_val) in enumerate(zip(row, pt_2)):
             dpt = pt_1_val - pt_2_val
             dR_cost = math.expm1(-0.5 * var_dR_recip * dR_val * dR_val)
-- 
2.43.0


From 0496559a6f29e173c003c753222ad6ed1d11c025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:48 +0000
Subject: [PATCH 08/50] fix: arg_closest() overwrote the rapidity of candidate

An array previously obtained from candidate.rapidity was filled with
transverse momenta, as was the cache when the call failed.
---
 graphicle/select.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/graphicle/select.py b/graphicle/select.py
index d6ece19..a78ca6c 100644
--- a/graphicle/select.py
+++ b/graphicle/select.py
@@ -1224,11 +1224,10 @@ def arg_closest(
     with gcl.calculate._thread_scope(num_threads):
         cost_matrix = gcl.calculate._assignment_cost(
             focus.rapidity,
-            candidate.rapidity,
+            candidate.rapidity.copy(),  # buffer is overwritten
             focus._xy_pol,
             candidate._xy_pol,
         )
-    del candidate.rapidity  # inplace operation above invalidates cache
     _, idxs = opt.linear_sum_assignment(cost_matrix)
     return idxs.tolist()
 
-- 
2.43.0


From 6c0ecc925481943048f726035fa1b334e27e0d79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:48 +0000
Subject: [PATCH 09/50] fix: zero division in event shapes for particles at
 rest

Particles without 3-momentum contribute nothing to the sums defining
thrust, spherocity and C-parameter. Likewise momenta exactly along the
spherocity axis.
---
 graphicle/calculate.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/graphicle/calculate.py b/graphicle/calculate.py
index ac343b6..759e0ab 100644
--- a/graphicle/calculate.py
+++ b/graphicle/calculate.py
@@ -432,6 +432,8 @@ def aggregate_momenta(
 @nb.njit("float64(float64, float64, float64)", cache=True)
 def _three_norm(x: float, y: float, z: float) -> float:
     max_component = max(abs(x), abs(y), abs(z))
+    if max_component == 0.0:
+        return 0.0
     max_recip = 1.0 / max_component
     x *= max_recip
     y *= max_recip
@@ -673,6 +675,8 @@ def _spherocity_with_grad(
         cross_z = x * ax_y - y * ax_x
         cross_norm = _three_norm(cross_x, cross_y, cross_z)
         cross_norm_sum += cross_norm
+        if cross_norm == 0.0:
+            continue
         # accumulate gradient contributions
         x_sq, y_sq = x * x, y * y
         cross_norm_recip = 1.0 / cross_norm
@@ -806,6 +810,8 @@ def _c_parameter(momenta: base.VoidVector) -> float:
             x_j, y_j, z_j = pmu_j["x"], pmu_j["y"], pmu_j["z"]
             norm_j = _three_norm(x_j, y_j, z_j)
             norm_prod = norm_i * norm_j
+            if norm_prod == 0.0:
+                continue
             i_dot_j = (x_i * x_j) + (y_i * y_j) + (z_i * z_j)
             output += 2.0 * (norm_prod - (i_dot_j * i_dot_j / norm_prod))
     return 1.5 * output / (norm_sum * norm_sum)
-- 
2.43.0


From 98215654513b2889f50ab3ec53bc4120d366838e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:48 +0000
Subject: [PATCH 10/50] fix: sample both hemispheres in
 MomentumArray.from_spherical_uniform()

The longitudinal and transverse components were swapped, so pz was never
negative, and directions were not uniform over the sphere.
---
 graphicle/data.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/graphicle/data.py b/graphicle/data.py
index 3586abe..b99fa3b 100644
--- a/graphicle/data.py
+++ b/graphicle/data.py
@@ -1409,7 +1409,7 @@ class MomentumArray(base.ArrayBase):
         theta_polar = p_mag * np.exp(
             1.0j * np.arccos(1.0 - 2.0 * rng.random(size, dtype=np.float64))
         )
-        phi_polar = theta_polar.real * np.exp(
+        phi_polar = theta_polar.imag * np.exp(
             1.0j * rng.uniform(-np.pi, np.pi, size)
         )
         return cls(
@@ -1417,7 +1417,7 @@ class MomentumArray(base.ArrayBase):
                 [
                     phi_polar.real.reshape(-1, 1),
                     phi_polar.imag.reshape(-1, 1),
-                    theta_polar.imag.reshape(-1, 1),
+                    theta_polar.real.reshape(-1, 1),
                     energy.reshape(-1, 1),
                 ]
             )
-- 
2.43.0


From a1c91492407145e282c6d6c0f331cf0637fda5fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:48 +0000
Subject: [PATCH 11/50] fix: soft_hard_axis() gave elevation instead of
 inclination

---
 graphicle/transform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graphicle/transform.py b/graphicle/transform.py
index b812f31..a27bac9 100644
--- a/graphicle/transform.py
+++ b/graphicle/transform.py
@@ -49,7 +49,7 @@ def _angles_to_axis(angles: SphericalAngle) -> SphericalAxis:
 def _axis_to_angles(axis: SphericalAxis) -> SphericalAngle:
     phi_polar = complex(axis.x, axis.y)
     pt, phi = cmath.polar(phi_polar)
-    theta_polar = complex(pt, axis.z)
+    theta_polar = complex(axis.z, pt)
     theta = cmath.phase(theta_polar)
     return SphericalAngle(theta=theta, phi=phi)
 
-- 
2.43.0


From eed0b18b8d173bd545e636185f1cc8f93ec1ac24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:48 +0000
Subject: [PATCH 12/50] fix: orientation of knn_adj(), and allow all nodes as
 neighbours

With row=True (the default), columns held the outward edges, and with
row=False, the rows did. k = number of other nodes raised ValueError.
---
 graphicle/matrix.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/graphicle/matrix.py b/graphicle/matrix.py
index 6f57f35..c4a1fc0 100644
--- a/graphicle/matrix.py
+++ b/graphicle/matrix.py
@@ -130,11 +130,11 @@ def knn_adj(
     If weighted is ``False``, the returned adjacency matrix will be
     boolean.
     """
-    axis = 0  # calculate everything row-wise
+    axis = 1  # calculate everything row-wise
     if self_loop is False:
         k = k + 1  # for when we get rid of self-neighbours
-    knn_idxs = np.argpartition(matrix, kth=k, axis=axis)
-    near = knn_idxs[:k]
+    knn_idxs = np.argpartition(matrix, kth=(k - 1), axis=axis)
+    near = knn_idxs[:, :k]
     edge_weights = 1
     if weighted is True:
         if dtype is None:
-- 
2.43.0


From 92ab64e6e5c735193a39aa1e49ead72063794fbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:48 +0000
Subject: [PATCH 13/50] fix: stale derived values after setting
 MomentumArray.data

---
 graphicle/data.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/graphicle/data.py b/graphicle/data.py
index b99fa3b..e3edba8 100644
--- a/graphicle/data.py
+++ b/graphicle/data.py
@@ -1443,6 +1443,21 @@ class MomentumArray(base.ArrayBase):
     @data.setter
     def data(self, values: npt.ArrayLike) -> None:
         self._data = values  # type: ignore
+        cached = (
+            "_zt_pol",
+            "_spatial_mag",
+            "eta",
+            "rapidity",
+            "phi",
+            "theta",
+            "mass",
+            "mass_t",
+        )
+        for name in cached:
+            try:
+                delattr(self, name)
+            except AttributeError:  # not yet computed
+                continue
 
     @classmethod
     def __array_wrap__(cls, array: base.AnyVector) -> "MomentumArray":
-- 
2.43.0


From a9c13a79ad83d3c20add8392c9dea8ca90aadaf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:48 +0000
Subject: [PATCH 14/50] fix: ParticleSet.from_lhe_event() overwrote status
 codes of the event

---
 graphicle/data.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/graphicle/data.py b/graphicle/data.py
index e3edba8..59b7404 100644
--- a/graphicle/data.py
+++ b/graphicle/data.py
@@ -2348,6 +2348,7 @@ class ParticleSet(base.ParticleBase):
         props = ("pdg", "pmu", "color", "helicity", "status")
         pcls = cls.from_numpy(**{name: getattr(event, name) for name in props})
         pcls.final = MaskArray(np.zeros(len(pcls), dtype=np.bool_))
+        pcls.status = pcls.status.copy()  # don't overwrite data of event
         status_map = {-1: -21, 1: -23, -2: -22, 2: -22, 3: -22, -9: -12}
         for old_code, new_code in status_map.items():
             pcls.status.data[pcls.status.data == old_code] = new_code
-- 
2.43.0


From ff4dd7fedf9ac46a77b4c82bf06c3fb38a9f3ec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:48 +0000
Subject: [PATCH 15/50] fix: hard_descendants() with target included unrelated
 hard partons

Each mask should include its own parton, but when filtering by target
the first partons in the hard process were included instead.
---
 graphicle/select.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/graphicle/select.py b/graphicle/select.py
index a78ca6c..dc1e93d 100644
--- a/graphicle/select.py
+++ b/graphicle/select.py
@@ -686,6 +686,7 @@ def hard_descendants(
     hard_mask = graph.hard_mask
     del hard_mask["incoming"]
     hard_graph = graph[hard_mask]
+    hard_idxs = np.flatnonzero(hard_mask)
     if target is not None:
         target_pdgs = set(target) if sign_sensitive else set(map(abs, target))
         target_mask = hard_graph.pdg.mask(
@@ -704,11 +705,12 @@ def hard_descendants(
             missing_str = ", ".join(map(str, missing_pdgs))
             raise ValueError(f"Missing PDGs in hard process: {missing_str}.")
         hard_graph = hard_graph[target_mask]
+        hard_idxs = hard_idxs[target_mask.data]
     pdg_keys = _pdgs_to_keys(hard_graph.pdg)
     pcl_out_vtxs = map(int, hard_graph.edges["dst"])
     descs = map(vertex_descendants, it.repeat(graph.adj), pcl_out_vtxs)
     group = gcl.MaskGroup(cl.OrderedDict(zip(pdg_keys, descs)), agg_op="or")
-    for key, idx in zip(pdg_keys, np.flatnonzero(hard_mask)):
+    for key, idx in zip(pdg_keys, hard_idxs):
         group[key][idx] = True
     return group
 
-- 
2.43.0


From 2ff42d2899a095c3883bf7cc3bb653a62735b94b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:48 +0000
Subject: [PATCH 16/50] fix: compare MaskGroup with MaskArray

---
 graphicle/data.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/graphicle/data.py b/graphicle/data.py
index 59b7404..5fbbadc 100644
--- a/graphicle/data.py
+++ b/graphicle/data.py
@@ -615,6 +615,10 @@ def _mask_eq(mask1: base.MaskLike, mask2: base.MaskLike) -> MaskArray:
         raise ValueError(
             "Bitwise operation supported for graphicle or numpy arrays."
         )
+    if isinstance(mask1, base.MaskBase):
+        mask1 = mask1.data
+    if isinstance(mask2, base.MaskBase):
+        mask2 = mask2.data
     shape1, shape2 = np.shape(mask1), np.shape(mask2)
     if shape1 != shape2:
         raise ValueError(f"Incompatible mask shapes {shape1} and {shape2}.")
@@ -636,6 +640,10 @@ def _mask_neq(mask1: base.MaskLike, mask2: base.MaskLike) -> MaskArray:
         raise ValueError(
             "Bitwise operation supported for graphicle or numpy arrays."
         )
+    if isinstance(mask1, base.MaskBase):
+        mask1 = mask1.data
+    if isinstance(mask2, base.MaskBase):
+        mask2 = mask2.data
     shape1, shape2 = np.shape(mask1), np.shape(mask2)
     if shape1 != shape2:
         raise ValueError(f"Incompatible mask shapes {shape1} and {shape2}.")
-- 
2.43.0


From 69def85821ab422e2c9b20e6efd3c43ae70acd9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:48 +0000
Subject: [PATCH 17/50] fix: AdjacencyList.from_matrix() lost weights of
 existing self-loops

---
 graphicle/data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graphicle/data.py b/graphicle/data.py
index 5fbbadc..ff59584 100644
--- a/graphicle/data.py
+++ b/graphicle/data.py
@@ -2643,7 +2643,7 @@ class AdjacencyList(base.AdjacencyBase):
         """
         sps_adj = coo_array(adj_matrix)
         if self_loop is True:
-            sps_adj.setdiag(0.0)
+            sps_adj.setdiag(sps_adj.diagonal())
         kwargs = {"data": np.vstack((sps_adj.row, sps_adj.col)).T}
         if weighted is True:
             kwargs["weights"] = sps_adj.data
-- 
2.43.0


From d6c070a7b9c50bc45bc8c4ded5c0eec1d2de3ecd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:48 +0000
Subject: [PATCH 18/50] fix: shift_eta() missed its target when the resultant
 has mass

The correction was computed as though rapidity and pseudorapidity are
equal, and became zero after the first iteration.
---
 graphicle/data.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/graphicle/data.py b/graphicle/data.py
index ff59584..097b176 100644
--- a/graphicle/data.py
+++ b/graphicle/data.py
@@ -1723,8 +1723,12 @@ class MomentumArray(base.ArrayBase):
             if math.isclose(eta_mid, target, rel_tol=0.0, abs_tol=abs_tol):
                 converged = True
                 break
-            rap_mid, _ = calculate.resultant_coords(pmu, pseudo=False)
-            correction = target - rap_mid
+            pmu_sum = np.sum(pmu, axis=0)
+            # true rapidity at which the resultant has the target eta
+            target_rap = np.arcsinh(
+                np.sinh(target) * pmu_sum.pt / pmu_sum.mass_t
+            )
+            correction = (target_rap - pmu_sum.rapidity).item()
             pmu = pmu.shift_rapidity(correction)
             eta_mid, _ = calculate.resultant_coords(pmu, pseudo=True)
         if converged is not True:
-- 
2.43.0


From 6527fbd4d2cad1d2197e40c812b86a4cd47c9c06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:09 +0000
Subject: [PATCH 19/50] fix: leaves of hierarchy() included the parent of the
 parton

hard_descendants() already includes the parton itself, so the particle
added was the one which decays into it. Siblings therefore overlapped,
and the parent was missing from its own latent mask.
---
 graphicle/select.py | 16 ++++------------
 1 file changed, 4 insertions(+), 12 deletions(-)

diff --git a/graphicle/select.py b/graphicle/select.py
index dc1e93d..83b038e 100644
--- a/graphicle/select.py
+++ b/graphicle/select.py
@@ -821,7 +821,7 @@ def hierarchy(
         hard_final_idxs = np.flatnonzero(hard_final)
         for key, idx in zip(hard_final_keys, hard_final_idxs):
             desc[key].data[idx] = True
-    masks = _make_tree(hard, roots, hard, desc, graph.adj)
+    masks = _make_tree(hard, roots, hard, desc)
     return masks
 
 
@@ -830,7 +830,6 @@ def _make_tree(
     roots: ty.Set[str],
     hard: ty.Dict[str, ty.Tuple[str, ...]],
     desc: gcl.MaskGroup[gcl.MaskArray],
-    adj: gcl.AdjacencyList,
 ) -> gcl.MaskGroup[MaskType]:
     """Recursive function to convert a flat representation of the hard
     process tree into a nested ``MaskGroup`` of ``MaskGroup`` object.
@@ -853,26 +852,19 @@ def _make_tree(
     branch = gcl.MaskGroup(agg_op="or")  # type: ignore
     if isinstance(flat, dict):
         for key, nest in filter(lambda item: item[0] in roots, flat.items()):
-            branch[key] = _make_tree(nest, roots, hard, desc, adj)
+            branch[key] = _make_tree(nest, roots, hard, desc)
             branch[key]["latent"] = (  # type: ignore
                 branch[key].data != desc[key].data
             )
     else:
         for parton in flat:
             if parton in hard:
-                branch[parton] = _make_tree(
-                    hard[parton], roots, hard, desc, adj
-                )
+                branch[parton] = _make_tree(hard[parton], roots, hard, desc)
                 branch[parton]["latent"] = (  # type: ignore
                     branch[parton].data != desc[parton].data
                 )
             else:
-                mask = desc[parton]
-                in_edge = adj.edges["src"][mask][0]
-                initial_parton_mask = adj.edges["dst"] == in_edge
-                if np.sum(initial_parton_mask) == 1:
-                    mask.data[initial_parton_mask] = True
-                branch[parton] = mask
+                branch[parton] = desc[parton]
     return branch
 
 
-- 
2.43.0


From b797ac9b52aa6aaec49926a3f7e7809364350950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:09 +0000
Subject: [PATCH 20/50] fix: hierarchy() dropped hard partons outside of decay
 chains

e.g. the jet in p p > t t~ j.
---
 graphicle/select.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/graphicle/select.py b/graphicle/select.py
index 83b038e..abc2f23 100644
--- a/graphicle/select.py
+++ b/graphicle/select.py
@@ -822,6 +822,9 @@ def hierarchy(
         for key, idx in zip(hard_final_keys, hard_final_idxs):
             desc[key].data[idx] = True
     masks = _make_tree(hard, roots, hard, desc)
+    for name in names:
+        if name not in keys and name not in vals:  # no parent or children
+            masks[name] = desc[name]
     return masks
 
 
-- 
2.43.0


From cb981749929dd59cff4e7c60f52bd93b8294f764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:38 +0000
Subject: [PATCH 21/50] fix: gradient of spherocity, which stopped the search
 short of a minimum

---
 graphicle/calculate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graphicle/calculate.py b/graphicle/calculate.py
index 759e0ab..5d1f256 100644
--- a/graphicle/calculate.py
+++ b/graphicle/calculate.py
@@ -687,7 +687,7 @@ def _spherocity_with_grad(
             - sin_2theta * ((y * z * cos_phi) - (x * z * sin_phi))
         )
         grad_theta_sum += cross_norm_recip * (
-            -2.0 * cos_2theta * ((x * y * cos_phi) + (y * z * sin_phi))
+            -2.0 * cos_2theta * ((x * z * cos_phi) + (y * z * sin_phi))
             - 0.5
             * sin_2theta
             * (
-- 
2.43.0


From 4b1cd57e6c4015a4642c34dc31870b5dc20adaa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:14 +0000
Subject: [PATCH 22/50] fix: thrust and spherocity searches got stuck at the
 bounds of the angles

---
 graphicle/calculate.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/graphicle/calculate.py b/graphicle/calculate.py
index 5d1f256..4bb485c 100644
--- a/graphicle/calculate.py
+++ b/graphicle/calculate.py
@@ -614,7 +614,6 @@ def thrust(
     optim = spo.minimize(
         fun=_thrust_with_grad,
         x0=guess,
-        bounds=(domain, domain),
         method="L-BFGS-B",
         jac=True,
         args=(pmu.data,),
@@ -789,7 +788,7 @@ def spherocity(
     optim = spo.minimize(
         fun=_spherocity_with_grad,
         x0=guess,
-        bounds=(domain, domain),
+        method="L-BFGS-B",
         jac=True,
         args=(pmu.data,),
     )
-- 
2.43.0


From a3022a28433358dc3d96e0e3860bfc8aa20fcff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:22 +0000
Subject: [PATCH 23/50] fix: knn_adj() gave too many neighbours if particles
 coincide

---
 graphicle/matrix.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/graphicle/matrix.py b/graphicle/matrix.py
index c4a1fc0..f9fef35 100644
--- a/graphicle/matrix.py
+++ b/graphicle/matrix.py
@@ -131,9 +131,12 @@ def knn_adj(
     boolean.
     """
     axis = 1  # calculate everything row-wise
+    order = matrix
     if self_loop is False:
         k = k + 1  # for when we get rid of self-neighbours
-    knn_idxs = np.argpartition(matrix, kth=(k - 1), axis=axis)
+        order = np.array(matrix, dtype=np.float64)
+        np.fill_diagonal(order, -np.inf)  # self first, if others coincide
+    knn_idxs = np.argpartition(order, kth=(k - 1), axis=axis)
     near = knn_idxs[:, :k]
     edge_weights = 1
     if weighted is True:
-- 
2.43.0


From 930f2c1a5363db9f8fe1ac511be62b931bb20abd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:22 +0000
Subject: [PATCH 24/50] fix: table of an event with edges only had no rows

---
 graphicle/data.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/graphicle/data.py b/graphicle/data.py
index 097b176..9910277 100644
--- a/graphicle/data.py
+++ b/graphicle/data.py
@@ -2751,6 +2751,8 @@ class Graphicle:
         headers, rows = self.particles._table_list()
         if not self.adj:
             return _table_repr(headers, rows, num_rows, html)
+        if not headers:  # no particle data
+            rows = it.repeat(())
         headers = headers + ("src", "dst")
         rows = map(lambda row, edge: row + edge, rows, self.adj)
         return _table_repr(headers, rows, num_rows, html)
-- 
2.43.0


From 6be93e36b26d36cefbbf31b2f2e38ce33596a4ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:50 +0000
Subject: [PATCH 25/50] fix: fastjet_clusters() failed for integer powers
 beyond kT and anti-kT

---
 graphicle/select.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graphicle/select.py b/graphicle/select.py
index abc2f23..16f46e2 100644
--- a/graphicle/select.py
+++ b/graphicle/select.py
@@ -144,7 +144,7 @@ def fastjet_clusters(
         algo = fj.kt_algorithm
     else:
         algo = fj.genkt_algorithm
-        extra_param = (p_val,)
+        extra_param = (float(p_val),)  # integer is a recombination scheme
     jet_def = fj.JetDefinition(algo, radius, *extra_param)
     sequence = fj.ClusterSequence(pmu_ak, jet_def)
     jets = sequence.inclusive_jets(pt_cut)
-- 
2.43.0


From e02b2e54e62c00f94a47af3fa8316ac58a443096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:14 +0000
Subject: [PATCH 26/50] fix: brackets in mask names were swallowed by the
 printed tree

---
 graphicle/data.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/graphicle/data.py b/graphicle/data.py
index 9910277..ebcbd6a 100644
--- a/graphicle/data.py
+++ b/graphicle/data.py
@@ -59,6 +59,7 @@ from deprecation import deprecated
 from mcpid.lookup import PdgRecords
 from numpy.lib import recfunctions as rfn
 from rich.console import Console
+from rich.text import Text
 from rich.tree import Tree
 from scipy.sparse import coo_array, csr_array
 from tabulate import tabulate
@@ -760,7 +761,7 @@ class MaskGroup(base.MaskBase, ty.MutableMapping[str, MaskGeneric]):
         def make_tree(mask: "MaskGroup", branch: Tree) -> Tree:
             branch_copy = deepcopy(branch)
             for key, val in mask.items():
-                sub_branch = Tree(f"{key}")
+                sub_branch = Tree(Text(f"{key}"))
                 if isinstance(val, MaskGroup):
                     sub_branch = sub_branch.add(make_tree(val, sub_branch))
                 branch_copy.add(sub_branch)
-- 
2.43.0


From fbcf1a738fc78c6d08fd16a903e7923d2d729ed9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:52 +0000
Subject: [PATCH 27/50] fix: links among more than 4096 neighbours were summed
 in single precision

---
 graphicle/calculate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graphicle/calculate.py b/graphicle/calculate.py
index 4bb485c..be91cfa 100644
--- a/graphicle/calculate.py
+++ b/graphicle/calculate.py
@@ -344,7 +344,7 @@ def _clust_coeffs(adj: base.BoolVector) -> base.FloatVector:
         if num_neibs < 2:
             coefs[node_idx] = 0.0
             continue
-        num_interlinks_x2 = np.sum(adj[neibs, :][:, neibs], dtype=np.float32)
+        num_interlinks_x2 = np.sum(adj[neibs, :][:, neibs], dtype=np.int64)
         coefs[node_idx] = num_interlinks_x2 / (num_neibs * (num_neibs - 1))
     return coefs
 
-- 
2.43.0


From bbdbb55a6141eb4598c17ca597b41199b1d7468b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:52 +0000
Subject: [PATCH 28/50] fix: shift_eta() warned although its last correction
 had converged

---
 graphicle/data.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/graphicle/data.py b/graphicle/data.py
index ebcbd6a..7e48c75 100644
--- a/graphicle/data.py
+++ b/graphicle/data.py
@@ -1732,6 +1732,10 @@ class MomentumArray(base.ArrayBase):
             correction = (target_rap - pmu_sum.rapidity).item()
             pmu = pmu.shift_rapidity(correction)
             eta_mid, _ = calculate.resultant_coords(pmu, pseudo=True)
+        else:
+            converged = math.isclose(
+                eta_mid, target, rel_tol=0.0, abs_tol=abs_tol
+            )
         if converged is not True:
             warnings.warn(
                 f"Unable to converge within a tolerance of {abs_tol}.",
-- 
2.43.0


From bb28defb9f0661400c5cb59476e2219c43034031 Mon Sep 17 00:00:00 2001
From: x <a@b>
Date: Fri, 20 Nov 2026 01:18:24 +0000
Subject: [PATCH 29/50] fix: color_singlets() named the wrong partons when a
 leaf had no outgoing parton

---
 graphicle/select.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/graphicle/select.py b/graphicle/select.py
index 16f46e2..ca7a83f 100644
--- a/graphicle/select.py
+++ b/graphicle/select.py
@@ -1037,12 +1037,14 @@ def color_singlets(
     triplets. This functionality *may* be added in future.
     """
     hard_mask = status.hard_mask["outgoing"]
-    masks = map(op.and_, it.repeat(hard_mask), leaves.values())
+    masks = tuple(map(op.and_, it.repeat(hard_mask), leaves.values()))
+    # undecayed intermediate partons have no outgoing parton
+    outgoing_keys = it.compress(leaves.keys(), map(np.any, masks))
     colors_ = map(it.compress, it.repeat(color), masks)
     colors = tuple(it.chain.from_iterable(colors_))
     colored_mask = tuple(map(op.ne, it.repeat((0, 0)), colors))
     colored_only = it.compress(colors, colored_mask)
-    keys = tuple(it.compress(leaves.keys(), colored_mask))
+    keys = tuple(it.compress(outgoing_keys, colored_mask))
     named_colors = tuple(zip(keys, colored_only))
     combos = it.chain(
         it.combinations(named_colors, 2), it.combinations(named_colors, 3)
-- 
2.43.0


From 7577facdf0f39a8973ca2660c8624f9f5bc7071a Mon Sep 17 00:00:00 2001
From: x <a@b>
Date: Fri, 20 Nov 2026 01:18:42 +0000
Subject: [PATCH 30/50] fix: reductions over the components, spelled axis=-1,
 were taken for particles

---
 graphicle/data.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/graphicle/data.py b/graphicle/data.py
index 7e48c75..e8f6abc 100644
--- a/graphicle/data.py
+++ b/graphicle/data.py
@@ -162,6 +162,18 @@ class VertexPair(ty.NamedTuple):
     dst: int
 
 
+def _over_columns(
+    instance: DataType,
+    axis: ty.Union[int, ty.Tuple[int, ...], None] = 0,
+    **kwargs: ty.Any,
+) -> bool:
+    """Whether a numpy operation combines the columns of ``instance``,
+    however its ``axis`` was spelled.
+    """
+    axes = axis if isinstance(axis, tuple) else (axis,)
+    return instance._data.ndim > 1 and not {1, -1, None}.isdisjoint(axes)
+
+
 # from https://numpy.org/doc/stable/reference/generated/numpy.lib.mixins
 # .NDArrayOperatorsMixin.html
 def _array_ufunc(
@@ -230,7 +242,7 @@ def _array_ufunc(
         return MaskArray(result)
     else:
         # one return value
-        if not result.shape or kwargs.get("axis", None) == 1:
+        if not result.shape or _over_columns(instance, **kwargs):
             return result
         return class_type(result)
 
-- 
2.43.0


From eca608fd56bf4e276c9d9726e3a7201d8849c52f Mon Sep 17 00:00:00 2001
From: x <a@b>
Date: Fri, 20 Nov 2026 01:18:42 +0000
Subject: [PATCH 31/50] fix: element-wise boolean functions of multi-column
 arrays raised ValueError

---
 graphicle/data.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/graphicle/data.py b/graphicle/data.py
index e8f6abc..1278a54 100644
--- a/graphicle/data.py
+++ b/graphicle/data.py
@@ -211,8 +211,8 @@ def _array_ufunc(
         Output of passed ufunc. Type depends on ``method``, ``inputs``,
         and ``instance``. If ``method`` is ``'reduce'`` on ``instance``
         with a flat underlying array, then ``output`` will be scalar.
-        If ``ufunc`` maps an array to booleans, ``output`` will be a
-        ``MaskArray``.
+        If ``ufunc`` maps an array to one boolean per element, ``output``
+        will be a ``MaskArray``.
     """
     out = kwargs.get("out", ())
     class_type = instance.__class__
@@ -239,6 +239,8 @@ def _array_ufunc(
         # no return value
         return None
     elif isinstance(result, np.ndarray) and (result.dtype == np.bool_):
+        if result.shape[1:] == instance._data.shape[1:] != ():
+            return result  # booleans per component don't make a mask
         return MaskArray(result)
     else:
         # one return value
-- 
2.43.0


From 17a02b026974708e4b783e81b9b2b84b1701feca Mon Sep 17 00:00:00 2001
From: x <a@b>
Date: Fri, 20 Nov 2026 01:19:40 +0000
Subject: [PATCH 32/50] fix: products of multi-column arrays with vectors were
 taken for elements

---
 graphicle/data.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/graphicle/data.py b/graphicle/data.py
index 1278a54..92cd80a 100644
--- a/graphicle/data.py
+++ b/graphicle/data.py
@@ -244,7 +244,11 @@ def _array_ufunc(
         return MaskArray(result)
     else:
         # one return value
-        if not result.shape or _over_columns(instance, **kwargs):
+        over_columns = _over_columns(instance, **kwargs)
+        if ufunc is np.matmul and instance._data.ndim > 1:
+            # product with a vector gives one number per element
+            over_columns = np.ndim(inputs[1]) == 1
+        if not result.shape or over_columns:
             return result
         return class_type(result)
 
-- 
2.43.0


From 26887785be480582ff6ba064d04a90747037cc5c Mon Sep 17 00:00:00 2001
From: x <a@b>
Date: Fri, 20 Nov 2026 01:20:55 +0000
Subject: [PATCH 33/50] fix: index() and reversed() of the arrays disagreed
 with iterating them

---
 graphicle/base.py | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/graphicle/base.py b/graphicle/base.py
index 101f1d3..724e92e 100644
--- a/graphicle/base.py
+++ b/graphicle/base.py
@@ -134,7 +134,23 @@ class EventInterface(ty.Protocol):
         ...
 
 
-class ArrayBase(ABC, cla.Sequence, np.lib.mixins.NDArrayOperatorsMixin):
+class NativeSequence(cla.Sequence):
+    """Sequence whose elements, as found by iterating, are Python
+    natives, whereas subscripts give arrays.
+    """
+
+    def __reversed__(self) -> ty.Iterator[ty.Any]:
+        return reversed(tuple(self))
+
+    def index(
+        self, value: ty.Any, start: int = 0, stop: ty.Optional[int] = None
+    ) -> int:
+        """Position of the first element which is equal to ``value``."""
+        elems = tuple(self)
+        return elems.index(value, start, len(elems) if stop is None else stop)
+
+
+class ArrayBase(ABC, NativeSequence, np.lib.mixins.NDArrayOperatorsMixin):
     @abstractmethod
     def __init__(self, data: ty.Optional[AnyVector] = None) -> None:
         pass
@@ -213,7 +229,7 @@ class ParticleBase(ABC):
         pass
 
 
-class AdjacencyBase(ABC, cla.Sequence, np.lib.mixins.NDArrayOperatorsMixin):
+class AdjacencyBase(ABC, NativeSequence, np.lib.mixins.NDArrayOperatorsMixin):
     @abstractmethod
     def __len__(self) -> int:
         pass
-- 
2.43.0


From 2baed34a3c1c8df6778dd95ab8453b91fee0ff48 Mon Sep 17 00:00:00 2001
From: x <a@b>
Date: Fri, 20 Nov 2026 01:20:55 +0000
Subject: [PATCH 34/50] fix: MaskGroup could not be converted to numpy with a
 dtype

---
 graphicle/data.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/graphicle/data.py b/graphicle/data.py
index 92cd80a..75a3fa9 100644
--- a/graphicle/data.py
+++ b/graphicle/data.py
@@ -846,8 +846,12 @@ class MaskGroup(base.MaskBase, ty.MutableMapping[str, MaskGeneric]):
         """Remove a MaskArray from the group, using given key."""
         self._mask_arrays.pop(key)
 
-    def __array__(self) -> base.BoolVector:
-        return self.data
+    def __array__(
+        self,
+        dtype: ty.Optional[npt.DTypeLike] = None,
+        copy: ty.Optional[bool] = None,
+    ) -> base.BoolVector:
+        return self.data if dtype is None else self.data.astype(dtype)
 
     def __and__(self, other: base.MaskLike) -> MaskArray:
         if isinstance(other, base.MaskBase):
-- 
2.43.0


From 87e85218d71b7f297187028191ca0006795a15ab Mon Sep 17 00:00:00 2001
From: x <a@b>
Date: Fri, 20 Nov 2026 01:22:07 +0000
Subject: [PATCH 35/50] fix: iterating over an empty record never ended

---
 graphicle/data.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/graphicle/data.py b/graphicle/data.py
index 75a3fa9..43ce254 100644
--- a/graphicle/data.py
+++ b/graphicle/data.py
@@ -2227,6 +2227,8 @@ def _nonempty_dsets(instance: CompositeType) -> DsetPair:
 
 
 def _composite_getitem(instance: CompositeGeneric, key) -> CompositeGeneric:
+    if isinstance(key, (int, np.integer)) and len(instance) == 0:
+        raise IndexError("index out of bounds, there are no elements")
     names, data = _nonempty_dsets(instance)
     data_sliced = map(op.getitem, data, it.repeat(key))
     return instance.__class__(**dict(zip(names, data_sliced)))
-- 
2.43.0


From d33e02c11733dc5501c73bdc578cd8284beb1e80 Mon Sep 17 00:00:00 2001
From: x <a@b>
Date: Fri, 20 Nov 2026 01:22:29 +0000
Subject: [PATCH 36/50] fix: comparing records gave the mask of one of their
 attributes

---
 graphicle/data.py | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/graphicle/data.py b/graphicle/data.py
index 43ce254..8ba116b 100644
--- a/graphicle/data.py
+++ b/graphicle/data.py
@@ -2242,6 +2242,24 @@ def _composite_len(instance: CompositeType) -> int:
     return next(filter(fn.partial(op.lt, 0), map(len, _dsets(instance)[1])), 0)
 
 
+def _composite_eq(instance: CompositeType, other: ty.Any) -> bool:
+    """Whether both records hold the same data, in all attributes."""
+    if other.__class__ is not instance.__class__:
+        return NotImplemented
+    for dset, dset_other in zip(_dsets(instance)[1], _dsets(other)[1]):
+        if isinstance(dset, base.ParticleBase):
+            if dset != dset_other:
+                return False
+            continue
+        if not np.array_equal(dset._data, dset_other._data):
+            return False
+        if isinstance(dset, base.AdjacencyBase) and not np.array_equal(
+            dset.weights, dset_other.weights
+        ):
+            return False
+    return True
+
+
 def _composite_copy(instance: CompositeGeneric) -> CompositeGeneric:
     names, data = _nonempty_dsets(instance)
     copies = map(op.methodcaller("copy"), data)
@@ -2313,6 +2331,9 @@ class ParticleSet(base.ParticleBase):
     def __getitem__(self, key) -> "ParticleSet":
         return _composite_getitem(self, key)
 
+    def __eq__(self, other) -> bool:
+        return _composite_eq(self, other)
+
     def __bool__(self) -> bool:
         return _composite_bool(self)
 
@@ -2769,6 +2790,9 @@ class Graphicle:
     def __getitem__(self, key) -> "Graphicle":
         return _composite_getitem(self, key)
 
+    def __eq__(self, other) -> bool:
+        return _composite_eq(self, other)
+
     def __bool__(self) -> bool:
         return _composite_bool(self)
 
-- 
2.43.0


From 47fc4a60c5e96b6e81791c2ec282e5299bbf535f Mon Sep 17 00:00:00 2001
From: x <a@b>
Date: Fri, 20 Nov 2026 01:22:29 +0000
Subject: [PATCH 37/50] fix: MaskGroup claimed to contain whatever it can be
 subscripted with

---
 graphicle/data.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/graphicle/data.py b/graphicle/data.py
index 8ba116b..e5a623b 100644
--- a/graphicle/data.py
+++ b/graphicle/data.py
@@ -796,6 +796,9 @@ class MaskGroup(base.MaskBase, ty.MutableMapping[str, MaskGeneric]):
     def __iter__(self) -> ty.Iterator[str]:
         return iter(self._mask_arrays)
 
+    def __contains__(self, key) -> bool:
+        return key in self._mask_arrays
+
     def __getitem__(
         self, key
     ) -> ty.Union[MaskArray, "MaskGroup[MaskGeneric]"]:
-- 
2.43.0


From 1e911f8fa7aeb0b5f225ef27cdf8b9cd23946692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:12 +0000
Subject: [PATCH 38/50] fix: record arrays were not recognised as structured
 arrays

---
 graphicle/data.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/graphicle/data.py b/graphicle/data.py
index e5a623b..0b85ce2 100644
--- a/graphicle/data.py
+++ b/graphicle/data.py
@@ -264,7 +264,7 @@ def _array_eq_prep(
     if isinstance(other, (base.ArrayBase, base.AdjacencyBase)):
         other_data = other.data  # type: ignore
     elif (dtype.type == np.void) and not (
-        isinstance(other, np.ndarray) and (other.dtype.type == np.void)
+        isinstance(other, np.ndarray) and issubclass(other.dtype.type, np.void)
     ):
         dt_set = set(map(op.itemgetter(1), dtype.descr))
         assert len(dt_set) == 1
@@ -440,9 +440,8 @@ def _array_field(dtype: npt.DTypeLike, num_cols: int = 1):
 
     @_row_contiguous
     def converter(values: npt.ArrayLike) -> base.AnyVector:
-        if isinstance(values, np.ndarray) and values.dtype.type == np.void:
+        if isinstance(values, np.ndarray) and values.dtype.names is not None:
             names = values.dtype.names
-            assert names is not None
             if num_cols == 4:
                 values = _reorder_pmu(values)
             elif (num_cols == 2) and (set(_EDGE_MAP.keys()) & set(names)):
-- 
2.43.0


From 790113624095ed23cf754a42c86e15e7f1f7fc8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:12 +0000
Subject: [PATCH 39/50] fix: colours given with the anticolor field first were
 swapped

---
 graphicle/data.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/graphicle/data.py b/graphicle/data.py
index 0b85ce2..3f7bcfa 100644
--- a/graphicle/data.py
+++ b/graphicle/data.py
@@ -120,6 +120,7 @@ _MOMENTUM_MAP = _map_invert(
 _MOMENTUM_ORDER = tuple("xyze")
 _EDGE_MAP = _map_invert({"src": {"in", "src"}, "dst": {"out", "dst"}})
 _EDGE_ORDER = ("src", "dst")
+_COLOR_ORDER = ("color", "anticolor")
 
 
 class MomentumElement(ty.NamedTuple):
@@ -446,6 +447,8 @@ def _array_field(dtype: npt.DTypeLike, num_cols: int = 1):
                 values = _reorder_pmu(values)
             elif (num_cols == 2) and (set(_EDGE_MAP.keys()) & set(names)):
                 values = _reorder_edges(values)
+            elif (num_cols == 2) and (set(names) == set(_COLOR_ORDER)):
+                values = values[list(_COLOR_ORDER)]
             values = rfn.structured_to_unstructured(values)
         array = np.asarray(values, dtype=dtype)
         shape = array.shape
-- 
2.43.0


From 7b2f82dc31be98ce0c901c76b103ed570aa4ef97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:12 +0000
Subject: [PATCH 40/50] fix: tagging an event without partons raised a
 TypeError

---
 graphicle/select.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/graphicle/select.py b/graphicle/select.py
index ca7a83f..6d31977 100644
--- a/graphicle/select.py
+++ b/graphicle/select.py
@@ -1300,8 +1300,8 @@ def monte_carlo_tag(
         size mismatch with either the number of particles in the final
         state, or the length of clustered_pmu when passed.
     IndexError
-        If after applying ``blacklist`` or ``whitelist``, no matching
-        partons remain in the hard process.
+        If the chosen stages of the hard process have no partons, or
+        none remain after applying ``blacklist`` or ``whitelist``.
 
     See Also
     --------
@@ -1356,6 +1356,8 @@ def monte_carlo_tag(
             "At least one of either intermediate or outgoing must be True."
         )
     portion_mask = particles.status.hard_mask[portions].data
+    if not np.any(portion_mask):
+        raise IndexError("No partons found in the chosen stages.")
     hard_pmu = particles.pmu[portion_mask]
     hard_pdg = particles.pdg[portion_mask]
     if blacklist and whitelist:
-- 
2.43.0


From 7a7d9b9e4cf2287dc433063b64d79650d818cb00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:07 +0000
Subject: [PATCH 41/50] fix: give the thrust and spherocity of the axis which
 is returned

After a failed line search, the value which scipy reports need not belong
to the parameters which it reports.
---
 graphicle/calculate.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/graphicle/calculate.py b/graphicle/calculate.py
index be91cfa..1746530 100644
--- a/graphicle/calculate.py
+++ b/graphicle/calculate.py
@@ -618,7 +618,8 @@ def thrust(
         jac=True,
         args=(pmu.data,),
     )
-    thrust_val = -optim.fun
+    # after a failed line search, optim.fun may not be the value at optim.x
+    thrust_val = -_thrust_with_grad(optim.x, pmu.data)[0]
     if return_axis:
         return thrust_val, _angles_to_axis(optim.x)
     return thrust_val
@@ -792,7 +793,8 @@ def spherocity(
         jac=True,
         args=(pmu.data,),
     )
-    sph_val = optim.fun
+    # after a failed line search, optim.fun may not be the value at optim.x
+    sph_val = _spherocity_with_grad(optim.x, pmu.data)[0]
     if return_axis:
         return sph_val, _angles_to_axis(optim.x)
     return sph_val
-- 
2.43.0


From a43c3b93c7084dd26defe46fac2f083e1889d43c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:44 +0000
Subject: [PATCH 42/50] fix: combined_mass turned all warnings of the process
 into errors

---
 graphicle/calculate.py | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/graphicle/calculate.py b/graphicle/calculate.py
index 1746530..9a64c99 100644
--- a/graphicle/calculate.py
+++ b/graphicle/calculate.py
@@ -12,7 +12,6 @@ import itertools as it
 import math
 import operator as op
 import typing as ty
-import warnings
 
 import numba as nb
 import numpy as np
@@ -179,13 +178,10 @@ def combined_mass(
         data = weight * data
     # mass given as minkowski norm of (weighted) momenta
     minkowski = np.array([-1.0, -1.0, -1.0, 1.0])
-    mass: float
-    with warnings.catch_warnings():  # catch when np.sqrt warns < 0 input
-        warnings.filterwarnings("error")
-        try:
-            mass = np.sqrt((data.sum(axis=0) ** 2) @ minkowski)
-        except RuntimeWarning:
-            mass = 0.0  # if sqrt(pmu^2) < 0, return mass as 0.0
+    mass_sq = (data.sum(axis=0) ** 2) @ minkowski
+    mass: float = 0.0  # if pmu^2 < 0, return mass as 0.0
+    if not mass_sq < 0.0:
+        mass = np.sqrt(mass_sq)
     return mass
 
 
-- 
2.43.0


From f885ef9bd96465ac74559b92416ec4dcc30df448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:45 +0000
Subject: [PATCH 43/50] fix: eta silenced the warnings of other threads

---
 graphicle/data.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/graphicle/data.py b/graphicle/data.py
index 3f7bcfa..460fdab 100644
--- a/graphicle/data.py
+++ b/graphicle/data.py
@@ -1584,8 +1584,7 @@ class MomentumArray(base.ArrayBase):
         -----
         Infinite values for particles travelling parallel to beam axis.
         """
-        with warnings.catch_warnings():
-            warnings.simplefilter("ignore")
+        with np.errstate(divide="ignore", invalid="ignore"):
             arr = np.arctanh(self.z / self._spatial_mag)
         return arr.reshape(-1)
 
-- 
2.43.0


From 9b74b9e70c0852a2451cab9fba25d688d62b8911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:45 +0000
Subject: [PATCH 44/50] fix: the order of lone colored partons depended on
 string hashes

---
 graphicle/select.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graphicle/select.py b/graphicle/select.py
index 6d31977..ba0afdd 100644
--- a/graphicle/select.py
+++ b/graphicle/select.py
@@ -1057,7 +1057,7 @@ def color_singlets(
             singlets.append(names)
     if invert is True:
         members = set(it.chain.from_iterable(singlets))
-        outcasts = set(keys).symmetric_difference(members)
+        outcasts = it.filterfalse(members.__contains__, keys)
         return list(zip(outcasts))
     return singlets
 
-- 
2.43.0


From fedb2dee1875461b60c536214c3194a2e00723a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:48 +0000
Subject: [PATCH 45/50] fix: combined_mass took the fields of structured arrays
 by position

---
 graphicle/calculate.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/graphicle/calculate.py b/graphicle/calculate.py
index 9a64c99..dea570b 100644
--- a/graphicle/calculate.py
+++ b/graphicle/calculate.py
@@ -131,6 +131,14 @@ def resultant_coords(
     return rap, phi
 
 
+def _momentum_columns(structured: base.VoidVector) -> base.DoubleVector:
+    """Unstructured view, with columns ordered as ``(x, y, z, e)``."""
+    names = ["x", "y", "z", "e"]
+    if set(structured.dtype.names) == set(names):
+        structured = structured[names]
+    return rfn.structured_to_unstructured(structured)
+
+
 def combined_mass(
     pmu: ty.Union["MomentumArray", base.VoidVector],
     weight: ty.Optional[base.DoubleVector] = None,
@@ -169,12 +177,12 @@ def combined_mass(
     # sanitizing and combining the inputs
     if isinstance(pmu, base.ArrayBase):
         pmu = pmu.data
-    data = rfn.structured_to_unstructured(pmu)
+    data = _momentum_columns(pmu)
     if weight is not None:
         if not isinstance(weight, np.ndarray):
             raise ValueError("Weights must be provided as a numpy array.")
         if weight.dtype.names is not None:
-            weight = rfn.structured_to_unstructured(weight)
+            weight = _momentum_columns(weight)
         data = weight * data
     # mass given as minkowski norm of (weighted) momenta
     minkowski = np.array([-1.0, -1.0, -1.0, 1.0])
-- 
2.43.0


From e0fb8a0f15ea3d9a320efb4c590bc9270f79e5c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:13:58 +0000
Subject: [PATCH 46/50] fix: rotation axes with integer angles were refused

---
 graphicle/transform.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/graphicle/transform.py b/graphicle/transform.py
index a27bac9..b95b2ac 100644
--- a/graphicle/transform.py
+++ b/graphicle/transform.py
@@ -42,7 +42,9 @@ class SphericalAxis(ty.NamedTuple):
 
 
 def _angles_to_axis(angles: SphericalAngle) -> SphericalAxis:
-    axis = gcl.calculate._angles_to_axis(np.array([angles.phi, angles.theta]))
+    axis = gcl.calculate._angles_to_axis(
+        np.array([angles.phi, angles.theta], dtype=np.float64)
+    )
     return SphericalAxis(*axis.tolist())
 
 
-- 
2.43.0


From 7b86746b4edbea36ffba1255d72fc1ca9fe0f207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:13:58 +0000
Subject: [PATCH 47/50] fix: an empty whitelist tagged as if there were none,
 or as a blacklist

monte_carlo_tag took empty lists for absent ones, so that an empty
whitelist filtered nothing, and next to it a blacklist was taken for a
whitelist.
---
 graphicle/select.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/graphicle/select.py b/graphicle/select.py
index ba0afdd..a785921 100644
--- a/graphicle/select.py
+++ b/graphicle/select.py
@@ -1360,9 +1360,10 @@ def monte_carlo_tag(
         raise IndexError("No partons found in the chosen stages.")
     hard_pmu = particles.pmu[portion_mask]
     hard_pdg = particles.pdg[portion_mask]
-    if blacklist and whitelist:
+    if (blacklist is not None) and (whitelist is not None):
         raise ValueError("Cannot simultaneously blacklist and whitelist.")
-    if list_ := (blacklist or whitelist):
+    list_ = blacklist if whitelist is None else whitelist
+    if list_ is not None:
         hard_pdg_ = hard_pdg
         if not sign_sensitive:
             hard_pdg_ = np.abs(hard_pdg_)
-- 
2.43.0


From c82328d4e971830f856ec1ec57c72adc1c636bd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:13:58 +0000
Subject: [PATCH 48/50] fix: jaccard_distance refuses masks and weights of
 other lengths

The surplus elements of the longer arrays were silently left out.
---
 graphicle/calculate.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/graphicle/calculate.py b/graphicle/calculate.py
index dea570b..bbad111 100644
--- a/graphicle/calculate.py
+++ b/graphicle/calculate.py
@@ -920,6 +920,9 @@ def jaccard_distance(
         mask_1 = mask_1.data
     if not isinstance(mask_2, np.ndarray):
         mask_2 = mask_2.data
+    for array in (mask_2, weights):
+        if (array is not None) and (len(array) != len(mask_1)):
+            raise ValueError("Masks and weights must have the same length.")
     return _jaccard_distance(mask_1, mask_2, weights)
 
 
-- 
2.43.0


From f228a928e78ad1444b5525380c3d20a4ddc49769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:14:07 +0000
Subject: [PATCH 49/50] fix: events whose masks have no final state selection
 may be imported

---
 graphicle/data.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/graphicle/data.py b/graphicle/data.py
index 460fdab..3cee69f 100644
--- a/graphicle/data.py
+++ b/graphicle/data.py
@@ -2853,7 +2853,10 @@ class Graphicle:
                 params[attr] = getattr(event, attr)
             except AttributeError:
                 if attr == "final" and hasattr(event, "masks"):
-                    params["final"] = event.masks["final"]
+                    try:
+                        params["final"] = event.masks["final"]
+                    except KeyError:  # only other selections
+                        continue
         return cls.from_numpy(**params)
 
     @classmethod
-- 
2.43.0


From 9496383f69d3477ab6f0be47e893802500ab5937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:12:39 +0000
Subject: [PATCH 50/50] fix: names of particles may be numpy strings, as
 PdgArray.name gives them

---
 graphicle/data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graphicle/data.py b/graphicle/data.py
index 3cee69f..b18eb40 100644
--- a/graphicle/data.py
+++ b/graphicle/data.py
@@ -1149,7 +1149,7 @@ class PdgArray(base.ArrayBase):
         """
         if not isinstance(names, str) and isinstance(names, cla.Iterable):
             names = list(names)
-            if not all(map(op.is_, map(type, names), it.repeat(str))):
+            if not all(isinstance(name, str) for name in names):
                 raise ValueError(
                     "When passing an iterable as names, all elements must be "
                     "of type str."
-- 
2.43.0

