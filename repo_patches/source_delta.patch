From 571890c4404211b62eaa3fe8dd511c2b1e341b1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:30 +0000
Subject: [PATCH 01/46] fix: rotate points of shifted grids about the origin

get_grid_points_by_rotations (without surface treatment) and the Python
variant with surface treatment rotated the unshifted integer address, so that
on a half-shifted grid the returned points were not rotations of the input.
---
 phono3py/phonon/grid.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/phono3py/phonon/grid.py b/phono3py/phonon/grid.py
index 6f44d72..b87fc30 100644
--- a/phono3py/phonon/grid.py
+++ b/phono3py/phonon/grid.py
@@ -976,9 +976,16 @@ def get_grid_points_by_rotations(
         return _get_grid_points_by_rotations(bz_gp, bz_grid, rec_rots)
 
 
+def _rotate_grid_address(bz_gp, bz_grid: BZGrid, rotations):
+    """Return rotated grid addresses, taking the grid shift into account."""
+    PS = bz_grid.PS
+    dadrs_rot = np.dot(rotations, bz_grid.addresses[bz_gp] * 2 + PS)
+    return (dadrs_rot - PS) // 2
+
+
 def _get_grid_points_by_rotations(bz_gp, bz_grid: BZGrid, rotations):
     """Grid point rotations without surface treatment."""
-    rot_adrs = np.dot(rotations, bz_grid.addresses[bz_gp])
+    rot_adrs = _rotate_grid_address(bz_gp, bz_grid, rotations)
     grgps = get_grid_point_from_address(rot_adrs, bz_grid.D_diag)
     return bz_grid.grg2bzg[grgps]
 
@@ -1016,7 +1023,7 @@ def _get_grid_points_by_bz_rotations_py(bz_gp, bz_grid: BZGrid, rotations):
     indices.
 
     """
-    rot_adrs = np.dot(rotations, bz_grid.addresses[bz_gp])
+    rot_adrs = _rotate_grid_address(bz_gp, bz_grid, rotations)
     grgps = get_grid_point_from_address(rot_adrs, bz_grid.D_diag)
     bzgps = np.zeros(len(grgps), dtype="int64")
     if bz_grid.store_dense_gp_map:
-- 
2.43.0


From d0643ac7ce98000ef3f5bd177afe64daa875c6ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:30 +0000
Subject: [PATCH 02/46] fix: refuse transformation matrix whose inverse is not
 an integer matrix

The check required every element to deviate, and only upwards, before it
raised the error.
---
 phono3py/phonon/grid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/phono3py/phonon/grid.py b/phono3py/phonon/grid.py
index b87fc30..34050e5 100644
--- a/phono3py/phonon/grid.py
+++ b/phono3py/phonon/grid.py
@@ -740,7 +740,7 @@ class GridMatrix:
         """
         tmat_inv = np.linalg.inv(transformation_matrix)
         tmat_inv_int = np.rint(tmat_inv).astype(int)
-        if (tmat_inv - tmat_inv_int > 1e-8).all():
+        if (np.abs(tmat_inv - tmat_inv_int) > 1e-8).any():
             msg = "Inverse of transformation matrix has to be an integer matrix."
             raise RuntimeError(msg)
         if determinant(tmat_inv_int) < 0:
-- 
2.43.0


From 93a891f5f4366038cf350b871f39b1f960f9ab76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:14 +0000
Subject: [PATCH 03/46] fix: store detailed gammas at bands under their sigma
 and temperature

The result of the k-th temperature overwrote the k-th sigma (all
temperatures), or failed with IndexError with more temperatures than sigmas.
---
 phono3py/phonon3/imag_self_energy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/phono3py/phonon3/imag_self_energy.py b/phono3py/phonon3/imag_self_energy.py
index 5df9a1c..d0274f5 100644
--- a/phono3py/phonon3/imag_self_energy.py
+++ b/phono3py/phonon3/imag_self_energy.py
@@ -897,7 +897,7 @@ def _get_imag_self_energy_at_sigma(
             ise.run()
             gamma[j, k, i] = ise.imag_self_energy
             if write_gamma_detail or return_gamma_detail:
-                detailed_gamma_at_gp[k] = ise.detailed_imag_self_energy
+                detailed_gamma_at_gp_at_j[k] = ise.detailed_imag_self_energy
     else:
         run_ise_at_frequency_points_batch(
             i,
-- 
2.43.0


From f7a1a12abbb76b0149be9682c1fcc837456bf5fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:15 +0000
Subject: [PATCH 04/46] fix: return detailed gammas once per grid point

Each grid point was appended once for every sigma.
---
 phono3py/phonon3/imag_self_energy.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/phono3py/phonon3/imag_self_energy.py b/phono3py/phonon3/imag_self_energy.py
index d0274f5..05c7e56 100644
--- a/phono3py/phonon3/imag_self_energy.py
+++ b/phono3py/phonon3/imag_self_energy.py
@@ -866,8 +866,8 @@ def _get_imag_self_energy_at_gp(
                     'self energy is written in\n"%s".' % full_filename
                 )
 
-        if return_gamma_detail:
-            detailed_gamma.append(detailed_gamma_at_gp)
+    if return_gamma_detail:
+        detailed_gamma.append(detailed_gamma_at_gp)
 
 
 def _get_imag_self_energy_at_sigma(
-- 
2.43.0


From 3b19753bf428e3675144739b8db3f66a9240cdc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:15 +0000
Subject: [PATCH 05/46] fix: refuse phonon data given on different grid
 addresses

Data were refused only if every single integer differed.
---
 phono3py/phonon3/interaction.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/phono3py/phonon3/interaction.py b/phono3py/phonon3/interaction.py
index 700c4e3..25bfe6e 100644
--- a/phono3py/phonon3/interaction.py
+++ b/phono3py/phonon3/interaction.py
@@ -696,7 +696,7 @@ class Interaction:
                 "Input grid address size is inconsistent. Setting phonons failed."
             )
 
-        if (self._bz_grid.addresses - bz_grid_addresses).all():
+        if (self._bz_grid.addresses != bz_grid_addresses).any():
             raise RuntimeError(
                 "Input grid addresses are inconsistent. Setting phonons failed."
             )
-- 
2.43.0


From 2dace43dc2622b40b4953012933e403ba06e4c8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:06:37 +0000
Subject: [PATCH 06/46] fix: give the reciprocal lattice to the search of BZ
 triplets

The search compares lengths of reciprocal lattice vectors computed from a
reciprocal lattice that was never set (uninitialised heap memory), so that the
triplet chosen when no combination sums to zero was arbitrary.
---
 c/_phono3py.cpp              |  6 +++++-
 c/phono3py.c                 |  3 ++-
 c/phono3py.h                 |  3 ++-
 phono3py/phonon/grid.py      | 10 ++++++++++
 phono3py/phonon3/triplets.py |  1 +
 5 files changed, 20 insertions(+), 3 deletions(-)

diff --git a/c/_phono3py.cpp b/c/_phono3py.cpp
index a5f9735..76e7ffd 100644
--- a/c/_phono3py.cpp
+++ b/c/_phono3py.cpp
@@ -800,6 +800,7 @@ int64_t py_tpl_get_BZ_triplets_at_q(nb::ndarray<> py_triplets,
                                     nb::ndarray<> py_bz_map,
                                     nb::ndarray<> py_map_triplets,
                                     nb::ndarray<> py_D_diag, nb::ndarray<> py_Q,
+                                    nb::ndarray<> py_reciprocal_lattice,
                                     int64_t bz_grid_type) {
     int64_t(*triplets)[3];
     int64_t(*bz_grid_address)[3];
@@ -808,6 +809,7 @@ int64_t py_tpl_get_BZ_triplets_at_q(nb::ndarray<> py_triplets,
     int64_t num_map_triplets;
     int64_t *D_diag;
     int64_t(*Q)[3];
+    double(*reciprocal_lattice)[3];
     int64_t num_ir;
 
     triplets = (int64_t(*)[3])py_triplets.data();
@@ -817,10 +819,12 @@ int64_t py_tpl_get_BZ_triplets_at_q(nb::ndarray<> py_triplets,
     num_map_triplets = (int64_t)py_map_triplets.shape(0);
     D_diag = (int64_t *)py_D_diag.data();
     Q = (int64_t(*)[3])py_Q.data();
+    reciprocal_lattice = (double(*)[3])py_reciprocal_lattice.data();
 
     num_ir = ph3py_get_BZ_triplets_at_q(triplets, grid_point, bz_grid_address,
                                         bz_map, map_triplets, num_map_triplets,
-                                        D_diag, Q, bz_grid_type);
+                                        D_diag, Q, reciprocal_lattice,
+                                        bz_grid_type);
 
     return num_ir;
 }
diff --git a/c/phono3py.c b/c/phono3py.c
index 25d6e1f..887cedd 100644
--- a/c/phono3py.c
+++ b/c/phono3py.c
@@ -405,7 +405,7 @@ int64_t ph3py_get_BZ_triplets_at_q(
     const int64_t (*bz_grid_addresses)[3], const int64_t *bz_map,
     const int64_t *map_triplets, const int64_t num_map_triplets,
     const int64_t D_diag[3], const int64_t Q[3][3],
-    const int64_t bz_grid_type) {
+    const double reciprocal_lattice[3][3], const int64_t bz_grid_type) {
     RecgridConstBZGrid *bzgrid;
     int64_t i, j, num_ir;
 
@@ -423,6 +423,7 @@ int64_t ph3py_get_BZ_triplets_at_q(
         bzgrid->PS[i] = 0;
         for (j = 0; j < 3; j++) {
             bzgrid->Q[i][j] = Q[i][j];
+            bzgrid->reclat[i][j] = reciprocal_lattice[i][j];
         }
     }
     bzgrid->size = num_map_triplets;
diff --git a/c/phono3py.h b/c/phono3py.h
index 15f2d51..774be24 100644
--- a/c/phono3py.h
+++ b/c/phono3py.h
@@ -170,7 +170,8 @@ int64_t ph3py_get_BZ_triplets_at_q(
     int64_t (*triplets)[3], const int64_t grid_point,
     const int64_t (*bz_grid_addresses)[3], const int64_t *bz_map,
     const int64_t *map_triplets, const int64_t num_map_triplets,
-    const int64_t D_diag[3], const int64_t Q[3][3], const int64_t bz_grid_type);
+    const int64_t D_diag[3], const int64_t Q[3][3],
+    const double reciprocal_lattice[3][3], const int64_t bz_grid_type);
 int64_t ph3py_get_integration_weight(
     double *iw, char *iw_zero, const double *frequency_points,
     const int64_t num_band0, const int64_t relative_grid_address[24][4][3],
diff --git a/phono3py/phonon/grid.py b/phono3py/phonon/grid.py
index 34050e5..a4aeb5f 100644
--- a/phono3py/phonon/grid.py
+++ b/phono3py/phonon/grid.py
@@ -344,6 +344,16 @@ class BZGrid:
         """
         return self._grg2bzg
 
+    @property
+    def reciprocal_lattice(self):
+        """Return reciprocal basis vectors.
+
+        Reciprocal basis vectors of primitive cell in column vectors.
+        dtype='double', order='C', shape=(3, 3)
+
+        """
+        return self._reciprocal_lattice
+
     @property
     def microzone_lattice(self):
         """Basis vectors of microzone.
diff --git a/phono3py/phonon3/triplets.py b/phono3py/phonon3/triplets.py
index b1c3621..f14d657 100644
--- a/phono3py/phonon3/triplets.py
+++ b/phono3py/phonon3/triplets.py
@@ -335,6 +335,7 @@ def _get_BZ_triplets_at_q(bz_grid_index, bz_grid: BZGrid, map_triplets):
         map_triplets,
         np.array(bz_grid.D_diag, dtype="int64"),
         bz_grid.Q,
+        bz_grid.reciprocal_lattice,
         bz_grid.store_dense_gp_map * 1 + 1,
     )
 
-- 
2.43.0


From a560936c243e9754770c8fb42871837786f187b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:12 +0000
Subject: [PATCH 07/46] fix: triplet search at surface points of the sparse BZ
 grid

For a grid point on the BZ surface, the map of GR-grid points was indexed by
the BZ-grid point, i.e., out of its bounds.
---
 c/triplet_grid.c | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/c/triplet_grid.c b/c/triplet_grid.c
index c562e8d..708296c 100644
--- a/c/triplet_grid.c
+++ b/c/triplet_grid.c
@@ -258,7 +258,7 @@ static void get_BZ_triplets_at_q_type1(int64_t (*triplets)[3],
                                        const RecgridConstBZGrid *bzgrid,
                                        const int64_t *ir_q1_gps,
                                        const int64_t num_ir) {
-    int64_t i, j, gp2, num_gp, num_bzgp, bz0, bz1, bz2;
+    int64_t i, j, gp0, gp2, num_gp, num_bzgp, bz0, bz1, bz2;
     int64_t bzgp[3], G[3];
     int64_t bz_adrs0[3], bz_adrs1[3], bz_adrs2[3];
     const int64_t *gp_map;
@@ -275,6 +275,8 @@ static void get_BZ_triplets_at_q_type1(int64_t (*triplets)[3],
     for (i = 0; i < 3; i++) {
         bz_adrs0[i] = bz_adrs[grid_point][i];
     }
+    /* gp_map is indexed by GR-grid points, but grid_point can be on surface. */
+    gp0 = recgrid_get_grid_index_from_address(bz_adrs0, bzgrid->D_diag);
     num_gp = bzgrid->D_diag[0] * bzgrid->D_diag[1] * bzgrid->D_diag[2];
     num_bzgp = num_gp * 8;
 
@@ -290,13 +292,12 @@ static void get_BZ_triplets_at_q_type1(int64_t (*triplets)[3],
         gp2 = recgrid_get_grid_index_from_address(bz_adrs2, bzgrid->D_diag);
         /* Negative value is the signal to initialize min_d2 later. */
         min_d2 = -1;
-        for (bz0 = 0; bz0 < gp_map[num_bzgp + grid_point + 1] -
-                                gp_map[num_bzgp + grid_point] + 1;
+        for (bz0 = 0; bz0 < gp_map[num_bzgp + gp0 + 1] - gp_map[num_bzgp + gp0] + 1;
              bz0++) {
             if (bz0 == 0) {
-                bzgp[0] = grid_point;
+                bzgp[0] = gp0;
             } else {
-                bzgp[0] = num_gp + gp_map[num_bzgp + grid_point] + bz0 - 1;
+                bzgp[0] = num_gp + gp_map[num_bzgp + gp0] + bz0 - 1;
             }
             for (bz1 = 0; bz1 < gp_map[num_bzgp + ir_q1_gps[i] + 1] -
                                     gp_map[num_bzgp + ir_q1_gps[i]] + 1;
-- 
2.43.0


From a777b7799346d1e5c01e50176df792b41011a48c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:15 +0000
Subject: [PATCH 08/46] fix: uninitialised exchanged strengths with
 symmetrize_fc3q and partial bands

---
 c/interaction.c | 38 +++++++++++++++++++++++++++-----------
 1 file changed, 27 insertions(+), 11 deletions(-)

diff --git a/c/interaction.c b/c/interaction.c
index ca1ea7c..24997b4 100644
--- a/c/interaction.c
+++ b/c/interaction.c
@@ -60,8 +60,7 @@ static void real_to_normal(
     const double cutoff_frequency, const int64_t triplet_index,
     const int64_t num_triplets, const int64_t openmp_per_triplets);
 static void real_to_normal_sym_q(
-    double *fc3_normal_squared, const int64_t (*g_pos)[4],
-    const int64_t num_g_pos, double *const freqs[3],
+    double *fc3_normal_squared, double *const freqs[3],
     lapack_complex_double *const eigvecs[3], const double *fc3,
     const int64_t is_compact_fc3, const double q_vecs[3][3], /* q0, q1, q2 */
     const AtomTriplets *atom_triplets, const double *masses,
@@ -158,8 +157,8 @@ void itr_get_interaction_at_triplet(
             }
         }
         real_to_normal_sym_q(
-            fc3_normal_squared, g_pos, num_g_pos, freqs, eigvecs, fc3,
-            is_compact_fc3, q_vecs, /* q0, q1, q2 */
+            fc3_normal_squared, freqs, eigvecs, fc3, is_compact_fc3,
+            q_vecs, /* q0, q1, q2 */
             atom_triplets, masses, band_indices, num_band0, num_band,
             cutoff_frequency, triplet_index, num_triplets, openmp_per_triplets);
         for (j = 0; j < 3; j++) {
@@ -223,8 +222,7 @@ static void real_to_normal(
 }
 
 static void real_to_normal_sym_q(
-    double *fc3_normal_squared, const int64_t (*g_pos)[4],
-    const int64_t num_g_pos, double *const freqs[3],
+    double *fc3_normal_squared, double *const freqs[3],
     lapack_complex_double *const eigvecs[3], const double *fc3,
     const int64_t is_compact_fc3, const double q_vecs[3][3], /* q0, q1, q2 */
     const AtomTriplets *atom_triplets, const double *masses,
@@ -232,13 +230,29 @@ static void real_to_normal_sym_q(
     const int64_t num_band, const double cutoff_frequency,
     const int64_t triplet_index, const int64_t num_triplets,
     const int64_t openmp_per_triplets) {
-    int64_t i, j, k, l;
+    int64_t i, j, k, l, num_band_prod;
     int64_t band_ex[3];
     double q_vecs_ex[3][3];
     double *fc3_normal_squared_ex;
+    int64_t(*g_pos_ex)[4];
+    int64_t *band_indices_ex;
+
+    num_band_prod = num_band * num_band * num_band;
+    fc3_normal_squared_ex = (double *)malloc(sizeof(double) * num_band_prod);
 
-    fc3_normal_squared_ex =
-        (double *)malloc(sizeof(double) * num_band * num_band * num_band);
+    /* Exchanged band indices run over all bands irrespective of band_indices */
+    /* and g_zero, so every element of fc3_normal_squared_ex is needed. */
+    g_pos_ex = (int64_t(*)[4])malloc(sizeof(int64_t[4]) * num_band_prod);
+    band_indices_ex = (int64_t *)malloc(sizeof(int64_t) * num_band);
+    for (i = 0; i < num_band; i++) {
+        band_indices_ex[i] = i;
+    }
+    for (i = 0; i < num_band_prod; i++) {
+        g_pos_ex[i][0] = i / (num_band * num_band);
+        g_pos_ex[i][1] = (i / num_band) % num_band;
+        g_pos_ex[i][2] = i % num_band;
+        g_pos_ex[i][3] = i;
+    }
 
     for (i = 0; i < num_band0 * num_band * num_band; i++) {
         fc3_normal_squared[i] = 0;
@@ -251,12 +265,12 @@ static void real_to_normal_sym_q(
             }
         }
         real_to_normal(
-            fc3_normal_squared_ex, g_pos, num_g_pos,
+            fc3_normal_squared_ex, g_pos_ex, num_band_prod,
             freqs[index_exchange[i][0]], freqs[index_exchange[i][1]],
             freqs[index_exchange[i][2]], eigvecs[index_exchange[i][0]],
             eigvecs[index_exchange[i][1]], eigvecs[index_exchange[i][2]], fc3,
             is_compact_fc3, q_vecs_ex, /* q0, q1, q2 */
-            atom_triplets, masses, band_indices, num_band, cutoff_frequency,
+            atom_triplets, masses, band_indices_ex, num_band, cutoff_frequency,
             triplet_index, num_triplets, openmp_per_triplets);
         for (j = 0; j < num_band0; j++) {
             for (k = 0; k < num_band; k++) {
@@ -278,4 +292,6 @@ static void real_to_normal_sym_q(
     }
 
     free(fc3_normal_squared_ex);
+    free(g_pos_ex);
+    free(band_indices_ex);
 }
-- 
2.43.0


From 530110162fb7b7b8f5679fe74c4c9bb243ea1002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:41 +0000
Subject: [PATCH 09/46] fix: prefactor of Umklapp triplets in the Python fc3
 transformation

---
 phono3py/phonon3/real_to_reciprocal.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/phono3py/phonon3/real_to_reciprocal.py b/phono3py/phonon3/real_to_reciprocal.py
index cafa700..4793bfb 100644
--- a/phono3py/phonon3/real_to_reciprocal.py
+++ b/phono3py/phonon3/real_to_reciprocal.py
@@ -69,10 +69,7 @@ class RealToReciprocal:
 
     def _real_to_reciprocal(self):
         num_patom = len(self._primitive)
-        sum_triplets = np.where(
-            np.all(self._triplet != 0, axis=0), self._triplet.sum(axis=0), 0
-        )
-        sum_q = sum_triplets.astype("double") / self._mesh
+        sum_q = self._triplet.sum(axis=0).astype("double") / self._mesh
         for i in range(num_patom):
             for j in range(num_patom):
                 for k in range(num_patom):
-- 
2.43.0


From e26f6b88cfa23c29392d84d952db2edb5d2daa62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:13 +0000
Subject: [PATCH 10/46] fix: write joint-DOS files of all temperatures

---
 phono3py/file_IO.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/phono3py/file_IO.py b/phono3py/file_IO.py
index 62d43c4..f6154b6 100644
--- a/phono3py/file_IO.py
+++ b/phono3py/file_IO.py
@@ -524,7 +524,7 @@ def write_joint_dos(
         )
     else:
         for jdos_at_t, t in zip(jdos, temperatures):
-            return _write_joint_dos_at_t(
+            jdos_filename = _write_joint_dos_at_t(
                 gp,
                 mesh,
                 frequencies,
@@ -534,6 +534,7 @@ def write_joint_dos(
                 filename=filename,
                 is_mesh_symmetry=is_mesh_symmetry,
             )
+        return jdos_filename
 
 
 def _write_joint_dos_at_t(
-- 
2.43.0


From 42483caed5e0463f9627d323485ddfedb399b276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:13 +0000
Subject: [PATCH 11/46] fix: JointDos.get_mesh_numbers refers to an existing
 attribute

---
 phono3py/phonon3/joint_dos.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/phono3py/phonon3/joint_dos.py b/phono3py/phonon3/joint_dos.py
index 37c32a2..65c9bde 100644
--- a/phono3py/phonon3/joint_dos.py
+++ b/phono3py/phonon3/joint_dos.py
@@ -175,7 +175,7 @@ class JointDos:
     def get_mesh_numbers(self):
         """Return mesh numbers by three integer values."""
         warnings.warn("Use attribute, mesh_numbers", DeprecationWarning, stacklevel=2)
-        return self.mesh
+        return self.mesh_numbers
 
     @property
     def nac_q_direction(self):
-- 
2.43.0


From 94c0eb120a78bb8e2f6cb2eb1908ebd71966ddda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:51 +0000
Subject: [PATCH 12/46] fix: wrong bound in an assertion of the collision
 matrix kernel

Frequencies are given on BZ grid points, which are at least as many as the
generalized regular grid points; the assertion had the sense inverted and
aborted every build with assertions enabled.
---
 c/_phono3py.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c/_phono3py.cpp b/c/_phono3py.cpp
index 76e7ffd..ea21cc7 100644
--- a/c/_phono3py.cpp
+++ b/c/_phono3py.cpp
@@ -435,7 +435,7 @@ void py_get_collision_matrix(
     rotations_cartesian = (double *)py_rotations_cartesian.data();
 
     assert(num_rot == py_rotations_cartesian.shape(0));
-    assert(num_gp == py_frequencies.shape(0));
+    assert(num_gp <= py_frequencies.shape(0));
 
     ph3py_get_collision_matrix(collision_matrix, fc3_normal_squared,
                                frequencies, triplets, triplets_map, map_q,
-- 
2.43.0


From 7c6ee266bd382e6b29bd60de3665ce463af53d2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:05 +0000
Subject: [PATCH 13/46] fix: frequencies of GR-grid points in RTA of reducible
 collision matrix

---
 phono3py/conductivity/direct_solution.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/phono3py/conductivity/direct_solution.py b/phono3py/conductivity/direct_solution.py
index 4e689c5..83f480e 100644
--- a/phono3py/conductivity/direct_solution.py
+++ b/phono3py/conductivity/direct_solution.py
@@ -1027,7 +1027,7 @@ class ConductivityLBTEBase(ConductivityBase):
         )
 
         for gp in range(num_mesh_points):
-            frequencies = self._frequencies[gp]
+            frequencies = self._frequencies[self._pp.bz_grid.grg2bzg[gp]]
             for j, f in enumerate(frequencies):
                 if f > self._pp.cutoff_frequency:
                     i_mode = gp * num_band + j
-- 
2.43.0


From 84676823bcd7c613d94596a140f080a46ae29188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:05 +0000
Subject: [PATCH 14/46] fix: Kubo kappa skips only ignored modes, not the modes
 after them

---
 phono3py/conductivity/rta.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/phono3py/conductivity/rta.py b/phono3py/conductivity/rta.py
index 1771f5e..b1c2ab3 100644
--- a/phono3py/conductivity/rta.py
+++ b/phono3py/conductivity/rta.py
@@ -929,7 +929,7 @@ class ConductivityKuboRTA(ConductivityKuboMixIn, ConductivityRTABase):
         cvm = self._cv_mat[k, i_gp]
         for j_band, freq in enumerate(frequencies):
             if freq < self._pp.cutoff_frequency:
-                return
+                continue
 
             g = g_sum[i_band] + g_sum[j_band]
             for i_pair, _ in enumerate(
-- 
2.43.0


From c44e78d779b983b8b2894e2eee55fbe53b2c440d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:05 +0000
Subject: [PATCH 15/46] fix: GammaDOSsmearing uses the given smearing width

---
 phono3py/other/kaccum.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/phono3py/other/kaccum.py b/phono3py/other/kaccum.py
index d3c43a3..390be8a 100644
--- a/phono3py/other/kaccum.py
+++ b/phono3py/other/kaccum.py
@@ -230,7 +230,7 @@ class GammaDOSsmearing:
                 max(self._frequency_points) - min(self._frequency_points)
             ) / 100
         else:
-            self._sigma = 0.1
+            self._sigma = sigma
         self._smearing_function = NormalDistribution(self._sigma)
         self._run_smearing_method()
 
-- 
2.43.0


From fde1a67c0df6e3198d9f16400bd41e16ac38ed1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:28 +0000
Subject: [PATCH 16/46] fix: no reuse of ph-ph interaction screened by
 tetrahedron method for smearing

---
 phono3py/conductivity/direct_solution.py | 5 ++++-
 phono3py/conductivity/rta.py             | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/phono3py/conductivity/direct_solution.py b/phono3py/conductivity/direct_solution.py
index 83f480e..6e7b750 100644
--- a/phono3py/conductivity/direct_solution.py
+++ b/phono3py/conductivity/direct_solution.py
@@ -510,7 +510,10 @@ class ConductivityLBTEBase(ConductivityBase):
                     )
                 else:
                     self._collision.set_interaction_strength(pp_strength)
-            elif j != 0 and (self._is_full_pp or self._sigma_cutoff is None):
+            elif j != 0 and (
+                self._is_full_pp
+                or (self._sigma_cutoff is None and self._sigmas[j - 1] is not None)
+            ):
                 if self._log_level:
                     print("Existing ph-ph interaction is used.")
             else:
diff --git a/phono3py/conductivity/rta.py b/phono3py/conductivity/rta.py
index b1c2ab3..4628c8c 100644
--- a/phono3py/conductivity/rta.py
+++ b/phono3py/conductivity/rta.py
@@ -277,7 +277,10 @@ class ConductivityRTABase(ConductivityBase):
                     )
                 self._collision.run_interaction()
                 self._averaged_pp_interaction[i] = self._pp.averaged_interaction
-            elif j != 0 and (self._is_full_pp or self._sigma_cutoff is None):
+            elif j != 0 and (
+                self._is_full_pp
+                or (self._sigma_cutoff is None and self._sigmas[j - 1] is not None)
+            ):
                 if self._log_level:
                     print("Existing ph-ph interaction is used.")
             else:
-- 
2.43.0


From ce3a76c5dd3668f0c30b83da6f912d24b5d09307 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:28 +0000
Subject: [PATCH 17/46] fix: read gammas of all temperatures from collision
 files

---
 phono3py/conductivity/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/phono3py/conductivity/utils.py b/phono3py/conductivity/utils.py
index f7a66dc..8e919b8 100644
--- a/phono3py/conductivity/utils.py
+++ b/phono3py/conductivity/utils.py
@@ -1046,7 +1046,7 @@ def set_collision_from_file(
                 # The following invokes self._allocate_values()
                 lbte.temperatures = temperatures
             lbte.collision_matrix[i_sigma] = colmat_at_sigma[0]
-            lbte.gamma[i_sigma] = gamma_at_sigma[0]
+            lbte.gamma[i_sigma] = gamma_at_sigma
             read_from = "full_matrix"
         else:
             vals = _allocate_collision(
@@ -1245,7 +1245,7 @@ def _collect_collision_band(
         igp = bzg2grg[gp]
     else:
         igp = i
-    gamma_at_sigma[:, igp, j] = gamma_at_band[0]
+    gamma_at_sigma[:, igp, j] = gamma_at_band
     colmat_at_sigma[:, igp, j] = colmat_at_band[0]
     temperatures[:] = temperatures_at_band
 
-- 
2.43.0


From e62f2a57f28c535c7520448f120dbbfba4d60613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:28 +0000
Subject: [PATCH 18/46] fix: report a missing collision file at grid point and
 band

---
 phono3py/conductivity/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/phono3py/conductivity/utils.py b/phono3py/conductivity/utils.py
index 8e919b8..3200a0a 100644
--- a/phono3py/conductivity/utils.py
+++ b/phono3py/conductivity/utils.py
@@ -1237,7 +1237,7 @@ def _collect_collision_band(
     if log_level:
         sys.stdout.flush()
 
-    if collision_band is False:
+    if not collision_band:
         return False
 
     (colmat_at_band, gamma_at_band, temperatures_at_band) = collision_band
-- 
2.43.0


From d5ac242bb22f7e7c5cb572723a802fc826385e90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:28 +0000
Subject: [PATCH 19/46] fix: select temperatures of collision files at grid
 points

---
 phono3py/file_IO.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/phono3py/file_IO.py b/phono3py/file_IO.py
index f6154b6..02722e5 100644
--- a/phono3py/file_IO.py
+++ b/phono3py/file_IO.py
@@ -1145,7 +1145,10 @@ def read_collision_from_hdf5(
 
     if only_temperatures:
         with h5py.File(full_filename, "r") as f:
-            temperatures = np.array(f["temperature"][:], dtype="double")
+            if indices is None or indices == "all":
+                temperatures = np.array(f["temperature"][:], dtype="double")
+            else:
+                temperatures = np.array(f["temperature"][indices], dtype="double")
             return None, None, temperatures
 
     with h5py.File(full_filename, "r") as f:
-- 
2.43.0


From 38ee49814f7c8534297066622bf4f193f0fd82fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:28 +0000
Subject: [PATCH 20/46] fix: write detailed gammas of each sigma to its file

---
 phono3py/conductivity/rta.py   | 20 +++++++++++++-------
 phono3py/conductivity/utils.py |  8 ++++----
 2 files changed, 17 insertions(+), 11 deletions(-)

diff --git a/phono3py/conductivity/rta.py b/phono3py/conductivity/rta.py
index 4628c8c..1919b4e 100644
--- a/phono3py/conductivity/rta.py
+++ b/phono3py/conductivity/rta.py
@@ -138,7 +138,14 @@ class ConductivityRTABase(ConductivityBase):
         self._gamma_U = gamma_U
 
     def get_gamma_detail_at_q(self):
-        """Return contribution of each triplet to gamma at current q-point."""
+        """Return contribution of each triplet to gamma at current q-point.
+
+        Returns
+        -------
+        ndarray
+            shape=(sigmas, temperatures, triplets, band_indices, band, band)
+
+        """
         return self._gamma_detail_at_q
 
     def get_number_of_ignored_phonon_modes(self):
@@ -292,14 +299,13 @@ class ConductivityRTABase(ConductivityBase):
 
             # Number of triplets depends on q-point.
             # So this is allocated each time.
-            if self._is_gamma_detail:
-                num_temp = len(self._temperatures)
-                self._gamma_detail_at_q = np.empty(
-                    ((num_temp,) + self._pp.get_interaction_strength().shape),
+            if self._is_gamma_detail and j == 0:
+                self._gamma_detail_at_q = np.zeros(
+                    (len(self._sigmas), len(self._temperatures))
+                    + self._pp.get_interaction_strength().shape,
                     dtype="double",
                     order="C",
                 )
-                self._gamma_detail_at_q[:] = 0
 
             if self._log_level:
                 print("Calculating collisions at temperatures...")
@@ -312,7 +318,7 @@ class ConductivityRTABase(ConductivityBase):
                     self._gamma_N[j, k, i] = g_N
                     self._gamma_U[j, k, i] = g_U
                 if self._is_gamma_detail:
-                    self._gamma_detail_at_q[k] = (
+                    self._gamma_detail_at_q[j, k] = (
                         self._collision.get_detailed_imag_self_energy()
                     )
 
diff --git a/phono3py/conductivity/utils.py b/phono3py/conductivity/utils.py
index 3200a0a..b44bb06 100644
--- a/phono3py/conductivity/utils.py
+++ b/phono3py/conductivity/utils.py
@@ -366,12 +366,12 @@ class ConductivityRTAWriter:
         all_triplets = get_all_triplets(gp, interaction.bz_grid)
 
         if all_bands_exist(interaction):
-            for sigma in sigmas:
+            for j, sigma in enumerate(sigmas):
                 write_gamma_detail_to_hdf5(
                     temperatures,
                     mesh,
                     bz_grid=bz_grid,
-                    gamma_detail=gamma_detail,
+                    gamma_detail=gamma_detail[j],
                     grid_point=gp,
                     triplet=triplets,
                     weight=weights,
@@ -383,13 +383,13 @@ class ConductivityRTAWriter:
                     verbose=verbose,
                 )
         else:
-            for sigma in sigmas:
+            for j, sigma in enumerate(sigmas):
                 for k, bi in enumerate(interaction.get_band_indices()):
                     write_gamma_detail_to_hdf5(
                         temperatures,
                         mesh,
                         bz_grid=bz_grid,
-                        gamma_detail=gamma_detail[:, :, k, :, :],
+                        gamma_detail=gamma_detail[j, :, :, k, :, :],
                         grid_point=gp,
                         triplet=triplets,
                         weight=weights,
-- 
2.43.0


From f651b7bfeeae7e3957692b93f4c68d72c16ed924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:33 +0000
Subject: [PATCH 21/46] fix: compute heat capacity matrix for modes below 100
 kBT in Kubo formula

---
 phono3py/conductivity/kubo.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/phono3py/conductivity/kubo.py b/phono3py/conductivity/kubo.py
index 34da628..549c616 100644
--- a/phono3py/conductivity/kubo.py
+++ b/phono3py/conductivity/kubo.py
@@ -75,9 +75,11 @@ class ConductivityKuboMixIn:
         cutoff = self._pp.cutoff_frequency * THzToEv
 
         for i_temp, temp in enumerate(self._temperatures):
-            if (freqs / (temp * Kb) > 100).any():
-                continue
-            cvm = mode_cv_matrix(temp, freqs, cutoff=cutoff)
+            cvm = np.zeros((len(freqs), len(freqs)), dtype="double", order="C")
+            valid = np.where(freqs / (temp * Kb) <= 100)[0]
+            cvm[np.ix_(valid, valid)] = mode_cv_matrix(
+                temp, freqs[valid], cutoff=cutoff
+            )
             self._cv_mat[i_temp, i_data] = cvm[self._pp.band_indices, :]
 
     def _set_velocities(self, i_gp, i_data):
-- 
2.43.0


From e0262327c1afc85e2ce30e1c51779df431d369bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:33 +0000
Subject: [PATCH 22/46] fix: set total conductivities of direct solution of
 Wigner equation

---
 phono3py/conductivity/direct_solution.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/phono3py/conductivity/direct_solution.py b/phono3py/conductivity/direct_solution.py
index 6e7b750..fb70bb1 100644
--- a/phono3py/conductivity/direct_solution.py
+++ b/phono3py/conductivity/direct_solution.py
@@ -1578,6 +1578,13 @@ class ConductivityWignerLBTE(ConductivityWignerMixIn, ConductivityLBTEBase):
 
                     self._set_kappa(j, k, weights)
 
+                    self._kappa_TOT_exact[j, k] = (
+                        self._kappa_P_exact[j, k] + self._kappa_C[j, k]
+                    )
+                    self._kappa_TOT_RTA[j, k] = (
+                        self._kappa_P_RTA[j, k] + self._kappa_C[j, k]
+                    )
+
                     if self._log_level:
                         print(
                             ("#%6s       " + " %-10s" * 6)
-- 
2.43.0


From 1e93d16b472a0b9c084e3d79356ff5a234322f00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:33 +0000
Subject: [PATCH 23/46] fix: write isotope rates of the right grid point to
 collision file

---
 phono3py/conductivity/utils.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/phono3py/conductivity/utils.py b/phono3py/conductivity/utils.py
index b44bb06..8e64dc2 100644
--- a/phono3py/conductivity/utils.py
+++ b/phono3py/conductivity/utils.py
@@ -426,17 +426,18 @@ class ConductivityLBTEWriter:
 
         if i is not None:
             gp = grid_points[i]
+            if is_reducible_collision_matrix:
+                igp_iso = interaction.bz_grid.bzg2grg[gp]
+            else:
+                igp_iso = i
             if is_one_gp_colmat:
                 igp = 0
             else:
-                if is_reducible_collision_matrix:
-                    igp = interaction.bz_grid.bzg2grg[gp]
-                else:
-                    igp = i
+                igp = igp_iso
             if all_bands_exist(interaction):
                 for j, sigma in enumerate(sigmas):
                     if gamma_isotope is not None:
-                        gamma_isotope_at_sigma = gamma_isotope[j, igp]
+                        gamma_isotope_at_sigma = gamma_isotope[j, igp_iso]
                     else:
                         gamma_isotope_at_sigma = None
                     write_collision_to_hdf5(
@@ -454,7 +455,7 @@ class ConductivityLBTEWriter:
                 for j, sigma in enumerate(sigmas):
                     for k, bi in enumerate(interaction.band_indices):
                         if gamma_isotope is not None:
-                            gamma_isotope_at_sigma = gamma_isotope[j, igp, k]
+                            gamma_isotope_at_sigma = gamma_isotope[j, igp_iso, k]
                         else:
                             gamma_isotope_at_sigma = None
                         write_collision_to_hdf5(
-- 
2.43.0


From 950d63dd8ecd393be48ee010998236186a6a58b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:33 +0000
Subject: [PATCH 24/46] fix: use band index count for integration weights in
 Isotope Python code

---
 phono3py/other/isotope.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/phono3py/other/isotope.py b/phono3py/other/isotope.py
index 5903c8a..ab1fd23 100644
--- a/phono3py/other/isotope.py
+++ b/phono3py/other/isotope.py
@@ -346,7 +346,7 @@ class Isotope:
             self._set_integration_weights(lang="Py")
 
         t_inv = []
-        for bi in self._band_indices:
+        for i, bi in enumerate(self._band_indices):
             vec0 = self._eigenvectors[self._grid_point][:, bi].conj()
             f0 = self._frequencies[self._grid_point][bi]
             ti_sum = 0.0
@@ -361,7 +361,7 @@ class Isotope:
                         * self._mass_variances
                     )
                     if self._sigma is None:
-                        ti_sum += ti_sum_band * self._integration_weights[gp, bi, j]
+                        ti_sum += ti_sum_band * self._integration_weights[gp, i, j]
                     else:
                         ti_sum += ti_sum_band * gaussian(f0 - f, self._sigma)
             t_inv.append(np.pi / 2 / np.prod(self._bz_grid.D_diag) * f0**2 * ti_sum)
-- 
2.43.0


From 5427e6ee06d84ebfed56b7bf02f589a10eceb8f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:42 +0000
Subject: [PATCH 25/46] fix: use NAC direction only at Gamma in Wang's method

---
 c/phonon.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/c/phonon.c b/c/phonon.c
index e0f707d..43a135c 100644
--- a/c/phonon.c
+++ b/c/phonon.c
@@ -411,7 +411,8 @@ static void get_charge_sum(double (*charge_sum)[3][3], const int64_t num_patom,
     double inv_dielectric_factor, dielectric_factor, tmp_val;
     double q_cart[3];
 
-    if (q_direction) {
+    /* q_direction is used only at q=0. */
+    if (q_direction && q[0] == 0 && q[1] == 0 && q[2] == 0) {
         for (i = 0; i < 3; i++) {
             q_cart[i] = 0.0;
             for (j = 0; j < 3; j++) {
-- 
2.43.0


From 87a25a09187b41ad81fb5a2e1eed1f6eaf11b953 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:56 +0000
Subject: [PATCH 26/46] fix: use NAC direction only for grid point at Gamma

---
 phono3py/phonon3/interaction.py | 10 +++++++++-
 phono3py/phonon3/joint_dos.py   | 13 +++++++++----
 2 files changed, 18 insertions(+), 5 deletions(-)

diff --git a/phono3py/phonon3/interaction.py b/phono3py/phonon3/interaction.py
index 25bfe6e..b59a76d 100644
--- a/phono3py/phonon3/interaction.py
+++ b/phono3py/phonon3/interaction.py
@@ -738,6 +738,8 @@ class Interaction:
             gp_Gamma = self._bz_grid.gp_Gamma
             self._frequencies[gp_Gamma] = self._frequencies_at_gamma
             self._eigenvectors[gp_Gamma] = self._eigenvectors_at_gamma
+            self._phonon_done[gp_Gamma] = 1
+            self._done_nac_at_gamma = False
             return
 
         self._phonon_done[self._bz_grid.gp_Gamma] = 0
@@ -976,6 +978,11 @@ class Interaction:
         self._g_zero = g_zero
 
     def _run_phonon_solver_c(self, grid_points):
+        # NAC direction is used only by run_phonon_solver_at_gamma(is_nac=True).
+        if self._done_nac_at_gamma:
+            nac_q_direction = self._nac_q_direction
+        else:
+            nac_q_direction = None
         run_phonon_solver_c(
             self._dm,
             self._frequencies,
@@ -985,7 +992,7 @@ class Interaction:
             self._bz_grid.addresses,
             self._bz_grid.QDinv,
             frequency_conversion_factor=self._frequency_factor_to_THz,
-            nac_q_direction=self._nac_q_direction,
+            nac_q_direction=nac_q_direction,
             lapack_zheev_uplo=self._lapack_zheev_uplo,
         )
 
@@ -1041,6 +1048,7 @@ class Interaction:
             (num_grid, num_band, num_band), dtype=complex_dtype, order="C"
         )
         gp_Gamma = self._bz_grid.gp_Gamma
+        self._frequencies_at_gamma = None
         self.run_phonon_solver_at_gamma()
         self._frequencies_at_gamma = self._frequencies[gp_Gamma].copy()
         self._eigenvectors_at_gamma = self._eigenvectors[gp_Gamma].copy()
diff --git a/phono3py/phonon3/joint_dos.py b/phono3py/phonon3/joint_dos.py
index 65c9bde..a126d4c 100644
--- a/phono3py/phonon3/joint_dos.py
+++ b/phono3py/phonon3/joint_dos.py
@@ -246,9 +246,8 @@ class JointDos:
 
         gamma_gp = get_grid_point_from_address([0, 0, 0], self._bz_grid.D_diag)
         if (self._bz_grid.addresses[grid_point] == 0).all():
-            if self._nac_q_direction is not None:
-                self._done_nac_at_gamma = True
-                self._phonon_done[gamma_gp] = 0
+            self._done_nac_at_gamma = self._nac_q_direction is not None
+            self._phonon_done[gamma_gp] = 0
         elif self._done_nac_at_gamma:
             if self._nac_q_direction is None:
                 self._done_nac_at_gamma = False
@@ -277,6 +276,11 @@ class JointDos:
         else:
             _grid_points = grid_points
 
+        if self._done_nac_at_gamma:
+            nac_q_direction = self._nac_q_direction
+        else:
+            nac_q_direction = None
+
         run_phonon_solver_c(
             self._dm,
             self._frequencies,
@@ -286,7 +290,7 @@ class JointDos:
             self._bz_grid.addresses,
             self._bz_grid.QDinv,
             self._frequency_factor_to_THz,
-            self._nac_q_direction,
+            nac_q_direction,
             self._lapack_zheev_uplo,
         )
 
@@ -305,6 +309,7 @@ class JointDos:
 
         """
         self._phonon_done[self._bz_grid.gp_Gamma] = 0
+        self._done_nac_at_gamma = is_nac
         if is_nac:
             self.run_phonon_solver(np.array([self._bz_grid.gp_Gamma], dtype="int64"))
         else:
-- 
2.43.0


From 1b479a88f1d2eddf39fa4cc43548e255c93ec8ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:33 +0000
Subject: [PATCH 27/46] fix: recalculate phonons at Gamma with NAC without mesh
 symmetry

---
 phono3py/phonon3/interaction.py | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/phono3py/phonon3/interaction.py b/phono3py/phonon3/interaction.py
index b59a76d..de70926 100644
--- a/phono3py/phonon3/interaction.py
+++ b/phono3py/phonon3/interaction.py
@@ -618,21 +618,21 @@ class Interaction:
                     ir_map_at_q,
                 ) = get_triplets_at_q(grid_point, self._bz_grid)
 
-            # Re-calculate phonon at Gamma-point when q-direction is given.
-            if (self._bz_grid.addresses[grid_point] == 0).all():
-                self.run_phonon_solver_at_gamma(is_nac=True)
-            elif self._done_nac_at_gamma:
-                if self._nac_q_direction is None:
-                    self.run_phonon_solver_at_gamma()
-                else:
-                    msg = (
-                        "Phonons at Gamma has been calculated with NAC, "
-                        "but ph-ph interaction is expected to calculate at "
-                        "non-Gamma point. Setting Interaction.nac_q_direction = "
-                        "None, can avoid raising this exception to re-run phonon "
-                        "calculation at Gamma without NAC."
-                    )
-                    raise RuntimeError(msg)
+        # Re-calculate phonon at Gamma-point when q-direction is given.
+        if (self._bz_grid.addresses[grid_point] == 0).all():
+            self.run_phonon_solver_at_gamma(is_nac=True)
+        elif self._done_nac_at_gamma:
+            if self._nac_q_direction is None:
+                self.run_phonon_solver_at_gamma()
+            else:
+                msg = (
+                    "Phonons at Gamma has been calculated with NAC, "
+                    "but ph-ph interaction is expected to calculate at "
+                    "non-Gamma point. Setting Interaction.nac_q_direction = "
+                    "None, can avoid raising this exception to re-run phonon "
+                    "calculation at Gamma without NAC."
+                )
+                raise RuntimeError(msg)
 
         reciprocal_lattice = np.linalg.inv(self._primitive.cell)
         for triplet in triplets_at_q:
-- 
2.43.0


From 1dfd6d400dbf8571931354d05ed5eb724dff6dc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:37 +0000
Subject: [PATCH 28/46] fix: no isotope scattering below cutoff in Isotope
 Python code

---
 phono3py/other/isotope.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/phono3py/other/isotope.py b/phono3py/other/isotope.py
index ab1fd23..6f0b226 100644
--- a/phono3py/other/isotope.py
+++ b/phono3py/other/isotope.py
@@ -349,6 +349,9 @@ class Isotope:
         for i, bi in enumerate(self._band_indices):
             vec0 = self._eigenvectors[self._grid_point][:, bi].conj()
             f0 = self._frequencies[self._grid_point][bi]
+            if f0 < self._cutoff_frequency:
+                t_inv.append(0.0)
+                continue
             ti_sum = 0.0
             for gp in self._bz_grid.grg2bzg:
                 for j, (f, vec) in enumerate(
-- 
2.43.0


From e980ab7003b6ea1371c438a5ab90facfee1254b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:27 +0000
Subject: [PATCH 29/46] fix: print scalar properties that do not depend on
 temperature in kaccum

---
 phono3py/cui/kaccum_script.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/phono3py/cui/kaccum_script.py b/phono3py/cui/kaccum_script.py
index e452ade..f2f4fe6 100644
--- a/phono3py/cui/kaccum_script.py
+++ b/phono3py/cui/kaccum_script.py
@@ -38,7 +38,7 @@ def _show_tensor(kdos, temperatures, sampling_points, args):
 def _show_scalar(gdos, temperatures, sampling_points, args):
     """Show scalar values."""
     if args.pqj or args.gruneisen or args.gv_norm:
-        for f, g in zip(sampling_points, gdos[0]):
+        for f, g in zip(sampling_points[0], gdos[0]):
             print("%f %e %e" % (f, g[0], g[1]))
     else:
         for i, gdos_t in enumerate(gdos):
-- 
2.43.0


From 26ab96e0aee6bfee0c6e8c3f7cbeca2e5b499047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:27 +0000
Subject: [PATCH 30/46] fix: write scalar values of a band to kappa hdf5 file

---
 phono3py/file_IO.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/phono3py/file_IO.py b/phono3py/file_IO.py
index 02722e5..b67fc83 100644
--- a/phono3py/file_IO.py
+++ b/phono3py/file_IO.py
@@ -1010,17 +1010,23 @@ def write_kappa_to_hdf5(
         if gamma is not None:
             w.create_dataset("gamma", data=gamma, compression=compression)
         if gamma_isotope is not None:
-            w.create_dataset(
-                "gamma_isotope", data=gamma_isotope, compression=compression
-            )
+            if np.ndim(gamma_isotope) == 0:  # compression is unsupported for scalar
+                w.create_dataset("gamma_isotope", data=gamma_isotope)
+            else:
+                w.create_dataset(
+                    "gamma_isotope", data=gamma_isotope, compression=compression
+                )
         if gamma_N is not None:
             w.create_dataset("gamma_N", data=gamma_N, compression=compression)
         if gamma_U is not None:
             w.create_dataset("gamma_U", data=gamma_U, compression=compression)
         if averaged_pp_interaction is not None:
-            w.create_dataset(
-                "ave_pp", data=averaged_pp_interaction, compression=compression
-            )
+            if np.ndim(averaged_pp_interaction) == 0:
+                w.create_dataset("ave_pp", data=averaged_pp_interaction)
+            else:
+                w.create_dataset(
+                    "ave_pp", data=averaged_pp_interaction, compression=compression
+                )
         if qpoint is not None:
             w.create_dataset("qpoint", data=qpoint, compression=compression)
         if weight is not None:
-- 
2.43.0


From fec28704f4b26b32669bc77c6461ef00bbcda51f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:55 +0000
Subject: [PATCH 31/46] fix: use collision matrix and gammas read from files in
 LBTE

---
 phono3py/conductivity/utils.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/phono3py/conductivity/utils.py b/phono3py/conductivity/utils.py
index 8e64dc2..7f63bca 100644
--- a/phono3py/conductivity/utils.py
+++ b/phono3py/conductivity/utils.py
@@ -1125,6 +1125,9 @@ def set_collision_from_file(
                             return False
             read_from = "grid_points"
 
+    # With this, collision matrix and gamma read from file are used and not calculated.
+    lbte.gamma = lbte.gamma
+
     return read_from
 
 
-- 
2.43.0


From 9da45edf22f6b1f354559d315f62e4ad5fd790c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:08 +0000
Subject: [PATCH 32/46] fix: write spectral functions of all band indices to
 hdf5 file

---
 phono3py/file_IO.py                   |  2 +-
 phono3py/phonon3/spectral_function.py | 12 ++++++------
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/phono3py/file_IO.py b/phono3py/file_IO.py
index b67fc83..e6424fa 100644
--- a/phono3py/file_IO.py
+++ b/phono3py/file_IO.py
@@ -719,7 +719,7 @@ def write_spectral_function_to_hdf5(
     suffix = _get_filename_suffix(
         mesh, grid_point=grid_point, band_indices=_band_indices, sigma=sigma
     )
-    _band_indices = np.array(band_indices, dtype="intc")
+    _band_indices = np.hstack(band_indices).astype("intc")
 
     full_filename += suffix
     if filename is not None:
diff --git a/phono3py/phonon3/spectral_function.py b/phono3py/phonon3/spectral_function.py
index 95f4de3..b96e760 100644
--- a/phono3py/phonon3/spectral_function.py
+++ b/phono3py/phonon3/spectral_function.py
@@ -148,13 +148,13 @@ def run_spectral_function(
                             filename=output_filename,
                             is_mesh_symmetry=interaction.is_mesh_symmetry,
                         )
-                    if log_level:
-                        print(f'Spectral functions were written to "{filename}".')
+                        if log_level:
+                            print(f'Spectral functions were written to "{filename}".')
 
             if write_hdf5:
                 filename = write_spectral_function_to_hdf5(
                     gp,
-                    bi,
+                    band_indices,
                     temperatures,
                     spf.spectral_functions[sigma_i, :, i],
                     spf.shifts[sigma_i, :, i],
@@ -168,9 +168,9 @@ def run_spectral_function(
                     filename=output_filename,
                 )
 
-            if log_level:
-                print(f'Spectral functions were stored in "{filename}".')
-                sys.stdout.flush()
+                if log_level:
+                    print(f'Spectral functions were stored in "{filename}".')
+                    sys.stdout.flush()
 
     return spf
 
-- 
2.43.0


From 0b51049ebbf6e701619236b39d2a44cd173f7116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:33 +0000
Subject: [PATCH 33/46] fix: write gammas of Green-Kubo RTA to hdf5 file
 without heat capacity

---
 phono3py/conductivity/utils.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/phono3py/conductivity/utils.py b/phono3py/conductivity/utils.py
index 7f63bca..fad47f4 100644
--- a/phono3py/conductivity/utils.py
+++ b/phono3py/conductivity/utils.py
@@ -102,9 +102,9 @@ class ConductivityRTAWriter:
         else:
             velocity_operator_i = None
         if isinstance(br, (ConductivityRTA, ConductivityWignerRTA)):
-            mode_heat_capacities = br.mode_heat_capacities
+            heat_capacities_i = br.mode_heat_capacities[:, i]
         else:
-            mode_heat_capacities = None
+            heat_capacities_i = None
         ave_pp = br.averaged_pp_interaction
         mesh = br.mesh_numbers
         bz_grid = br.bz_grid
@@ -145,7 +145,7 @@ class ConductivityRTAWriter:
                     group_velocity=group_velocities_i,
                     gv_by_gv=gv_by_gv_i,
                     velocity_operator=velocity_operator_i,
-                    heat_capacity=mode_heat_capacities[:, i],
+                    heat_capacity=heat_capacities_i,
                     gamma=gamma[j, :, i],
                     gamma_isotope=gamma_isotope_at_sigma,
                     gamma_N=gamma_N_at_sigma,
@@ -174,6 +174,10 @@ class ConductivityRTAWriter:
                         gv_by_gv_ik = None
                     else:
                         gv_by_gv_ik = gv_by_gv_i[k]
+                    if heat_capacities_i is None:
+                        heat_capacities_ik = None
+                    else:
+                        heat_capacities_ik = heat_capacities_i[:, k]
                     if ave_pp is None:
                         ave_pp_ik = None
                     else:
@@ -199,7 +203,7 @@ class ConductivityRTAWriter:
                         group_velocity=group_velocities_ik,
                         gv_by_gv=gv_by_gv_ik,
                         velocity_operator=velocity_operator_ik,
-                        heat_capacity=mode_heat_capacities[:, i, k],
+                        heat_capacity=heat_capacities_ik,
                         gamma=gamma[j, :, i, k],
                         gamma_isotope=gamma_isotope_at_sigma,
                         gamma_N=gamma_N_at_sigma,
-- 
2.43.0


From 68a859a6e381476dc54449ee235c2ae8ad096eb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:44 +0000
Subject: [PATCH 34/46] fix: accept displacement dataset without forces of
 excluded pairs

---
 phono3py/phonon3/dataset.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/phono3py/phonon3/dataset.py b/phono3py/phonon3/dataset.py
index d65aea9..ca84f8c 100644
--- a/phono3py/phonon3/dataset.py
+++ b/phono3py/phonon3/dataset.py
@@ -84,14 +84,12 @@ def get_displacements_and_forces_fc3(
 
         for disp1 in disp_dataset["first_atoms"]:
             for disp2 in disp1["second_atoms"]:
-                if "included" in disp2:
-                    if disp2["included"]:
-                        indices.append(count)
-                else:
+                included = disp2.get("included", True)
+                if included:
                     indices.append(count)
                 displacements[count, disp1["number"]] = disp1["displacement"]
                 displacements[count, disp2["number"]] = disp2["displacement"]
-                if "forces" in disp2:
+                if included and "forces" in disp2:
                     forces_count += 1
                     forces[count] = disp2["forces"]
                 count += 1
@@ -100,7 +98,7 @@ def get_displacements_and_forces_fc3(
             forces = None
         else:
             forces = np.array(forces[indices], dtype="double", order="C")
-            assert forces_count == count
+            assert forces_count == len(indices)
 
         displacements = np.array(displacements[indices], dtype="double", order="C")
         return displacements, forces
-- 
2.43.0


From 9fa525682a11947170d3dae0b39e6a12dd14aa04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:44 +0000
Subject: [PATCH 35/46] fix: include displacements of first atoms of pairs in
 Phono3py.displacements

---
 phono3py/api_phono3py.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/phono3py/api_phono3py.py b/phono3py/api_phono3py.py
index 52eed4f..875a33e 100644
--- a/phono3py/api_phono3py.py
+++ b/phono3py/api_phono3py.py
@@ -869,7 +869,8 @@ class Phono3py:
                 i += 1
             for disp1 in dataset["first_atoms"]:
                 for disp2 in disp1["second_atoms"]:
-                    displacements[i, disp2["number"]] = disp2["displacement"]
+                    displacements[i, disp1["number"]] = disp1["displacement"]
+                    displacements[i, disp2["number"]] += disp2["displacement"]
                     i += 1
         elif "displacements" in dataset:
             displacements = dataset["displacements"]
-- 
2.43.0


From f046f6d7f9d3de6a8edab66452984b6d19ea036b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:44 +0000
Subject: [PATCH 36/46] fix: get forces and energies of datasets without those
 of excluded pairs

---
 phono3py/api_phono3py.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/phono3py/api_phono3py.py b/phono3py/api_phono3py.py
index 875a33e..87d5332 100644
--- a/phono3py/api_phono3py.py
+++ b/phono3py/api_phono3py.py
@@ -2589,11 +2589,16 @@ class Phono3py:
                 type1_target = "supercell_energy"
             count = 0
             for disp1 in self._dataset["first_atoms"]:
+                if type1_target not in disp1:
+                    return None
                 values[count] = disp1[type1_target]
                 count += 1
             for disp1 in self._dataset["first_atoms"]:
                 for disp2 in disp1["second_atoms"]:
-                    values[count] = disp2[type1_target]
+                    if type1_target in disp2:
+                        values[count] = disp2[type1_target]
+                    elif disp2.get("included", True):
+                        return None
                     count += 1
             return values
         return None
-- 
2.43.0


From 1ac815c7079982831692b4bb44107066b6522f6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:44 +0000
Subject: [PATCH 37/46] fix: keep exclusion of displacement pairs in
 phono3py-yaml file with forces

---
 phono3py/interface/phono3py_yaml.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/phono3py/interface/phono3py_yaml.py b/phono3py/interface/phono3py_yaml.py
index 2037985..4c6f715 100644
--- a/phono3py/interface/phono3py_yaml.py
+++ b/phono3py/interface/phono3py_yaml.py
@@ -552,7 +552,9 @@ def _second_displacements_yaml_lines(dataset2, id_offset, with_forces=False):
     unique_numbers = np.unique(numbers)
     for i in unique_numbers:
         indices_eq_i = np.sort(np.where(numbers == i)[0])
-        if with_forces and "forces" in dataset2[indices_eq_i[0]]:
+        # Forces of pairs excluded by cutoff distance are not written.
+        included = dataset2[indices_eq_i[0]].get("included", True)
+        if with_forces and included and "forces" in dataset2[indices_eq_i[0]]:
             for j in indices_eq_i:
                 disp2_id += 1
                 lines.append("  - atom: %4d" % (i + 1))
@@ -582,7 +584,6 @@ def _second_displacements_yaml_lines(dataset2, id_offset, with_forces=False):
                 "    pair_distance: %.8f" % dataset2[indices_eq_i[0]]["pair_distance"]
             )
             if "included" in dataset2[indices_eq_i[0]]:
-                included = dataset2[indices_eq_i[0]]["included"]
                 lines.append("    included: %s" % ("true" if included else "false"))
             disp_ids = []
             lines.append("    displacements:")
-- 
2.43.0


From baa2cc5c4bb59eb6a7eb4ec43b8120924458e905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:11 +0000
Subject: [PATCH 38/46] fix: set fc calculator parameters for fc2 when fc3 is
 not used

create_phono3py_force_constants failed by UnboundLocalError when fc2 was
computed from forces in the run modes that don't use fc3.
---
 phono3py/cui/create_force_constants.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/phono3py/cui/create_force_constants.py b/phono3py/cui/create_force_constants.py
index f6518a5..2e7ddb7 100644
--- a/phono3py/cui/create_force_constants.py
+++ b/phono3py/cui/create_force_constants.py
@@ -117,6 +117,10 @@ def create_phono3py_force_constants(
     if log_level:
         show_phono3py_force_constants_settings(settings)
 
+    (fc_calculator, fc_calculator_options) = get_fc_calculator_params(
+        settings, log_level=(not settings.read_fc3) * 1
+    )
+
     #######
     # fc3 #
     #######
@@ -130,9 +134,6 @@ def create_phono3py_force_constants(
     ):
         pass
     else:
-        (fc_calculator, fc_calculator_options) = get_fc_calculator_params(
-            settings, log_level=(not settings.read_fc3) * 1
-        )
         if settings.read_fc3:
             _read_phono3py_fc3(phono3py, symmetrize_fc3r, input_filename, log_level)
         else:  # fc3 from FORCES_FC3 or ph3py_yaml
-- 
2.43.0


From b9aa001d6404d8bdd81d2511064f5b3574060f52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:14 +0000
Subject: [PATCH 39/46] fix: symmetrize compact force constants by functions
 for compact form

_read_phono3py_fc3, Phono3py.set_permutation_symmetry, and
Phono3py.set_translational_invariance applied those for full form
irrespective of the form of force constants.
---
 phono3py/api_phono3py.py               | 25 +++++++++++++++++++++----
 phono3py/cui/create_force_constants.py | 10 ++++++++--
 2 files changed, 29 insertions(+), 6 deletions(-)

diff --git a/phono3py/api_phono3py.py b/phono3py/api_phono3py.py
index 87d5332..5b1c2de 100644
--- a/phono3py/api_phono3py.py
+++ b/phono3py/api_phono3py.py
@@ -48,6 +48,7 @@ from phonopy.harmonic.displacement import (
 )
 from phonopy.harmonic.dynamical_matrix import DynamicalMatrix
 from phonopy.harmonic.force_constants import (
+    compact_fc_to_full_fc,
     set_permutation_symmetry,
     set_translational_invariance,
     symmetrize_compact_force_constants,
@@ -1613,9 +1614,17 @@ class Phono3py:
     def set_permutation_symmetry(self):
         """Enforce permutation symmetry to fc2 and fc3."""
         if self._fc2 is not None:
-            set_permutation_symmetry(self._fc2)
+            if self._fc2.shape[0] == self._fc2.shape[1]:
+                set_permutation_symmetry(self._fc2)
+            else:
+                fc2 = compact_fc_to_full_fc(self._phonon_primitive, self._fc2)
+                set_permutation_symmetry(fc2)
+                self._fc2[:] = fc2[self._phonon_primitive.p2s_map]
         if self._fc3 is not None:
-            set_permutation_symmetry_fc3(self._fc3)
+            if self._fc3.shape[0] == self._fc3.shape[1]:
+                set_permutation_symmetry_fc3(self._fc3)
+            else:
+                set_permutation_symmetry_compact_fc3(self._fc3, self._primitive)
 
     def set_translational_invariance(self):
         """Enforce translation invariance.
@@ -1625,9 +1634,17 @@ class Phono3py:
 
         """
         if self._fc2 is not None:
-            set_translational_invariance(self._fc2)
+            if self._fc2.shape[0] == self._fc2.shape[1]:
+                set_translational_invariance(self._fc2)
+            else:
+                fc2 = compact_fc_to_full_fc(self._phonon_primitive, self._fc2)
+                set_translational_invariance(fc2)
+                self._fc2[:] = fc2[self._phonon_primitive.p2s_map]
         if self._fc3 is not None:
-            set_translational_invariance_fc3(self._fc3)
+            if self._fc3.shape[0] == self._fc3.shape[1]:
+                set_translational_invariance_fc3(self._fc3)
+            else:
+                set_translational_invariance_compact_fc3(self._fc3, self._primitive)
 
     def run_imag_self_energy(
         self,
diff --git a/phono3py/cui/create_force_constants.py b/phono3py/cui/create_force_constants.py
index 2e7ddb7..40c44ca 100644
--- a/phono3py/cui/create_force_constants.py
+++ b/phono3py/cui/create_force_constants.py
@@ -71,7 +71,9 @@ from phono3py.interface.fc_calculator import extract_fc2_fc3_calculators
 from phono3py.interface.phono3py_yaml import Phono3pyYaml
 from phono3py.phonon3.dataset import forces_in_dataset
 from phono3py.phonon3.fc3 import (
+    set_permutation_symmetry_compact_fc3,
     set_permutation_symmetry_fc3,
+    set_translational_invariance_compact_fc3,
     set_translational_invariance_fc3,
     show_drift_fc3,
 )
@@ -393,8 +395,12 @@ def _read_phono3py_fc3(phono3py: Phono3py, symmetrize_fc3r, input_filename, log_
         sys.exit(1)
 
     if symmetrize_fc3r:
-        set_translational_invariance_fc3(fc3)
-        set_permutation_symmetry_fc3(fc3)
+        if fc3.shape[0] == fc3.shape[1]:
+            set_translational_invariance_fc3(fc3)
+            set_permutation_symmetry_fc3(fc3)
+        else:
+            set_translational_invariance_compact_fc3(fc3, phono3py.primitive)
+            set_permutation_symmetry_compact_fc3(fc3, phono3py.primitive)
 
     phono3py.fc3 = fc3
 
-- 
2.43.0


From f26c47706cb129d54c4d1e727f34b63d8e2de1a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:38 +0000
Subject: [PATCH 40/46] fix: raise error when dataset is not found irrespective
 of calculator

parse_forces failed by TypeError in unit conversion when calculator was
given.
---
 phono3py/cui/create_force_constants.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/phono3py/cui/create_force_constants.py b/phono3py/cui/create_force_constants.py
index 40c44ca..f4ba89d 100644
--- a/phono3py/cui/create_force_constants.py
+++ b/phono3py/cui/create_force_constants.py
@@ -269,6 +269,9 @@ def parse_forces(
             if dataset:
                 filename_read_from = force_filename
 
+    if dataset is None:
+        raise RuntimeError("Dataset is not found.")
+
     # Units of displacements and forces are converted. If forces don't
     # exist, the conversion will not be performed for forces.
     if calculator is not None:
@@ -277,8 +280,6 @@ def parse_forces(
             distance_to_A=physical_units["distance_to_A"],
             force_to_eVperA=physical_units["force_to_eVperA"],
         )
-    if dataset is None:
-        raise RuntimeError("Dataset is not found.")
 
     if "natom" in dataset and dataset["natom"] != natom:
         raise RuntimeError(
-- 
2.43.0


From 93607c5d4ae6f421437eb8eaf4462221fdb479d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:54 +0000
Subject: [PATCH 41/46] fix: use calculator of phono3py-yaml file in collecting
 forces for fc2

---
 phono3py/cui/create_force_sets.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/phono3py/cui/create_force_sets.py b/phono3py/cui/create_force_sets.py
index 74d83f0..f44279b 100644
--- a/phono3py/cui/create_force_sets.py
+++ b/phono3py/cui/create_force_sets.py
@@ -267,7 +267,6 @@ def _get_force_sets_fc2(
     interface_mode: Optional[str],
     log_level: int,
 ) -> dict:
-    interface_mode = settings.calculator
     if log_level:
         print(f'FC2 displacement dataset was read from "{disp_filename}".')
 
-- 
2.43.0


From d4cbf2325929d9337188a8a8a475d6c949c2ef13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:54 +0000
Subject: [PATCH 42/46] fix: store forces of type-2 dataset collected without
 energies

---
 phono3py/cui/create_force_sets.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/phono3py/cui/create_force_sets.py b/phono3py/cui/create_force_sets.py
index f44279b..5a9f073 100644
--- a/phono3py/cui/create_force_sets.py
+++ b/phono3py/cui/create_force_sets.py
@@ -476,9 +476,10 @@ def _set_forces_and_nac_params(
         ph3py_yaml.dataset["forces"] = np.array(
             calc_dataset_fc3["forces"], dtype="double", order="C"
         )
-        ph3py_yaml.dataset["supercell_energies"] = np.array(
-            calc_dataset_fc3["supercell_energies"], dtype="double"
-        )
+        if "supercell_energies" in calc_dataset_fc3:
+            ph3py_yaml.dataset["supercell_energies"] = np.array(
+                calc_dataset_fc3["supercell_energies"], dtype="double"
+            )
         if len(ph3py_yaml.dataset["forces"]) != len(
             ph3py_yaml.dataset["displacements"]
         ):
@@ -498,9 +499,10 @@ def _set_forces_and_nac_params(
             ph3py_yaml.phonon_dataset["forces"] = np.array(
                 calc_dataset_fc2["forces"], dtype="double", order="C"
             )
-            ph3py_yaml.phonon_dataset["supercell_energies"] = np.array(
-                calc_dataset_fc2["supercell_energies"], dtype="double"
-            )
+            if "supercell_energies" in calc_dataset_fc2:
+                ph3py_yaml.phonon_dataset["supercell_energies"] = np.array(
+                    calc_dataset_fc2["supercell_energies"], dtype="double"
+                )
             if len(ph3py_yaml.phonon_dataset["forces"]) != len(
                 ph3py_yaml.phonon_dataset["displacements"]
             ):
-- 
2.43.0


From dd4991f9213cd4cbcde562dee1053514fae59585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:54 +0000
Subject: [PATCH 43/46] fix: write given forces to FORCES_FC2 and FORCES_FC3 of
 type-2 dataset

---
 phono3py/file_IO.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/phono3py/file_IO.py b/phono3py/file_IO.py
index e6424fa..21d1064 100644
--- a/phono3py/file_IO.py
+++ b/phono3py/file_IO.py
@@ -212,11 +212,11 @@ def write_FORCES_FC2(disp_dataset, forces_fc2=None, fp=None, filename="FORCES_FC
             for forces in force_set:
                 w.write("%15.10f %15.10f %15.10f\n" % tuple(forces))
     else:
-        if "forces" in disp_dataset:
+        if forces_fc2 is None:
+            if "forces" not in disp_dataset:
+                raise RuntimeError("No forces are found.")
             write_FORCE_SETS(disp_dataset, filename="FORCES_FC2")
         else:
-            if forces_fc2 is None:
-                raise RuntimeError("No forces are found.")
             dataset = disp_dataset.copy()
             dataset["forces"] = forces_fc2
             write_FORCE_SETS(dataset, filename="FORCES_FC2")
@@ -244,11 +244,11 @@ def write_FORCES_FC3(
         else:
             _write_FORCES_FC3_typeI(disp_dataset, fp, forces_fc3=forces_fc3)
     else:
-        if "forces" in disp_dataset:
+        if forces_fc3 is None:
+            if "forces" not in disp_dataset:
+                raise RuntimeError("No forces are found.")
             write_FORCE_SETS(disp_dataset, filename="FORCES_FC3")
         else:
-            if forces_fc3 is None:
-                raise RuntimeError("No forces are found.")
             dataset = disp_dataset.copy()
             dataset["forces"] = forces_fc3
             write_FORCE_SETS(dataset, filename="FORCES_FC3")
-- 
2.43.0


From bc54c48a8a04f025296c1f854f8a19303b8b74c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:21 +0000
Subject: [PATCH 44/46] fix: estimate number of random displacements for fc2
 with its supercell

---
 phono3py/api_phono3py.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/phono3py/api_phono3py.py b/phono3py/api_phono3py.py
index 5b1c2de..492b8f4 100644
--- a/phono3py/api_phono3py.py
+++ b/phono3py/api_phono3py.py
@@ -1429,7 +1429,7 @@ class Phono3py:
 
                 _number_of_snapshots = (
                     SymfcFCSolver(
-                        self._supercell, self._symmetry
+                        self._phonon_supercell, self._phonon_supercell_symmetry
                     ).estimate_numbers_of_supercells(orders=[2])[2]
                     * 2
                 )
-- 
2.43.0


From 96c78904a1a2fee920598d48fbb9a23578d71f4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:23 +0000
Subject: [PATCH 45/46] fix: read N_U and WRITE_LBTE_SOLUTION tags of
 configuration files

---
 phono3py/cui/settings.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/phono3py/cui/settings.py b/phono3py/cui/settings.py
index a70bc77..cddef52 100644
--- a/phono3py/cui/settings.py
+++ b/phono3py/cui/settings.py
@@ -496,7 +496,7 @@ class Phono3pyConfParser(ConfParser):
 
         if "is_N_U" in self._args:
             if self._args.is_N_U:
-                self._confs["N_U"] = ".true."
+                self._confs["n_u"] = ".true."
 
         if "is_plusminus_displacements_fc2" in self._args:
             if self._args.is_plusminus_displacements_fc2:
@@ -666,7 +666,7 @@ class Phono3pyConfParser(ConfParser):
 
         if "write_LBTE_solution" in self._args:
             if self._args.write_LBTE_solution:
-                self._confs["write_LBTE_solution"] = ".true."
+                self._confs["write_lbte_solution"] = ".true."
 
     def _parse_conf(self):
         ConfParser.parse_conf(self)
@@ -688,7 +688,7 @@ class Phono3pyConfParser(ConfParser):
                 "write_collision",
                 "write_phonon",
                 "write_pp",
-                "write_LBTE_solution",
+                "write_lbte_solution",
                 "full_pp",
                 "ion_clamped",
                 "bterta",
@@ -701,7 +701,7 @@ class Phono3pyConfParser(ConfParser):
                 "isotope",
                 "joint_dos",
                 "lbte",
-                "N_U",
+                "n_u",
                 "spectral_function",
                 "reducible_collision_matrix",
                 "show_symfc_memory_usage",
@@ -950,8 +950,8 @@ class Phono3pyConfParser(ConfParser):
             self._settings.set_num_points_in_batch(params["num_points_in_batch"])
 
         # Calculate Normal and Umklapp processes
-        if "N_U" in params:
-            self._settings.set_is_N_U(params["N_U"])
+        if "n_u" in params:
+            self._settings.set_is_N_U(params["n_u"])
 
         # Plus minus displacement for fc2
         if "pm_fc2" in params:
@@ -1100,5 +1100,5 @@ class Phono3pyConfParser(ConfParser):
             self._settings.set_write_pp(params["write_pp"])
 
         # Write direct solution of LBTE to hdf5 files
-        if "write_LBTE_solution" in params:
-            self._settings.set_write_LBTE_solution(params["write_LBTE_solution"])
+        if "write_lbte_solution" in params:
+            self._settings.set_write_LBTE_solution(params["write_lbte_solution"])
-- 
2.43.0


From 902d8f4719950a4a1de310520cb76f7438efefe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:23 +0000
Subject: [PATCH 46/46] fix: files of forces given to phono3py.load by name
 precede fc3.hdf5 and fc2.hdf5 found

---
 phono3py/cui/load.py | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/phono3py/cui/load.py b/phono3py/cui/load.py
index 3ca030e..8155d8e 100644
--- a/phono3py/cui/load.py
+++ b/phono3py/cui/load.py
@@ -344,7 +344,12 @@ def load(
         )
 
     load_fc2_and_fc3(
-        ph3py, fc3_filename=fc3_filename, fc2_filename=fc2_filename, log_level=log_level
+        ph3py,
+        fc3_filename=fc3_filename,
+        fc2_filename=fc2_filename,
+        search_fc3=forces_fc3_filename is None,
+        search_fc2=forces_fc2_filename is None or ph_smat is None,
+        log_level=log_level,
     )
     load_dataset_and_phonon_dataset(
         ph3py,
@@ -388,14 +393,21 @@ def load_fc2_and_fc3(
     ph3py: Phono3py,
     fc3_filename: Optional[os.PathLike] = None,
     fc2_filename: Optional[os.PathLike] = None,
+    search_fc3: bool = True,
+    search_fc2: bool = True,
     log_level: int = 0,
 ):
-    """Set force constants."""
-    if fc3_filename is not None or pathlib.Path("fc3.hdf5").exists():
+    """Set force constants.
+
+    Unless fc3_filename (fc2_filename) is given, fc3.hdf5 (fc2.hdf5) is searched
+    in current directory with search_fc3=True (search_fc2=True).
+
+    """
+    if fc3_filename is not None or (search_fc3 and pathlib.Path("fc3.hdf5").exists()):
         fc3 = _load_fc3(ph3py, fc3_filename=fc3_filename, log_level=log_level)
         ph3py.fc3 = fc3
 
-    if fc2_filename is not None or pathlib.Path("fc2.hdf5").exists():
+    if fc2_filename is not None or (search_fc2 and pathlib.Path("fc2.hdf5").exists()):
         fc2 = _load_fc2(ph3py, fc2_filename=fc2_filename, log_level=log_level)
         ph3py.fc2 = fc2
 
-- 
2.43.0

